// groups
#include "core.hpp"
namespace core {
using namespace w;
K1(t0_S0, 0, Trigger<M<0>>, Sync<S0>);
K1(t1_S0, 1, Trigger<M<1>>, Sync<S0>);
KR(t2_S0, 2, Trigger<M<2>>, Sync<S0>);
K1(t0_S1, 0, Trigger<M<0>>, Sync<S1>);
K1(t1_S1, 1, Trigger<M<1>>, Sync<S1>);
K1(t0_S0_A, 0, Trigger<M<0>>, Sync<S0>, Pool<PA>);
K1(t1_S0_B, 1, Trigger<M<1>>, Sync<S0>, Pool<PB>);
K1(t2_S0_M, 2, Trigger<M<2>>, Sync<S0>, MainThread);
K1(t3_S0_D, 3, Trigger<M<3>>, Sync<S0>, Pool<PD>);
K1(t0_G2, 0, Trigger<M<0>>, Group<G2>);
K1(t1_G2, 1, Trigger<M<1>>, Group<G2>);
K1(t2_G2_B, 2, Trigger<M<2>>, Group<G2>, Pool<PB>);
K1(t0_G3, 0, Trigger<M<0>>, Group<G3>);
K1(t3_G3_B, 3, Trigger<M<3>>, Group<G3>, Pool<PB>);
K1(t0_S0S1, 0, Trigger<M<0>>, Sync<S0>, Sync<S1>);
K1(t1_S0S1, 1, Trigger<M<1>>, Sync<S1>, Sync<S0>);
K1(t2_S1S2, 2, Trigger<M<2>>, Sync<S1>, Sync<S2>);
K1(t3_S0G2, 3, Trigger<M<3>>, Sync<S0>, Group<G2>);
K1(t0_G2G3_B, 0, Trigger<M<0>>, Group<G2>, Group<G3>, Pool<PB>);
K1(t1_S0S1S2_A, 1, Trigger<M<1>>, Sync<S0>, Sync<S1>, Sync<S2>, Pool<PA>);
K1(t2_S2, 2, Trigger<M<2>>, Sync<S2>);
K1(t3_G2_M, 3, Trigger<M<3>>, Group<G2>, MainThread);
}  // namespace core
