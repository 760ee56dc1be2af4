// plain, pools, priorities
#include "core.hpp"
namespace core {
using namespace w;
K1(t0, 0, Trigger<M<0>>);
KR(t0r, 0, Trigger<M<0>>);
K1(t1, 1, Trigger<M<1>>);
KR(t1r, 1, Trigger<M<1>>);
K1(t2, 2, Trigger<M<2>>);
KR(t3r, 3, Trigger<M<3>>);
K1(t0_A, 0, Trigger<M<0>>, Pool<PA>);
K1(t1_A, 1, Trigger<M<1>>, Pool<PA>);
K1(t2_A, 2, Pool<PA>, Trigger<M<2>>);
K1(t0_B, 0, Trigger<M<0>>, Pool<PB>);
K1(t1_B, 1, Trigger<M<1>>, Pool<PB>);
KR(t2_B, 2, Trigger<M<2>>, Pool<PB>);
K1(t0_C, 0, Trigger<M<0>>, Pool<PC>);
K1(t2_C, 2, Trigger<M<2>>, Pool<PC>);
K1(t0_D, 0, Trigger<M<0>>, Pool<PD>);
K1(t1_D, 1, Trigger<M<1>>, Pool<PD>);
K1(t2_E, 2, Trigger<M<2>>, Pool<PE>);
K1(t1_E, 1, Trigger<M<1>>, Pool<PE>);
K1(t0_M, 0, Trigger<M<0>>, MainThread);
K1(t1_M, 1, Trigger<M<1>>, MainThread);
K1(t2_M, 2, MainThread, Trigger<M<2>>);
}  // namespace core
