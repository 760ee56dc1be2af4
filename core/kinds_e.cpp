// data
#include "core.hpp"
namespace core {
using namespace w;
K2(t0_w1, 0, 1, Trigger<M<0>>, With<M<1>>);
K2(w1_t0, 1, 0, With<M<1>>, Trigger<M<0>>);
K2(t1_w2_A, 1, 2, Trigger<M<1>>, With<M<2>>, Pool<PA>);
K2(t0_o1, 0, 1, Trigger<M<0>>, Optional<With<M<1>>>);
K2(t2_o3_S0, 2, 3, Trigger<M<2>>, Optional<With<M<3>>>, Sync<S0>);
K3(t0_w1_o2, 0, 1, 2, Trigger<M<0>>, With<M<1>>, Optional<With<M<2>>>);
K3(t3_w1_w2, 3, 1, 2, Trigger<M<3>>, With<M<1>>, With<M<2>>);
K2(t0t1, 0, 1, Trigger<M<0>>, Trigger<M<1>>);
K2(t2t3_S0, 2, 3, Trigger<M<2>>, Trigger<M<3>>, Sync<S0>);
KL(last1, 0, Last<1, Trigger<M<0>>>);
KL(last2, 0, Last<2, Trigger<M<0>>>);
KL(last4_A, 1, Last<4, Trigger<M<1>>>, Pool<PA>);
KL(last3_S0, 2, Last<3, Trigger<M<2>>>, Sync<S0>);
KPL(t0_last2w1, 0, 1, Trigger<M<0>>, Last<2, With<M<1>>>);
KPL(t2_last3w1, 2, 1, Trigger<M<2>>, Last<3, With<M<1>>>);
K2(t1_w0_inl, 1, 0, Trigger<M<1>>, With<M<0>>, Inline::ALWAYS);
}  // namespace core
