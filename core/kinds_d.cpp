// drop policies, inline choices, once
#include "core.hpp"
namespace core {
using namespace w;
K1(t0_single, 0, Trigger<M<0>>, Single);
K1(t1_single_A, 1, Trigger<M<1>>, Single, Pool<PA>);
K1(t2_single_S0, 2, Trigger<M<2>>, Single, Sync<S0>);
K1(t0_buf2, 0, Trigger<M<0>>, Buffer<2>);
K1(t1_buf3_B, 1, Trigger<M<1>>, Buffer<3>, Pool<PB>);
K1(t2_buf2_S0, 2, Trigger<M<2>>, Buffer<2>, Sync<S0>);
K2(t0_single_w1, 0, 1, Trigger<M<0>>, With<M<1>>, Single);
K1(t3_buf5, 3, Trigger<M<3>>, Buffer<5>);
K1(t1_single_inl, 1, Trigger<M<1>>, Single, Inline::ALWAYS);
K1(t0_always, 0, Trigger<M<0>>, Inline::ALWAYS);
K1(t1_always, 1, Trigger<M<1>>, Inline::ALWAYS);
K1(t0_always_S0, 0, Trigger<M<0>>, Inline::ALWAYS, Sync<S0>);
K1(t2_always_G2, 2, Trigger<M<2>>, Inline::ALWAYS, Group<G2>);
K1(t3_always_S0S1, 3, Trigger<M<3>>, Inline::ALWAYS, Sync<S0>, Sync<S1>);
K1(t0_never, 0, Trigger<M<0>>, Inline::NEVER);
K1(t1_never_A, 1, Trigger<M<1>>, Inline::NEVER, Pool<PA>);
K1(t2_never_M, 2, Trigger<M<2>>, Inline::NEVER, MainThread);
K1(t1_never_S0, 1, Trigger<M<1>>, Inline::NEVER, Sync<S0>);
K1(t0_once, 0, Trigger<M<0>>, Once);
K1(t1_once_A, 1, Trigger<M<1>>, Once, Pool<PA>);
K1(t2_once_S0, 2, Trigger<M<2>>, Once, Sync<S0>);
K1(t3_once_inl, 3, Trigger<M<3>>, Once, Inline::ALWAYS);
}  // namespace core
