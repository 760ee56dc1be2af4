// lifecycle, scopes, idle, always, user words
#include "core.hpp"
namespace core {
using namespace w;
K0(startup, Startup);
K0(startup_A, Startup, Pool<PA>);
K0(startup_S0, Startup, Sync<S0>);
K0(shut, Shutdown);
K0(shut_A, Shutdown, Pool<PA>);
K0(shut_M, Shutdown, MainThread);
K0(shut_S0, Shutdown, Sync<S0>);
K0(shut_hi_D, Shutdown, Pool<PD>, Priority::HIGH);
K0(idle_all, Idle<void>);
K0(idle_all_A, Idle<void>, Pool<PA>);
K0(idle_all_M, Idle<void>, MainThread);
K0(idle_def, Idle<Pool<>>);
K0(idle_A, Idle<Pool<PA>>);
K0(idle_A_A, Idle<Pool<PA>>, Pool<PA>);
K0(idle_B, Idle<Pool<PB>>);
K0(idle_M, Idle<MainThread>);
K0(always1, Always);
K0(always2, Always, Priority::LOW);
K0(always_S0, Always, Sync<S0>);
K1(t0_c0, 0, Trigger<M<0>>, TaskScope<C0>);
K1(t1_c1, 1, Trigger<M<1>>, TaskScope<C1>);
K1(t2_c0c1, 2, Trigger<M<2>>, TaskScope<C0>, TaskScope<C1>);
K1(t3_c2c0c1, 3, Trigger<M<3>>, TaskScope<C2>, TaskScope<C0>, TaskScope<C1>);
K1(t0_c2_inl, 0, Trigger<M<0>>, TaskScope<C2>, Inline::ALWAYS);
K1(t1_c0_S0, 1, Trigger<M<1>>, TaskScope<C0>, Sync<S0>);
K1(t4_c1_A, 4, Trigger<M<4>>, TaskScope<C1>, Pool<PA>);
K1(t0_throw, 0, Trigger<M<0>>, ThrowWord);
K1(t1_throw_S0, 1, Trigger<M<1>>, ThrowWord, Sync<S0>);
K1(t2_throw_single, 2, Trigger<M<2>>, ThrowWord, Single);
K1(t3_throw_c0, 3, ThrowWord, Trigger<M<3>>, TaskScope<C0>);
}  // namespace core
