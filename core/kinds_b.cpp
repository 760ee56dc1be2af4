// priorities
#include "core.hpp"
namespace core {
using namespace w;
K1(t0_hi, 0, Trigger<M<0>>, Priority::HIGH);
K1(t1_lo, 1, Trigger<M<1>>, Priority::LOW);
K1(t2_rt, 2, Trigger<M<2>>, Priority::REALTIME);
K1(t3_id, 3, Trigger<M<3>>, Priority::IDLE);
K1(t0_A_rt, 0, Trigger<M<0>>, Pool<PA>, Priority::REALTIME);
K1(t1_A_hi, 1, Trigger<M<1>>, Pool<PA>, Priority::HIGH);
K1(t2_A_no, 2, Trigger<M<2>>, Pool<PA>, Priority::NORMAL);
K1(t3_A_lo, 3, Trigger<M<3>>, Pool<PA>, Priority::LOW);
K1(t4_A_id, 4, Trigger<M<4>>, Pool<PA>, Priority::IDLE);
K1(t0_A_lohi, 0, Trigger<M<0>>, Priority::LOW, Pool<PA>, Priority::HIGH);
K1(t3_A_hilo, 3, Trigger<M<3>>, Priority::HIGH, Pool<PA>, Priority::LOW);
K1(t4_A_three, 4, Priority::IDLE, Trigger<M<4>>, Priority::REALTIME, Pool<PA>, Priority::LOW);
K1(t1_M_hi, 1, Trigger<M<1>>, MainThread, Priority::HIGH);
K1(t2_M_lo, 2, Trigger<M<2>>, MainThread, Priority::LOW);
K1(t0_B_hi, 0, Trigger<M<0>>, Pool<PB>, Priority::HIGH);
K1(t1_B_lo, 1, Trigger<M<1>>, Pool<PB>, Priority::LOW);
K1(t2_S0_hi, 2, Trigger<M<2>>, Sync<S0>, Priority::HIGH);
K1(t3_S0_lo, 3, Trigger<M<3>>, Sync<S0>, Priority::LOW);
K1(t4_S0_rt, 4, Trigger<M<4>>, Sync<S0>, Priority::REALTIME);
K1(t0_S0_id_A, 0, Trigger<M<0>>, Sync<S0>, Pool<PA>, Priority::IDLE);
K1(t1_S0S1_hi, 1, Trigger<M<1>>, Sync<S0>, Sync<S1>, Priority::HIGH);
K1(t2_S0S1_lo, 2, Trigger<M<2>>, Sync<S0>, Sync<S1>, Priority::LOW);
}  // namespace core
