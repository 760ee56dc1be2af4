// The state and history of one generated program.
#ifndef WORLD_HPP
#define WORLD_HPP
#include <cstdarg>
#include <functional>
#include <thread>

#include "core.hpp"

namespace core {

enum Act : int { A_WORK, A_EMIT, A_SLEEP, A_THROW, A_DISABLE, A_ENABLE, A_UNBIND, A_SHUTDOWN, A_FORCE, A_SCOPE, A_BIND, A_REST, A_CLEANSLEEP };
enum Sc : int { SC_LOCAL, SC_INLINE, SC_INIT };

struct Action {
    Act t{A_WORK};
    int a{0}, b{0}, c{0};
};
using Script = std::vector<Action>;

struct ReactionDef {
    int kind{0};
    std::vector<Script> scripts;
    bool late{false};  ///< bound at run time by an A_BIND action
};

struct Program {
    int default_threads{1};
    std::vector<ReactionDef> r;
    std::vector<Script> drivers;
    Script constructor;  ///< performed in the reactor's constructor, half way through the binding
    Script prestart;     ///< performed on the main thread before start()
    bool final_force{false};
    bool listen_events{false};
    bool wait_start{true};
};

enum EvT : int { EV_EMIT_B, EV_EMIT_E, EV_RUN_B, EV_RUN_E, EV_SHUT_B, EV_SHUT_E, EV_HND_B, EV_HND_E, EV_REST, EV_START, EV_RETURN, EV_STAT, EV_SCOPE, EV_TIMED, EV_STARTED };

struct Ev {
    EvT t;
    int thread;
    int x, y;
    uint64_t time;
};

struct Emission {
    int uid, type, scope, thread;
    int b{-1}, e{-1};
    int wrote_b{-1};  ///< earliest point at which it may become the latest value
    int parent_run{-1};
    int fuel{0};
    const void* ptr{nullptr};
    bool threw{false};
    bool prestart{false};
    std::thread::id tid;
    NUClear::id_t task_id{0};  ///< the task emitting it
    NUClear::id_t reaction_id{0};
};

struct RunRec {
    int id, rid, thread;
    int b{-1}, e{-1};
    int uid{-1};  ///< trigger (first item with an id)
    int frame_emission{-1};  ///< the emission in progress on this thread, if directly inside one (an inline run)
    int frame_run{-1};
    NUClear::id_t task_id{0};
    NUClear::id_t reaction_id{0};
    int priority{0};
    Seen seen;
    bool threw{false};
    int prev_on_thread{-1};  ///< log index of the previous event of this thread
    bool has_stats{false};
    std::thread::id tid;
};

struct HandleOp {
    int rid, op;  ///< Act
    int b{-1}, e{-1};
    int by_run{-1};
};

struct ShutOp {
    bool force;
    int b{-1}, e{-1};
    int by_run{-1};
    int thread{0};
};

struct Frame {
    bool is_run;
    int id;
};

struct ScopeProbe {
    int at;
    int thread;
    unsigned answers;
    int run;
};

struct StatRec {
    int at;
    int thread;
    int event;
    int frame_emission;  ///< the emission this thread was performing, if directly inside one
    std::shared_ptr<const NUClear::message::ReactionStatistics> s;
    std::thread::id tid;
    bool exception{false};
};

struct World {
    Program p;
    pbt::Ctx* ctx{nullptr};
    NUClear::PowerPlant* plant{nullptr};
    CoreReactor* reactor{nullptr};

    std::vector<Ev> log;
    std::vector<Emission> emissions;
    std::vector<RunRec> runs;
    std::vector<HandleOp> hops;
    std::vector<ShutOp> shuts;
    std::vector<ScopeProbe> probes;
    std::vector<StatRec> stats;
    std::map<int, std::vector<Frame>> frames;
    std::mutex rest_turn;
    std::map<int, int> last_ev;  ///< last log index by thread
    std::vector<int> rests;
    std::vector<Handle> handles;
    std::vector<bool> bound;
    std::vector<int> bound_at;
    std::vector<int> run_count;
    std::map<NUClear::id_t, int> by_reaction_id;
    int start_at{-1}, return_at{-1}, started_at{-1};
    int live_at_return{0};
    int rest_count{0};
    uint64_t choices{0};
    std::vector<int> driver_threads;
    int drivers_live{0};
    NUClear::id_t listener_id{0};
    int statistics_seen{0};
    bool has_always{false};
    bool has_idle{false};
    bool busy_rest{false};
    bool running{false};
    int max_emissions{120};
    int idle_budget{6};
    int active_runs{0};
    int group_count[GROUPS]{};
    std::function<void()> on_timed;
    int actions_done{0};

    int add(EvT t, int x, int y = 0) {
        const int th = vs::self();
        log.push_back(Ev{t, th, x, y, vs::now_ns()});
        last_ev[th] = int(log.size()) - 1;
        return int(log.size()) - 1;
    }
    const Meta& meta(int rid) const {
        return kinds()[size_t(p.r[size_t(rid)].kind)].meta;
    }
    int soft_rest_after(int at) const {
        for (int r : rests) {
            if (r > at) {
                return r;
            }
        }
        return int(log.size()) + 1;
    }
    int first_shutdown() const {
        int s = int(log.size()) + 1;
        for (auto& o : shuts) {
            s = o.b >= 0 && o.b < s ? o.b : s;
        }
        return s;
    }
    bool any_force() const {
        for (auto& o : shuts) {
            if (o.force) {
                return true;
            }
        }
        return false;
    }
    std::string dump(int from = 0, int to = -1) const;
    std::string describe() const;
};

extern World* W;

/// Perform an emission of the given type
void do_emit(int type, int scope, int fuel, bool prestart = false);
void perform(const Script& s, int fuel, int run);
void rest();

}  // namespace core
#endif
