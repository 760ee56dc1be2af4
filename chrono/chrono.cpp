// P17, P18, P19: timers, watchdogs, the adjustable clock and time travel, in virtual time.
#include <atomic>
#include <chrono>
#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <vector>

#include "nuclear"

#include "rt/pbt.hpp"
#include "rt/vsched.hpp"

namespace {

using pbt::fmt;
using ns_t                  = int64_t;
constexpr ns_t NEVER        = INT64_MAX / 4;
constexpr ns_t MS           = 1000000;
constexpr ns_t SEC          = 1000000000;
ns_t now() {
    return ns_t(vs::now_ns());
}

/// What the reactions see of a task when it is made: this is when the reaction is triggered
struct Seen {
    int trigger{-1};
    explicit operator bool() const {
        return true;
    }
};
struct Trigger_ {
    NUClear::id_t reaction;
    ns_t t;
    ns_t clk;  ///< what the system clock said
    int thread;
    int uid;
};
struct Probe {
    template <typename DSL>
    static Seen get(NUClear::threading::ReactionTask& task);
    template <typename DSL>
    static void bind(const std::shared_ptr<NUClear::threading::Reaction>& r) {
        last_id = r->id;
    }
    static thread_local NUClear::id_t last_id;
};
thread_local NUClear::id_t Probe::last_id = 0;

template <int I>
struct Msg {
    int uid;
};
struct WatchedA {};
struct WatchedB {};

enum Act : int { A_SLEEP, A_WORK, A_DELAY, A_DELAY_AT, A_BIND, A_UNBIND, A_DISABLE, A_ENABLE, A_SERVICE, A_TRAVEL, A_THROW, A_ADJUST, A_READ };
struct Action {
    Act t{A_SLEEP};
    int a{0};
    ns_t n{0};
    int b{0};
    double f{1.0};
};
using Script = std::vector<Action>;

/// How a timer reaction is bound
struct TimerKind {
    const char* words;
    ns_t period;     ///< 0: given at run time
    bool on_chrono;  ///< runs on the timer thread itself
    int watchdog{-1};  ///< index of the group and key
};
struct Timer {
    int kind{0};
    ns_t period{0};
    bool late{false};
    Script script;
    ns_t max_use{0};
};
struct Interval {
    ns_t b, e;
};
struct Toggle {
    ns_t b, e;
    bool on;
};
struct TimerState {
    bool bound{false}, unbound{false};
    bool binding{false};
    Interval bind{NEVER, NEVER}, unbind{NEVER, NEVER};
    ns_t clk_b{0}, clk_e{0};
    NUClear::threading::ReactionHandle handle;
    NUClear::id_t id{0};
    std::vector<Toggle> toggles;
    int runs{0};
};
struct DelayRec {
    int uid;
    int type;
    Interval emit;
    ns_t clk_b, clk_e;
    ns_t delay{0};
    bool absolute{false};
    ns_t at{0};
    std::vector<size_t> triggers[2];
};
struct ServiceRec {
    int key;
    Interval s;
    bool threw;
};
struct TravelRec {
    Interval t;
    ns_t clk_b, clk_e;
    int action;
    ns_t target;
    double rtf;
    double old_rtf;
};
struct RunRec {
    int timer;
    ns_t b, e;
    int thread;
};

struct World {
    pbt::Ctx* ctx{nullptr};
    int threads{1};
    ns_t unit{MS};
    ns_t jitter{0};
    ns_t slack{0};
    std::vector<Timer> timers;
    Script listener_script[2];
    std::vector<Script> drivers;
    std::vector<TimerState> st;
    std::vector<Trigger_> triggers;
    std::vector<DelayRec> delays;
    std::vector<ServiceRec> services;
    std::vector<TravelRec> travels;
    std::vector<RunRec> runs;
    NUClear::id_t listener_id[2]{0, 0};
    NUClear::PowerPlant* plant{nullptr};
    bool running{false};
    ns_t end{0}, returned{0}, shut_e{0};
    ns_t clk0{0};  ///< the clock at virtual time 0
    int budget{0};
    std::string describe() const;
};
World* W = nullptr;
const char* PROP = "P17";

[[noreturn]] void stuck(const char* kind, const std::string& report) {
    pbt::current()->fail(kind, report + "\n" + (W != nullptr ? W->describe() : ""));
}
[[noreturn]] void fail(const std::string& kind, const std::string& msg) {
    pbt::current()->fail(std::string(PROP) + ":" + kind, msg + "\n" + (W != nullptr ? W->describe() : ""));
}

ns_t clk() {
    return ns_t(NUClear::clock::now().time_since_epoch().count());
}

template <typename T>
int trigger_uid() {
    return -1;
}

template <typename DSL>
Seen Probe::get(NUClear::threading::ReactionTask& task) {
    const ns_t c = clk();
    vs::NoPreempt np;
    int uid = -1;
    if (task.parent->id == W->listener_id[0]) {
        auto m = NUClear::dsl::store::ThreadStore<std::shared_ptr<Msg<0>>>::value;
        uid    = m != nullptr ? (*m)->uid : -2;
    }
    else if (task.parent->id == W->listener_id[1]) {
        auto m = NUClear::dsl::store::ThreadStore<std::shared_ptr<Msg<1>>>::value;
        uid    = m != nullptr ? (*m)->uid : -2;
    }
    W->triggers.push_back(Trigger_{task.parent->id, now(), c, vs::self(), uid});
    return Seen{int(W->triggers.size()) - 1};
}

template <typename Period>
struct Fixed;

using namespace std::chrono;
using NUClear::Reactor;

class R;
R* reactor = nullptr;
void perform(const Script& s, int self);

const std::vector<TimerKind>& kinds() {
    static const std::vector<TimerKind> k = {
        {"Every<>", 0, false},
        {"Every<>, Sync<G>", 0, false},
        {"Every<>, Inline::ALWAYS", 0, true},
        {"Every<>, Priority::LOW, Pool<Q>", 0, false},
        {"Every<>, MainThread, Priority::HIGH", 0, false},
        {"Every<5, milliseconds>", 5 * MS, false},
        {"Every<100, Per<seconds>>", 10 * MS, false},
        {"Every<3, Per<seconds>>", 333333333, false},
        {"Every<1, seconds>", SEC, false},
        {"Every<7, Per<minutes>>", 8571428571LL, false},  // 60 / 7 s, rounded
        {"Every<2, minutes>", 120 * SEC, false},
        {"Every<1, Per<hours>>", 3600 * SEC, false},
        // watchdogs
        {"Watchdog<A, 10, milliseconds>", 10 * MS, false, 0},
        {"Watchdog<A, 25, milliseconds>", 25 * MS, false, 0},
        {"Watchdog<A, 10, milliseconds>(1)", 10 * MS, false, 1},
        {"Watchdog<A, 25, milliseconds>(1)", 25 * MS, false, 1},
        {"Watchdog<A, 18, milliseconds>(2)", 18 * MS, false, 2},
        {"Watchdog<B, 14, milliseconds>(x)", 14 * MS, false, 3},
        {"Watchdog<B, 40, milliseconds>(y)", 40 * MS, false, 4},
        {"Watchdog<B, 30, milliseconds>", 30 * MS, false, 5},
        {"Watchdog<B, 12, milliseconds>(1), Sync<G>", 12 * MS, false, 6},
    };
    return k;
}
constexpr int FIRST_WATCHDOG = 12;
constexpr int N_KINDS        = 21;
constexpr int N_KEYS         = 7;

struct G {};
struct Q {
    static constexpr const char* name = "Q";
    static constexpr int concurrency  = 1;
};

class R : public NUClear::Reactor {
public:
    explicit R(std::unique_ptr<NUClear::Environment> environment) : Reactor(std::move(environment)) {
        reactor = this;
        auto l0 = on<Trigger<Msg<0>>, Probe>().then("listener 0", [](const Msg<0>&, const Seen&) {
            perform(W->listener_script[0], -1);
        });
        W->listener_id[0] = Probe::last_id;
        auto l1 = on<Trigger<Msg<1>>, Probe, Inline::ALWAYS>().then("listener 1", [](const Msg<1>&, const Seen&) {
            const ns_t b = now();
            struct Fin {
                ns_t b;
                ~Fin() {
                    W->runs.push_back(RunRec{-1, b, now(), vs::self()});
                }
            } fin{b};
            perform(W->listener_script[1], -1);
        });
        W->listener_id[1] = Probe::last_id;
        for (int i = 0; i < int(W->timers.size()); ++i) {
            if (!W->timers[size_t(i)].late) {
                bind(i);
            }
        }
        on<Startup>().then("started", [] { W->running = true; });
    }
    template <typename... DSL, typename... Args>
    NUClear::threading::ReactionHandle with(int i, Args&&... args) {
        return on<DSL..., Probe>(std::forward<Args>(args)...).then(fmt("t%d", i), [i](const Seen&) { run(i); });
    }
    static void run(int i) {
        const ns_t b     = now();
        const int thread = vs::self();
        struct Fin {
            int i;
            ns_t b;
            int thread;
            ~Fin() {
                W->runs.push_back(RunRec{i, b, now(), thread});
            }
        } fin{i, b, thread};
        ++W->st[size_t(i)].runs;
        perform(W->timers[size_t(i)].script, i);
    }

    void bind(int i) {
        auto& t = W->timers[size_t(i)];
        auto& s = W->st[size_t(i)];
        if (s.binding) {
            return;
        }
        s.binding = true;
        s.bind.b = now();
        s.clk_b  = clk();
        const NUClear::clock::duration p(t.period);
        NUClear::threading::ReactionHandle h;
        switch (t.kind) {
            case 0: h = with<Every<>>(i, p); break;
            case 1: h = with<Every<>, Sync<G>>(i, p); break;
            case 2: h = with<Every<>, Inline::ALWAYS>(i, p); break;
            case 3: h = with<Every<>, Priority::LOW, Pool<Q>>(i, p); break;
            case 4: h = with<Every<>, MainThread, Priority::HIGH>(i, p); break;
            case 5: h = with<Every<5, milliseconds>>(i); break;
            case 6: h = with<Every<100, Per<seconds>>>(i); break;
            case 7: h = with<Every<3, Per<seconds>>>(i); break;
            case 8: h = with<Every<1, seconds>>(i); break;
            case 9: h = with<Every<7, Per<minutes>>>(i); break;
            case 10: h = with<Every<2, minutes>>(i); break;
            case 11: h = with<Every<1, Per<hours>>>(i); break;
            case 12: h = with<Watchdog<WatchedA, 10, milliseconds>>(i); break;
            case 13: h = with<Watchdog<WatchedA, 25, milliseconds>>(i); break;
            case 14: h = with<Watchdog<WatchedA, 10, milliseconds>>(i, 1); break;
            case 15: h = with<Watchdog<WatchedA, 25, milliseconds>>(i, 1); break;
            case 16: h = with<Watchdog<WatchedA, 18, milliseconds>>(i, 2); break;
            case 17: h = with<Watchdog<WatchedB, 14, milliseconds>>(i, std::string("x")); break;
            case 18: h = with<Watchdog<WatchedB, 40, milliseconds>>(i, std::string("y")); break;
            case 19: h = with<Watchdog<WatchedB, 30, milliseconds>>(i); break;
            default: h = with<Watchdog<WatchedB, 12, milliseconds>, Sync<G>>(i, 1); break;
        }
        s.clk_e  = clk();
        s.bind.e = now();
        s.id     = Probe::last_id;
        s.handle = h;
        s.bound  = true;
    }
    void service(int key) {
        ServiceRec r{key, {now(), 0}, false};
        try {
            switch (key) {
                case 0: emit<Scope::WATCHDOG>(ServiceWatchdog<WatchedA>()); break;
                case 1: emit<Scope::WATCHDOG>(ServiceWatchdog<WatchedA>(1)); break;
                case 2: emit<Scope::WATCHDOG>(ServiceWatchdog<WatchedA>(2)); break;
                case 3: emit<Scope::WATCHDOG>(ServiceWatchdog<WatchedB>(std::string("x"))); break;
                case 4: emit<Scope::WATCHDOG>(ServiceWatchdog<WatchedB>(std::string("y"))); break;
                case 5: emit<Scope::WATCHDOG>(ServiceWatchdog<WatchedB>()); break;
                default: emit<Scope::WATCHDOG>(ServiceWatchdog<WatchedB>(1)); break;
            }
        }
        catch (const std::domain_error&) {
            r.threw = true;  // nobody watches
        }
        r.s.e = now();
        W->services.push_back(r);
    }
    template <int I>
    void delayed(bool absolute, ns_t d) {
        DelayRec r;
        r.type     = I;
        r.absolute = absolute;
        r.delay    = d;
        size_t k;
        {
            vs::NoPreempt np;
            r.uid = int(W->delays.size());
            k     = W->delays.size();
            W->delays.push_back(r);
        }
        auto m      = std::make_unique<Msg<I>>(Msg<I>{int(k)});
        const ns_t b = now();
        const ns_t c = clk();
        ns_t at      = 0;
        {
            W->delays[k].emit = Interval{b, NEVER};
            W->delays[k].clk_b = c;
            W->delays[k].clk_e = NEVER;
            if (absolute) {
                at              = c + d;
                W->delays[k].at = at;
            }
        }
        if (absolute) {
            emit<Scope::DELAY>(m, NUClear::clock::time_point(NUClear::clock::duration(at)));
        }
        else {
            emit<Scope::DELAY>(m, NUClear::clock::duration(d));
        }
        W->delays[k].clk_e  = clk();
        W->delays[k].emit.e = now();
    }
    void travel(const Action& a) {
        TravelRec r;
        r.action  = a.a;
        r.rtf     = a.f;
        r.old_rtf = NUClear::clock::rtf();
        r.t.b     = now();
        r.clk_b   = clk();
        r.target  = r.clk_b + a.n;
        using Action_ = NUClear::message::TimeTravel::Action;
        emit<Scope::INLINE>(std::make_unique<NUClear::message::TimeTravel>(
            NUClear::clock::time_point(NUClear::clock::duration(r.target)),
            a.f,
            a.a == 0 ? Action_::ABSOLUTE : a.a == 1 ? Action_::RELATIVE : Action_::NEAREST));
        r.clk_e = clk();
        r.t.e   = now();
        W->travels.push_back(r);
    }
};

void perform(const Script& script, int self) {
    for (auto& a : script) {
        switch (a.t) {
            case A_SLEEP: vs::sleep_ns(uint64_t(a.n)); break;
            case A_WORK:
                for (ns_t i = 0; i < a.n; ++i) {
                    vs::point();
                }
                break;
            case A_DELAY:
            case A_DELAY_AT:
                if (W->budget > 0) {
                    --W->budget;
                    if (a.a == 0) {
                        reactor->delayed<0>(a.t == A_DELAY_AT, a.n);
                    }
                    else {
                        reactor->delayed<1>(a.t == A_DELAY_AT, a.n);
                    }
                }
                break;
            case A_BIND: reactor->bind(a.a); break;
            case A_UNBIND: {
                const int i = a.a < 0 ? self : a.a;
                auto& s     = W->st[size_t(i)];
                if (s.bound && !s.unbound) {
                    s.unbound  = true;
                    s.unbind.b = now();
                    s.handle.unbind();
                    s.unbind.e = now();
                }
                break;
            }
            case A_DISABLE:
            case A_ENABLE: {
                auto& s = W->st[size_t(a.a)];
                if (s.bound) {
                    const size_t k = s.toggles.size();
                    s.toggles.push_back(Toggle{now(), NEVER, a.t == A_ENABLE});
                    s.handle.enable(a.t == A_ENABLE);
                    s.toggles[k].e = now();
                }
                break;
            }
            case A_SERVICE: reactor->service(a.a); break;
            case A_TRAVEL: reactor->travel(a); break;
            case A_THROW: throw std::runtime_error("thrown by the script");
            default: break;
        }
    }
}

std::string show(ns_t t) {
    return t >= NEVER ? "-" : fmt("%lld.%06lldms", (long long) (t / MS), (long long) std::llabs(t % MS));
}
std::string script_text(const Script& s) {
    std::string o = "[";
    for (auto& a : s) {
        switch (a.t) {
            case A_SLEEP: o += "sleep " + show(a.n); break;
            case A_WORK: o += fmt("work %lld", (long long) a.n); break;
            case A_DELAY: o += fmt("emit M%d after ", a.a) + show(a.n); break;
            case A_DELAY_AT: o += fmt("emit M%d at now + ", a.a) + show(a.n); break;
            case A_BIND: o += fmt("bind t%d", a.a); break;
            case A_UNBIND: o += a.a < 0 ? "unbind self" : fmt("unbind t%d", a.a); break;
            case A_DISABLE: o += fmt("disable t%d", a.a); break;
            case A_ENABLE: o += fmt("enable t%d", a.a); break;
            case A_SERVICE: o += fmt("service key %d", a.a); break;
            case A_TRAVEL: o += fmt("travel %s by ", a.a == 0 ? "absolute" : a.a == 1 ? "relative" : "nearest") + show(a.n) + fmt(" rtf %g", a.f); break;
            case A_THROW: o += "throw"; break;
            default: o += "?";
        }
        o += "; ";
    }
    return o + "]";
}
std::string World::describe() const {
    std::string o = fmt("default pool %d threads, sleeps late by up to ", threads) + show(jitter) + "\n";
    for (size_t i = 0; i < timers.size(); ++i) {
        auto& t = timers[i];
        o += fmt(" t%zu: %s %s%s ", i, kinds()[size_t(t.kind)].words, show(t.period).c_str(), t.late ? " (late)" : "") + script_text(t.script);
        o += " bound " + show(st[i].bind.b) + (st[i].unbind.b < NEVER ? " unbound " + show(st[i].unbind.b) : "") + "\n";
    }
    for (int l = 0; l < 2; ++l) {
        o += fmt(" on<Trigger<M%d>%s> ", l, l == 1 ? ", Inline::ALWAYS" : "") + script_text(listener_script[l]) + "\n";
    }
    for (size_t i = 0; i < drivers.size(); ++i) {
        o += fmt(" driver %zu: ", i) + script_text(drivers[i]) + "\n";
    }
    for (auto& r : travels) {
        o += " travelled at " + show(r.t.b) + " clock " + show(r.clk_b) + " -> " + show(r.clk_e) + fmt(" rtf %g -> %g\n", r.old_rtf, r.rtf);
    }
    int n = 0;
    std::string tr;
    for (auto i = triggers.rbegin(); i != triggers.rend() && n < 40; ++i, ++n) {
        std::string who = "?";
        for (size_t k = 0; k < st.size(); ++k) {
            who = st[k].id == i->reaction && st[k].bound ? fmt("t%zu", k) : who;
        }
        who = i->reaction == listener_id[0] || i->reaction == listener_id[1] ? fmt("M#%d", i->uid) : who;
        tr = "  " + show(i->t) + " " + who + "\n" + tr;
    }
    return o + " triggers:\n" + tr + "end " + show(end) + " schedule " + vs::strategy_name() + "\n";
}

/// The clock was started in real time, years from the virtual time
void rebase_clock() {
    NUClear::clock::set_clock(NUClear::base_clock::now());
}

void execute(pbt::Ctx& ctx, World& w) {
    W = &w;
    vs::Options o;
    o.seed            = pbt::mix(ctx.sched_seed + ctx.src.draw(4));
    o.tick_ns         = w.jitter >= 20000 ? 40 : w.jitter == 0 ? 1 : 10;
    o.sleep_jitter_ns = uint64_t(w.jitter);
    o.max_steps       = 20000000;
    o.spin_jump       = false;
    vs::on_stuck      = stuck;
    w.st.resize(w.timers.size());
    w.slack = MS + 4 * w.jitter;
    vs::begin(o);
    rebase_clock();
    w.clk0 = -now();
    w.clk0 += clk();
    {
        NUClear::Configuration cfg;
        cfg.default_pool_concurrency = w.threads;
        NUClear::PowerPlant plant(cfg);
        w.plant = &plant;
        plant.install<NUClear::extension::ChronoController>();
        plant.install<R>();
        std::vector<std::thread> threads;
        for (size_t i = 0; i < w.drivers.size(); ++i) {
            threads.emplace_back([&w, i] {
                while (!w.running) {
                    vs::sleep_ns(20000);
                }
                perform(w.drivers[i], -1);
            });
        }
        std::thread coordinator([&w, &threads] {
            for (auto& t : threads) {
                t.join();
            }
            while (!w.running) {
                vs::sleep_ns(20000);
            }
            vs::sleep_ns(uint64_t(5 * w.unit + 2 * w.slack));
            w.end = now();
            w.plant->shutdown();
            w.shut_e = now();
        });
        plant.start();
        w.returned = now();
        coordinator.join();
    }
    vs::end();
}

/// The timer thread's own work can make other timers late
struct Busy {
    std::vector<Interval> v;
    ns_t slack{0};
    /// The latest moment at which something due at d is still on time
    ns_t until(ns_t d) const {
        ns_t cur = d + slack;
        for (auto& i : v) {
            if (i.b <= cur && i.e + slack > cur) {
                cur = i.e + slack;
            }
        }
        return cur;
    }
};
Busy busy_times(const World& w) {
    Busy b;
    b.slack = w.slack;
    std::vector<int> chrono;
    for (auto& t : w.triggers) {
        bool timer = false;
        for (auto& s : w.st) {
            timer = timer || (s.bound && s.id == t.reaction);
        }
        if (timer || t.uid >= 0) {
            chrono.push_back(t.thread);
        }
    }
    for (auto& r : w.runs) {
        for (int c : chrono) {
            if (c == r.thread && (r.timer < 0 || kinds()[size_t(w.timers[size_t(r.timer)].kind)].on_chrono)) {
                b.v.push_back(Interval{r.b, r.e});
                break;
            }
        }
    }
    std::sort(b.v.begin(), b.v.end(), [](const Interval& x, const Interval& y) { return x.b < y.b; });
    return b;
}

void check_shutdown(const World& w) {
    ns_t last = w.shut_e;
    for (auto& r : w.runs) {
        last = std::max(last, r.e);
    }
    // runs of the other reactions are not recorded: they sleep no longer than their script says
    ns_t other = 0;
    for (auto& a : w.listener_script[0]) {
        other += a.t == A_SLEEP ? a.n : 0;
    }
    int pending = 0;
    for (auto& d : w.delays) {
        if (d.emit.e < NEVER && d.emit.e - d.emit.b > busy_times(w).until(d.emit.b) - d.emit.b) {
            fail("emit-blocked", "emitting with a delay at " + show(d.emit.b) + " took " + show(d.emit.e - d.emit.b));
        }
    }
    for (auto& t : w.triggers) {
        pending += t.reaction == w.listener_id[0] ? 1 : 0;
    }
    if (w.returned > last + other * pending + w.slack) {
        fail("shutdown-waits", "start() returned only at " + show(w.returned) + " although everything had ended at " + show(last));
    }
}

/// The triggers of a periodic reaction and of delayed emissions against the grid (no travel)
void check_timers(World& w, pbt::Ctx& ctx) {
    const Busy busy = busy_times(w);
    uint64_t late   = 0;
    struct Done {
        ns_t lo, hi, reg, t;
        size_t at;
        ns_t tol;
        std::string what;
    };
    std::vector<Done> done;
    for (size_t i = 0; i < w.timers.size(); ++i) {
        auto& t = w.timers[i];
        auto& s = w.st[i];
        if (!s.bound || kinds()[size_t(t.kind)].watchdog >= 0) {
            continue;
        }
        std::vector<size_t> obs;
        for (size_t k = 0; k < w.triggers.size(); ++k) {
            if (w.triggers[k].reaction == s.id) {
                obs.push_back(k);
            }
        }
        const bool toggled = !s.toggles.empty();
        // was it certainly enabled / certainly disabled over [lo, hi]?
        auto certainly = [&](bool want, ns_t lo, ns_t hi) {
            // an unwanted state can hold from the begin of its toggle to the end of the first wanted toggle after it
            auto until = [&](ns_t after) {
                ns_t u = NEVER;
                for (auto& x : s.toggles) {
                    if (x.on == want && x.b >= after) {
                        u = std::min(u, x.e);
                    }
                }
                return u;
            };
            for (auto& x : s.toggles) {
                if (x.on != want && x.b <= hi && until(x.e) >= lo) {
                    return false;
                }
            }
            if (!want && until(0) >= lo) {
                return false;
            }
            return true;
        };
        const ns_t stop  = std::min(s.unbind.b, w.end);
        size_t possible  = 0;
        size_t must      = 0;
        size_t seen      = 0;
        const ns_t limit = obs.empty() ? stop : std::max(stop, w.triggers[obs.back()].t);
        // walk through the grid
        for (int64_t k = 1;; ++k) {
            const ns_t lo = s.bind.b + k * t.period;
            const ns_t hi = s.bind.e + k * t.period;
            if (lo > limit) {
                break;
            }
            const ns_t by = busy.until(hi);
            // at most the grid points so far may have been triggered before lo
            while (seen < obs.size() && w.triggers[obs[seen]].t < lo) {
                ++seen;
            }
            if (seen > possible) {
                fail("early", fmt("t%zu was triggered %zu times before ", i, seen) + show(lo) + fmt(" although only %zu of its times were due", possible));
            }
            if (!toggled || !certainly(false, lo, by)) {
                ++possible;
            }
            if (by < stop && (!toggled || certainly(true, lo, by))) {
                ++must;
                size_t have = 0;
                while (have < obs.size() && w.triggers[obs[have]].t <= by) {
                    ++have;
                }
                if (have < must) {
                    fail("late", fmt("t%zu was triggered %zu times by ", i, have) + show(by) + fmt(" but should have been %zu times", must));
                }
            }
            if (!toggled && size_t(k) <= obs.size()) {
                auto& o = w.triggers[obs[size_t(k) - 1]];
                late += o.t > hi + w.slack ? 1 : 0;
                done.push_back(Done{lo, hi, k == 1 ? s.bind.e : w.triggers[obs[size_t(k) - 2]].t, o.t, obs[size_t(k) - 1], 0, fmt("t%zu", i)});
            }
        }
        if (obs.size() > possible) {
            fail("extra", fmt("t%zu was triggered %zu times although only %zu of its times were due", i, obs.size(), possible));
        }
        if (!obs.empty() && w.triggers[obs.back()].t > s.unbind.e) {
            fail("after-unbind", fmt("t%zu was triggered at ", i) + show(w.triggers[obs.back()].t) + " although it had been unbound at " + show(s.unbind.e));
        }
        ctx.label("periodic triggers", obs.size());
    }
    std::map<int, std::vector<size_t>> by_uid;
    for (size_t k = 0; k < w.triggers.size(); ++k) {
        auto& t = w.triggers[k];
        if (t.reaction == w.listener_id[0] || t.reaction == w.listener_id[1]) {
            if (t.uid < 0 || t.uid >= int(w.delays.size())) {
                fail("invented", "a listener was triggered by a message which was never emitted");
            }
            by_uid[t.uid].push_back(k);
        }
    }
    for (auto& d : w.delays) {
        if (d.emit.b >= NEVER) {
            continue;
        }
        const ns_t off = d.clk_b - d.emit.b;  // the clock was not adjusted
        const ns_t lo  = d.absolute ? d.at - off - w.slack : d.emit.b + d.delay;
        const ns_t hi  = std::max(d.absolute ? d.at - off + w.slack : d.emit.e + d.delay, d.emit.e);
        auto& o        = by_uid[d.uid];
        if (o.size() > 1) {
            fail("delay-twice", fmt("the delayed emission #%d was performed %zu times", d.uid, o.size()));
        }
        if (o.empty() && busy.until(hi) < w.end) {
            fail("delay-lost", fmt("the delayed emission #%d of ", d.uid) + show(d.emit.b) + ", due at " + show(hi) + ", was not performed");
        }
        if (!o.empty()) {
            auto& t = w.triggers[o[0]];
            if (t.t < lo || (d.absolute && t.clk < d.at)) {
                fail("delay-early", fmt("the delayed emission #%d of ", d.uid) + show(d.emit.b) + ", due at " + show(lo) + ", was performed at " + show(t.t));
            }
            if (t.t > busy.until(hi)) {
                fail("delay-late", fmt("the delayed emission #%d of ", d.uid) + show(d.emit.b) + ", due at " + show(hi) + ", was performed at " + show(t.t));
            }
            late += t.t > hi + w.slack ? 1 : 0;
            done.push_back(Done{lo, hi, d.emit.e, t.t, o[0], 0, fmt("delayed #%d", d.uid)});
        }
    }
    ctx.label("delayed emissions", w.delays.size());
    ctx.label("late triggers (timer thread busy)", late);
    // what was due earlier is performed earlier if both were waiting
    for (auto& a : done) {
        for (auto& b : done) {
            if (a.hi < b.lo && a.reg < b.t && a.at > b.at && a.reg < b.lo) {
                fail("order", a.what + " was due at " + show(a.hi) + ", before " + b.what + " due at " + show(b.lo) + ", but was triggered after it, at " + show(a.t) + " and " + show(b.t));
            }
        }
    }
    ctx.nontrivial(done.size() >= 6);
}

void check_watchdogs(World& w, pbt::Ctx& ctx) {
    const Busy busy = busy_times(w);
    uint64_t fired  = 0;
    uint64_t saved  = 0;
    for (size_t i = 0; i < w.timers.size(); ++i) {
        auto& t       = w.timers[i];
        auto& s       = w.st[i];
        const int key = kinds()[size_t(t.kind)].watchdog;
        if (!s.bound || key < 0) {
            continue;
        }
        std::vector<ns_t> obs;
        for (auto& k : w.triggers) {
            if (k.reaction == s.id) {
                obs.push_back(k.t);
            }
        }
        std::vector<Interval> services;
        for (auto& v : w.services) {
            if (v.key == key && !v.threw) {
                services.push_back(v.s);
            }
            if (v.key == key && v.threw && v.s.b > s.bind.e && v.s.e < s.unbind.b) {
                fail("service-refused", fmt("servicing key %d at ", key) + show(v.s.b) + fmt(" failed although t%zu was watching", i));
            }
        }
        // services at the same time: any of them can be the last, with the time at which it began
        std::sort(services.begin(), services.end(), [](const Interval& x, const Interval& y) { return x.b < y.b; });
        for (size_t k = 1; k < services.size(); ++k) {
            if (services[k].b <= services[k - 1].e) {
                services[k].b = services[k - 1].b;
                services[k].e = std::max(services[k].e, services[k - 1].e);
            }
        }
        fired += obs.size();
        // never early
        for (size_t k = 0; k < obs.size(); ++k) {
            const ns_t f = obs[k];
            if (f > s.unbind.e) {
                fail("after-unbind", fmt("watchdog t%zu fired at ", i) + show(f) + " although it had been unbound");
            }
            if (f < s.bind.b + t.period) {
                fail("early", fmt("watchdog t%zu fired at ", i) + show(f) + ", earlier than its timeout after its binding");
            }
            if (k > 0 && busy.until(obs[k - 1]) - obs[k - 1] <= w.slack && f < obs[k - 1] + t.period - w.slack) {
                bool was_late = false;
                for (auto& b : busy.v) {
                    was_late = was_late || (b.b < obs[k - 1] && b.e + w.slack > obs[k - 1] - t.period);
                }
                if (!was_late) {
                    fail("early", fmt("watchdog t%zu fired at ", i) + show(f) + ", too soon after its firing at " + show(obs[k - 1]));
                }
            }
            for (auto& v : services) {
                if (v.e < f - w.slack && v.b + t.period > f) {
                    fail("early", fmt("watchdog t%zu fired at ", i) + show(f) + " although it had been serviced at " + show(v.b));
                }
            }
        }
        // never missing
        std::vector<ns_t> bases{s.bind.e};
        bases.insert(bases.end(), obs.begin(), obs.end());
        for (auto& v : services) {
            if (v.e > s.bind.e) {
                bases.push_back(v.e);
            }
        }
        std::sort(bases.begin(), bases.end());
        for (ns_t x : bases) {
            const ns_t by = busy.until(x + t.period);
            if (by >= std::min(s.unbind.b, w.end)) {
                continue;
            }
            bool base = false;
            for (auto& v : services) {
                base = base || (v.e > x && v.b <= by);
            }
            for (ns_t f : obs) {
                base = base || (f > x && f <= by);
            }
            if (!base) {
                fail("missing", fmt("watchdog t%zu did not fire between ", i) + show(x) + " and " + show(by) + " although nobody serviced it");
            }
        }
        for (auto& v : services) {
            saved += v.b > s.bind.e && v.e < s.unbind.b ? 1 : 0;
        }
        ctx.label(s.unbound ? "watchdogs removed" : "watchdogs kept");
    }
    ctx.label("watchdog firings", fired);
    ctx.label("services", saved);
    ctx.nontrivial(fired >= 2 && saved >= 2);
}

struct Gen {
    pbt::Src& s;
    World& w;
    int z;
    bool watchdogs{false};
    bool travel{false};

    ns_t span(int lo, int hi) {
        // mostly whole units, which makes times coincide
        ns_t n = ns_t(s.range(lo, hi)) * w.unit;
        switch (s.draw(4)) {
            case 2: n += ns_t(s.draw(1000)) * (w.unit / 1000); break;
            case 3: n = n / 2 + ns_t(s.draw(100)); break;
            default: break;
        }
        return n;
    }
    Action action(bool in_reaction, int self) {
        Action a;
        const int nt = int(w.timers.size());
        const int k  = s.weighted({watchdogs ? 4 : 6, 1, watchdogs ? 1 : 5, watchdogs ? 0 : 3, in_reaction ? 1 : 2, in_reaction ? 1 : 2, watchdogs ? 0 : 1, watchdogs ? 0 : 1, watchdogs ? 9 : 0, travel ? (in_reaction ? 0 : 6) : 0, in_reaction ? 1 : 0});
        a.t          = Act(k);
        switch (a.t) {
            case A_SLEEP: a.n = in_reaction ? span(0, 3) / 2 : span(0, 6); break;
            case A_WORK: a.n = s.range(1, 300); break;
            case A_DELAY:
                a.a = s.draw(3) == 2 ? 1 : 0;
                a.n = s.draw(6) == 0 ? 0 : span(0, 8);
                break;
            case A_DELAY_AT:
                a.a = s.draw(3) == 2 ? 1 : 0;
                a.n = span(0, 8) - span(0, 3);
                break;
            case A_BIND: a.a = int(s.draw(uint32_t(nt))); break;
            case A_UNBIND: a.a = in_reaction && self >= 0 && s.draw(2) == 0 ? -1 : int(s.draw(uint32_t(nt))); break;
            case A_DISABLE:
            case A_ENABLE: a.a = int(s.draw(uint32_t(nt))); break;
            case A_SERVICE: {
                // mostly a key which is watched
                a.a = s.draw(8) == 7 ? int(s.draw(N_KEYS)) : std::max(0, kinds()[size_t(w.timers[s.draw(uint32_t(nt))].kind)].watchdog);
                break;
            }
            case A_TRAVEL: {
                static const double rtfs[] = {1.0, 2.0, 0.5, 0.0, 1.0, 4.0, 0.25, 1.5};
                a.a = int(s.draw(3));
                a.n = span(0, 12) - (s.draw(3) == 0 ? span(0, 6) : 0);
                a.f = rtfs[s.draw(8)];
                break;
            }
            default: break;
        }
        if (a.t >= A_BIND && a.t <= A_ENABLE && nt == 0) {
            a = Action{A_SLEEP, 0, w.unit, 0, 1.0};
        }
        return a;
    }
    void generate() {
        static const ns_t units[] = {MS, 10 * MS, 300000, SEC, 60 * SEC, 3600 * SEC};
        static const ns_t jit[]   = {0, 1000, 10000, 50000};
        w.unit                    = watchdogs ? 4 * MS : units[s.weighted({4, 3, 2, 2, 1, 1})];
        w.jitter                  = jit[s.draw(4)];
        w.threads                 = s.range(1, 3);
        w.budget                  = 60;
        const int nt              = s.range(watchdogs ? 1 : 0, z > 20 ? 6 : 3);
        w.timers.resize(size_t(nt));
        for (auto& t : w.timers) {
            if (watchdogs && s.draw(6) != 5) {
                t.kind = FIRST_WATCHDOG + int(s.draw(N_KINDS - FIRST_WATCHDOG));
            }
            else {
                t.kind = s.draw(3) != 2 ? s.weighted({5, 1, 2, 1, 1}) : 5 + int(s.draw(7));
            }
            t.period = kinds()[size_t(t.kind)].period;
            if (t.period == 0 || t.period < w.unit / 2 || t.period > w.unit * 2000) {
                if (t.period != 0 && kinds()[size_t(t.kind)].watchdog < 0) {
                    t.kind = 0;
                }
                if (kinds()[size_t(t.kind)].watchdog < 0) {
                    t.period = std::max(span(1, 10), ns_t(w.unit / 2));
                }
            }
            t.late = s.draw(4) == 3;
        }
        const int nd = s.range(1, z > 30 ? 3 : 2);
        for (size_t i = 0; i < w.timers.size(); ++i) {
            auto& sc = w.timers[i].script;
            for (int k = 0; s.more(k, 0, 3, 1); ++k) {
                sc.push_back(action(true, int(i)));
            }
            // a reaction on the timer thread which takes longer than its period never catches up
            if (kinds()[size_t(w.timers[i].kind)].on_chrono) {
                for (auto& a : sc) {
                    if (a.t == A_SLEEP) {
                        a.n = std::min(a.n, w.timers[i].period / 4);
                    }
                }
            }
        }
        for (auto& l : w.listener_script) {
            for (int k = 0; s.more(k, 0, 2, 1); ++k) {
                l.push_back(action(true, -1));
                if (l.back().t == A_TRAVEL) {
                    l.pop_back();
                }
            }
        }
        for (int d = 0; d < nd; ++d) {
            Script sc;
            for (int k = 0; s.more(k, 1, z > 50 ? 24 : 12, z > 50 ? 10 : 5); ++k) {
                sc.push_back(action(false, -1));
            }
            w.drivers.push_back(sc);
        }
    }
};

void finish(pbt::Ctx& ctx, World& w) {
    ctx.sample = w.describe();
    ctx.hash(vs::switches());
    ctx.label("triggers", w.triggers.size());
    if (ctx.verbose) {
        printf("%s", ctx.sample.c_str());
    }
}

void p17(pbt::Ctx& ctx) {
    PROP = "P17";
    World w;
    w.ctx = &ctx;
    Gen g{ctx.src, w, ctx.src.sized()};
    g.generate();
    execute(ctx, w);
    check_timers(w, ctx);
    check_shutdown(w);
    finish(ctx, w);
}
void p18(pbt::Ctx& ctx) {
    PROP = "P18";
    World w;
    w.ctx = &ctx;
    Gen g{ctx.src, w, ctx.src.sized()};
    g.watchdogs = true;
    g.generate();
    execute(ctx, w);
    check_watchdogs(w, ctx);
    check_timers(w, ctx);
    ctx.is_nontrivial = false;
    check_watchdogs(w, ctx);
    finish(ctx, w);
}

}  // namespace

#include "travel.hpp"

int main(int argc, char** argv) {
    pbt::Runner r;
    auto add = [&](const char* id, void (*fn)(pbt::Ctx&), const char* rule) {
        pbt::Prop p{};
        p.id           = id;
        p.fn           = fn;
        p.rule         = rule;
        p.hang_counts  = true;
        p.quick_s      = 25;
        p.thorough_s   = 300;
        p.quick_max    = 1000000;
        p.thorough_max = 100000000;
        r.props.push_back(p);
    };
    add("P17", p17, "generated timers, delayed emissions and scripts which sleep, bind, unbind and throw, in virtual time; counts when at least six triggers were compared with their due times");
    add("P18", p18, "generated watchdogs over several groups and keys with scripts which service, bind and unbind them, in virtual time; counts when there were two firings and two services");
    add("P19", p19, "generated clock adjustments, rates and travels with pending timers, in virtual time; counts when at least two adjustments or travels were followed by a comparison");
    return r.main(argc, argv);
}
