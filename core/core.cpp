// Generated PowerPlant programs under generated schedules, judged by oracles over their history.
#include "analysis2.hpp"

namespace core {

struct Profile {
    int (*kw)(const Meta&);  ///< weight of a reaction kind
    int types{3};
    int rmax{9};
    int drivers{3};
    int default_threads{4};
    // body actions
    int b_work{4}, b_emit{5}, b_sleep{2}, b_throw{0}, b_handle{0}, b_shutdown{0}, b_force{0}, b_scope{0}, b_bind{0};
    // driver actions
    int d_emit{10}, d_sleep{3}, d_handle{0}, d_rest{2}, d_shutdown{0}, d_force{0}, d_scope{0}, d_bind{0};
    int s_local{10}, s_inline{2}, s_init{1};
    int burst{2};        ///< weight (of 20) of a burst
    int big_burst{0};    ///< weight (of 40) of a burst across queue blocks
    bool prestart{true}, constructor{true};
    int late{0};         ///< of 10
    int body_len{3};
    bool events{false};
    int force_end{0};    ///< of 10
    int stay{0};         ///< of 10: no wait for the end of startup
    int max_emissions{110};
    int scripts{1};      ///< scripts per reaction: 1..
    bool dep_seed{true};  ///< emit all types once first (so that dependencies are there)
};

static Action gen_emit(pbt::Src& s, const Profile& p, bool driver) {
    Action a;
    a.t = A_EMIT;
    a.a = int(s.draw(uint32_t(p.types)));
    a.b = s.weighted({p.s_local, p.s_inline, p.s_init});
    a.c = 0;
    if (s.chance(p.burst, 20)) {
        a.c = driver ? s.range(1, 8) : s.range(1, 2);
    }
    if (driver && p.big_burst > 0 && s.chance(p.big_burst, 40)) {
        a.c = s.range(60, 200);
    }
    return a;
}

static Action gen_handle(pbt::Src& s, int nr) {
    Action a;
    a.t = int(s.draw(10)) < 4 ? A_DISABLE : int(s.draw(10)) < 7 ? A_ENABLE : A_UNBIND;
    a.a = int(s.draw(uint32_t(nr)));
    a.b = int(s.draw(2));
    return a;
}

static Action gen_body(pbt::Src& s, const Profile& p, int nr) {
    Action a;
    switch (s.weighted({p.b_work, p.b_emit, p.b_sleep, p.b_throw, p.b_handle, p.b_shutdown, p.b_force, p.b_scope, p.b_bind})) {
        case 0: a.t = A_WORK; a.a = s.range(0, 12); break;
        case 1: a = gen_emit(s, p, false); break;
        case 2: a.t = A_SLEEP; a.a = s.range(0, 5); break;
        case 3: a.t = A_THROW; a.a = int(s.draw(4)); break;
        case 4: a = gen_handle(s, nr); break;
        case 5: a.t = A_SHUTDOWN; break;
        case 6: a.t = A_FORCE; break;
        case 7: a.t = A_SCOPE; break;
        default: a.t = A_BIND; a.a = int(s.draw(uint32_t(nr))); break;
    }
    return a;
}
static Action gen_driver(pbt::Src& s, const Profile& p, int nr) {
    Action a;
    switch (s.weighted({p.d_emit, p.d_sleep, p.d_handle, p.d_rest, p.d_shutdown, p.d_force, p.d_scope, p.d_bind})) {
        case 0: a = gen_emit(s, p, true); break;
        case 1: a.t = A_SLEEP; a.a = s.range(0, 5); break;
        case 2: a = gen_handle(s, nr); break;
        case 3: a.t = A_REST; break;
        case 4: a.t = A_SHUTDOWN; break;
        case 5: a.t = A_FORCE; break;
        case 6: a.t = A_SCOPE; break;
        default: a.t = A_BIND; a.a = int(s.draw(uint32_t(nr))); break;
    }
    return a;
}

static Program generate(pbt::Src& s, const Profile& p, World& w) {
    Program g;
    g.default_threads = s.range(1, p.default_threads);
    std::vector<int> weights;
    for (auto& k : kinds()) {
        int x = p.kw(k.meta);
        for (int t : k.meta.triggers) {
            x = t < p.types ? x : 0;
        }
        weights.push_back(x);
    }
    const int size = s.sized();
    const int rmax = std::max(2, std::min(p.rmax, 2 + size / 6));
    for (int i = 0; s.more(i, 1, rmax, std::max(2, rmax / 2)); ++i) {
        ReactionDef d;
        d.kind = s.weighted(weights);
        g.r.push_back(d);
    }
    const int nr = int(g.r.size());
    for (auto& d : g.r) {
        const int ns = s.range(1, p.scripts);
        for (int i = 0; i < ns; ++i) {
            Script sc;
            for (int j = 0; s.more(j, 0, p.body_len, 2); ++j) {
                sc.push_back(gen_body(s, p, nr));
            }
            d.scripts.push_back(sc);
        }
        d.late = p.late > 0 && s.chance(p.late, 10);
    }
    if (p.constructor && s.chance(1, 4)) {
        for (int j = 0; s.more(j, 1, 3, 1); ++j) {
            g.constructor.push_back(gen_emit(s, p, false));
        }
    }
    if (p.prestart && s.chance(1, 4)) {
        for (int j = 0; s.more(j, 1, 4, 2); ++j) {
            g.prestart.push_back(gen_emit(s, p, true));
        }
        if (p.d_shutdown > 0 && s.chance(1, 8)) {
            g.prestart.push_back(Action{A_SHUTDOWN, 0, 0, 0});
        }
    }
    const int nd  = s.range(1, p.drivers);
    const int len = std::max(3, std::min(12, 2 + size / 6));
    for (int i = 0; i < nd; ++i) {
        Script d;
        if (i == 0 && p.dep_seed && s.chance(1, 3)) {
            for (int t = 0; t < p.types; ++t) {
                d.push_back(Action{A_EMIT, t, 0, 0});
            }
        }
        for (int j = 0; s.more(j, 1, len, std::max(2, len / 2)); ++j) {
            d.push_back(gen_driver(s, p, nr));
        }
        g.drivers.push_back(d);
    }
    g.final_force   = p.force_end > 0 && s.chance(p.force_end, 10);
    g.wait_start    = !(p.stay > 0 && s.chance(p.stay, 10));
    g.listen_events = p.events;
    w.max_emissions = p.max_emissions;
    return g;
}

static void stuck(const char* kind, const std::string& report) {
    pbt::Ctx* c = pbt::current();
    if (c != nullptr) {
        c->fail(kind, report + "\n" + (W != nullptr ? W->describe() + W->dump() : ""));
    }
    _exit(9);
}

static int live_messages_after = 0;

template <int I>
static void forget() {
    NUClear::dsl::store::DataStore<M<I>>::set(nullptr);
}

static void execute(pbt::Ctx& ctx, World& w) {
    W = &w;
    vs::Options o;
    o.seed      = pbt::mix(ctx.sched_seed + ctx.src.draw(4));
    o.tick_ns   = 5;
    o.max_steps = 6000000;
    vs::on_stuck = stuck;
    const auto& p = w.p;
    w.handles.resize(p.r.size());
    w.bound.assign(p.r.size(), false);
    w.bound_at.assign(p.r.size(), -1);
    w.run_count.assign(p.r.size(), 0);
    for (auto& d : p.r) {
        const Meta& m = kinds()[size_t(d.kind)].meta;
        w.has_always  = w.has_always || m.always;
        w.has_idle    = w.has_idle || m.idle >= 0;
    }
    // the stores are process wide: forget earlier cases
    forget<0>();
    forget<1>();
    forget<2>();
    forget<3>();
    forget<4>();
    forget<5>();
    vs::begin(o);
    {
        NUClear::Configuration cfg;
        cfg.default_pool_concurrency = p.default_threads;
        NUClear::PowerPlant plant(cfg);
        w.plant = &plant;
        plant.install<CoreReactor>();
        perform(p.prestart, 4, -1);
        std::vector<std::thread> threads;
        for (size_t i = 0; i < p.drivers.size(); ++i) {
            threads.emplace_back([&w, &p, i] {
                w.driver_threads.push_back(vs::self());
                while (p.wait_start && !w.running) {
                    vs::sleep_ns(20000);
                }
                perform(p.drivers[i], 4, -1);
            });
        }
        std::thread coordinator([&w, &p, &threads] {
            w.driver_threads.push_back(vs::self());
            for (auto& t : threads) {
                t.join();
            }
            while (!w.running) {
                vs::sleep_ns(20000);
            }
            rest();
            perform(Script{Action{p.final_force ? A_FORCE : A_SHUTDOWN, 0, 0, 0}}, 0, -1);
        });
        w.start_at = w.add(EV_START, 0);
        plant.start();
        w.return_at  = w.add(EV_RETURN, 0);
        int finished = 0;
        for (int d : w.driver_threads) {
            finished += vs::thread_finished(d) ? 1 : 0;
        }
        w.live_at_return = vs::live_threads() - 1 - (int(threads.size()) + 1 - finished);
        coordinator.join();
    }
    live_messages_after = Counted::live();
    vs::end();
}

// ------------------------------------------------------------------------------------------------
// The properties
// ------------------------------------------------------------------------------------------------
static bool plain_kind(const Meta& m) {
    return !m.triggers.empty() && strstr(m.words, "ThrowWord") == nullptr;
}

static void common(pbt::Ctx& ctx, const Profile& p, World& w) {
    w.ctx = &ctx;
    w.p   = generate(ctx.src, p, w);
    execute(ctx, w);
    ctx.sample = w.describe() + w.dump(0, 40);
    ctx.hash(vs::switches());
    ctx.label("runs", w.runs.size());
    ctx.label("emissions", w.emissions.size());
    ctx.label("threads switches", vs::switches());
    ctx.label("schedule " + vs::strategy_name().substr(0, 4));
    if (ctx.verbose) {
        printf("%s%s", w.describe().c_str(), w.dump(0, 100000).c_str());
    }
}
static int overlaps(const World& w) {
    int depth = 0;
    int n     = 0;
    for (auto& e : w.log) {
        if (e.t == EV_RUN_B) {
            n += depth > 0 ? 1 : 0;
            ++depth;
        }
        else if (e.t == EV_RUN_E) {
            --depth;
        }
    }
    return n;
}

static void p01(pbt::Ctx& ctx) {
    World w;
    Profile p;
    p.kw          = [](const Meta& m) { return plain_kind(m) && m.buffer == 0 && !m.once ? 10 : 0; };
    p.types       = 4;
    p.big_burst   = 2;
    p.max_emissions = 260;
    p.late        = 1;
    p.b_bind      = 0;
    p.stay        = 2;
    common(ctx, p, w);
    Analysis2(w).delivery();
    ctx.nontrivial(w.runs.size() >= 4 && overlaps(w) > 0);
}
static void p02(pbt::Ctx& ctx) {
    World w;
    Profile p;
    p.kw       = [](const Meta& m) { return !plain_kind(m) ? 0 : !m.deps.empty() || m.triggers.size() > 1 || m.last_trigger > 0 ? 20 : m.always_inline ? 5 : m.buffer == 0 ? 1 : 0; };
    p.types    = 4;
    p.s_inline = 5;
    p.b_emit   = 8;
    p.dep_seed = false;
    p.drivers  = 2;
    p.burst    = 4;
    common(ctx, p, w);
    Analysis2 a(w);
    a.data();
    a.delivery("P02");
    int with = 0;
    for (auto& r : w.runs) {
        with += !w.meta(r.rid).deps.empty() || w.meta(r.rid).last_trigger > 0 ? 1 : 0;
    }
    ctx.nontrivial(with >= 2);
}
static void p03(pbt::Ctx& ctx) {
    World w;
    Profile p;
    p.kw       = [](const Meta& m) { return !plain_kind(m) ? 0 : m.always_inline || m.never_inline ? 20 : m.buffer == 0 ? 4 : 0; };
    p.types    = 4;
    p.s_inline = 8;
    p.b_emit   = 9;
    p.d_shutdown = 1;
    p.b_shutdown = 1;
    p.stay     = 3;
    common(ctx, p, w);
    Analysis2 a(w);
    a.inlining();
    int in = 0;
    for (auto& r : w.runs) {
        in += r.frame_emission >= 0 ? 1 : 0;
    }
    ctx.label("inline runs", uint64_t(in));
    ctx.nontrivial(in >= 2 && in < int(w.runs.size()));
}
static int group_kinds(const Meta& m) {
    return !plain_kind(m) ? 0 : m.groups != 0 && m.buffer == 0 && !m.once ? 10 : m.groups != 0 ? 2 : m.buffer == 0 && !m.once && m.deps.empty() ? 1 : 0;
}
static void p04(pbt::Ctx& ctx) {
    World w;
    Profile p;
    p.kw       = group_kinds;
    p.types    = 4;
    p.s_inline = 4;
    p.b_work   = 8;
    p.rmax     = 7;
    p.max_emissions = 90;
    common(ctx, p, w);
    Analysis2 a(w);
    a.group_bound();
    int in = 0;
    for (auto& r : w.runs) {
        in += w.meta(r.rid).groups != 0 ? 1 : 0;
    }
    ctx.nontrivial(in >= 4 && overlaps(w) > 0);
}
static void p05(pbt::Ctx& ctx) {
    World w;
    Profile p;
    p.kw      = [](const Meta& m) { return !plain_kind(m) ? 0 : m.groups != 0 ? 10 : m.deps.empty() ? 4 : 1; };
    p.types   = 4;
    p.rmax    = 8;
    p.d_rest  = 3;
    p.b_sleep = 4;
    p.s_inline = 3;
    common(ctx, p, w);
    Analysis2 a(w);
    a.not_stranded();
    a.work_conserving(":idle-thread", "P05", false);
    ctx.nontrivial(w.runs.size() >= 4 && overlaps(w) > 0 && w.rest_count > 0);
}
static void p06(pbt::Ctx& ctx) {
    World w;
    Profile p;
    p.kw      = [](const Meta& m) { return m.always ? 12 : !plain_kind(m) ? 0 : m.groups != 0 || m.buffer > 0 || m.once ? 1 : m.deps.empty() && m.pool != POOL_DEFAULT ? 6 : 3; };
    p.types   = 3;
    p.b_sleep = 5;
    p.s_inline = 1;
    p.big_burst = 1;
    p.burst   = 5;
    p.stay    = 2;
    common(ctx, p, w);
    Analysis2 a(w);
    a.placement();
    a.work_conserving(":unused-thread", "P06", true);
    std::set<int> pools;
    for (auto& r : w.runs) {
        pools.insert(w.meta(r.rid).pool);
    }
    ctx.nontrivial(pools.size() >= 2 && w.runs.size() >= 4);
}
static void p07(pbt::Ctx& ctx) {
    World w;
    Profile p;
    p.kw      = [](const Meta& m) { return !plain_kind(m) || m.buffer > 0 || m.once || !m.deps.empty() ? 0 : !m.prios.empty() ? 12 : m.pool != POOL_DEFAULT || m.groups != 0 ? 5 : 2; };
    p.types   = 5;
    p.rmax    = 10;
    p.default_threads = 2;
    p.burst   = 6;
    p.big_burst = 1;
    p.b_sleep = 4;
    p.s_inline = 1;
    p.max_emissions = 250;
    common(ctx, p, w);
    Analysis2 a(w);
    a.order();
    ctx.label("P07 decisions", w.choices);
    ctx.nontrivial(w.choices >= 3);
}
static void p08(pbt::Ctx& ctx) {
    World w;
    Profile p;
    p.kw      = [](const Meta& m) { return strstr(m.words, "ThrowWord") != nullptr || m.triggers.empty() || m.once ? 0 : m.buffer > 0 ? 20 : m.deps.empty() ? 1 : 0; };
    p.types   = 4;
    p.burst   = 7;
    p.b_throw = 2;
    p.b_sleep = 4;
    p.drivers = 4;
    p.d_shutdown = 0;
    common(ctx, p, w);
    Analysis2 a(w);
    a.drops();
    ctx.nontrivial(w.choices >= 1);
}
static void p11(pbt::Ctx& ctx) {
    World w;
    Profile p;
    p.kw      = [](const Meta& m) { return m.startup || m.shutdown ? 20 : m.always || m.idle >= 0 ? 0 : !plain_kind(m) ? 0 : m.pool == POOL_D || m.pool == POOL_E ? 8 : m.groups != 0 ? 4 : m.buffer == 0 && !m.once && m.deps.empty() ? 4 : 1; };
    p.types   = 4;
    p.s_init  = 3;
    p.s_inline = 3;
    p.b_emit  = 8;
    p.b_shutdown = 1;
    p.d_shutdown = 2;
    p.d_rest  = 1;
    p.stay    = 3;
    common(ctx, p, w);
    Analysis2 a(w);
    a.lifecycle();
    ctx.nontrivial(w.choices >= 2);
}
static void p12(pbt::Ctx& ctx) {
    World w;
    Profile p;
    p.kw      = [](const Meta& m) { return m.shutdown ? 5 : m.always ? 3 : m.idle >= 0 || m.startup ? 1 : !plain_kind(m) ? 0 : m.pool != POOL_DEFAULT ? 8 : m.groups != 0 ? 6 : 3; };
    p.types   = 4;
    p.burst   = 6;
    p.b_force = 1;
    p.d_force = 2;
    p.d_shutdown = 1;
    p.b_sleep = 4;
    p.force_end = 6;
    p.stay    = 3;
    common(ctx, p, w);
    Analysis2 a(w);
    a.forced();
    if (live_messages_after > TYPES) {
        ctx.fail("P12:leak", pbt::fmt("%d messages still alive after the system was destroyed\n", live_messages_after) + w.describe());
    }
    ctx.nontrivial(w.any_force() && w.choices > 0);
}
static void p13(pbt::Ctx& ctx) {
    World w;
    Profile p;
    p.kw      = [](const Meta& m) { return m.once ? 12 : m.idle >= 0 || m.always ? 3 : m.startup || m.shutdown ? 2 : !plain_kind(m) ? 0 : m.buffer > 0 ? 1 : 4; };
    p.types   = 3;
    p.b_handle = 3;
    p.d_handle = 8;
    p.d_rest  = 4;
    p.b_throw = 1;
    p.drivers = 2;
    p.late    = 2;
    p.d_bind  = 2;
    p.b_bind  = 1;
    common(ctx, p, w);
    Analysis2 a(w);
    a.handles();
    int h = 0;
    for (auto& o : w.hops) {
        h += o.op != A_BIND ? 1 : 0;
    }
    ctx.label("P13 handle operations", uint64_t(h));
    ctx.nontrivial(h >= 1 && w.runs.size() >= 3);
}
static void p14(pbt::Ctx& ctx) {
    World w;
    Profile p;
    p.kw      = [](const Meta& m) { return m.always ? 4 : m.idle >= 0 || m.startup || m.shutdown ? 2 : strstr(m.words, "ThrowWord") != nullptr ? 10 : m.buffer > 0 || m.groups != 0 || m.scopes != 0 ? 6 : m.always_inline ? 6 : 3; };
    p.types   = 4;
    p.b_throw = 6;
    p.s_inline = 4;
    p.b_scope = 2;
    p.d_scope = 1;
    p.scripts = 2;
    p.events  = ctx.src.chance(1, 3);
    common(ctx, p, w);
    int thrown = 0;
    for (auto& r : w.runs) {
        thrown += r.threw ? 1 : 0;
    }
    ctx.label("P14 exceptions thrown", uint64_t(thrown));
    Analysis2 a(w);
    a.delivery("P14");
    a.not_stranded("P14");
    a.group_bound("P14");
    a.inlining("P14");
    a.drops("P14");
    a.scopes("P14");
    a.placement("P14");
    if (w.p.listen_events) {
        a.statistics("P14");
    }
    ctx.nontrivial(thrown > 0 && w.runs.size() >= 3);
}
static void p15(pbt::Ctx& ctx) {
    World w;
    Profile p;
    p.kw      = [](const Meta& m) { return m.always || m.idle >= 0 ? 0 : m.startup || m.shutdown ? 1 : !m.deps.empty() ? 6 : m.buffer > 0 ? 5 : m.always_inline ? 5 : 3; };
    p.types   = 4;
    p.b_throw = 2;
    p.s_inline = 5;
    p.b_emit  = 8;
    p.events  = true;
    p.dep_seed = false;
    common(ctx, p, w);
    Analysis2 a(w);
    a.statistics();
    ctx.nontrivial(w.stats.size() >= 9);
}
static void p16(pbt::Ctx& ctx) {
    World w;
    Profile p;
    p.kw      = [](const Meta& m) { return m.scopes != 0 ? 20 : m.always || m.idle >= 0 ? 0 : m.startup || m.shutdown ? 1 : !plain_kind(m) ? 0 : m.always_inline ? 5 : 1; };
    p.types   = 5;
    p.b_scope = 10;
    p.b_emit  = 9;
    p.b_throw = 2;
    p.d_scope = 3;
    p.s_inline = 12;
    p.body_len = 6;
    common(ctx, p, w);
    Analysis2 a(w);
    a.scopes();
    int in = 0;
    for (auto& x : w.probes) {
        in += x.run >= 0 && w.runs[size_t(x.run)].frame_emission >= 0 ? 1 : 0;
    }
    ctx.nontrivial(in >= 1 && w.probes.size() >= 4);
}

}  // namespace core

int main(int argc, char** argv) {
    using namespace core;
    pbt::Runner r;
    const uint64_t Q = 1000000;
    const uint64_t T = 100000000;
    auto add         = [&](const char* id, void (*fn)(pbt::Ctx&), const char* rule, bool hang) {
        pbt::Prop p{};
        p.id           = id;
        p.fn           = fn;
        p.rule         = rule;
        p.batch        = false;
        p.hang_counts  = hang;
        p.quick_s      = 25;
        p.thorough_s   = 300;
        p.quick_max    = Q;
        p.thorough_max = T;
        r.props.push_back(p);
    };
    add("P01", p01, "at least 4 reaction runs of which some overlap in time", false);
    add("P02", p02, "at least 2 runs of reactions with additional or last-N arguments", false);
    add("P03", p03, "at least 2 inline runs and at least one queued run", false);
    add("P04", p04, "at least 4 runs of reactions in groups, and runs which overlap", false);
    add("P05", p05, "at least 4 runs, overlapping runs and at least one rest point", true);
    add("P06", p06, "runs in at least two pools, at least 4 runs", false);
    add("P07", p07, "at least 3 moments at which several tasks were waiting and one was chosen", false);
    add("P08", p08, "at least one trigger dropped by a drop policy", false);
    add("P11", p11, "at least 2 of: shutdown reactions, tasks finished after the request, emissions after the request", true);
    add("P12", p12, "a forced shutdown with queued tasks to discard", true);
    add("P13", p13, "at least one handle operation and 3 runs", true);
    add("P14", p14, "at least one exception thrown and 3 runs", true);
    add("P15", p15, "at least 9 statistics events", false);
    add("P16", p16, "at least 4 scope probes, one of them in an inline run", false);
    return r.main(argc, argv);
}
