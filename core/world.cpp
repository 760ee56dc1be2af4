#include "world.hpp"

namespace core {

const char* const pool_names[] = {"Default", "PA(1)", "PB(2)", "PC(2,noidle)", "PD(1,persistent)", "PE(2,persistent)", "Main", "Always"};

World* W = nullptr;

std::vector<Kind>& kinds() {
    static std::vector<Kind> k;
    return k;
}

template <int I>
static void emit_typed(int scope, int fuel, int uid) {
    auto m  = std::make_unique<M<I>>();
    m->uid  = uid;
    m->fuel = fuel;
    m->sum  = M<I>::check(uid, fuel);
    m->body.assign(size_t(uid % 7), uint8_t(uid));
    W->emissions[size_t(uid)].ptr = m.get();
    switch (scope) {
        case SC_INLINE: W->plant->emit<w::emit::Inline>(m); break;
        case SC_INIT: W->plant->emit<w::emit::Initialise>(m); break;
        default: W->plant->emit(m); break;
    }
}

void do_emit(int type, int scope, int fuel, bool prestart) {
    int uid = -1;
    {
    vs::NoPreempt np;
    if (int(W->emissions.size()) >= W->max_emissions) {
        return;
    }
    uid = int(W->emissions.size());
    Emission e{};
    e.uid      = uid;
    e.type     = type;
    e.scope    = scope;
    e.thread   = vs::self();
    e.fuel     = fuel;
    e.prestart = prestart;
    e.tid      = std::this_thread::get_id();
    if (const Task* t = Task::get_current_task()) {
        e.task_id     = t->id;
        e.reaction_id = t->parent ? t->parent->id : 0;
    }
    auto& fr   = W->frames[e.thread];
    if (!fr.empty() && fr.back().is_run) {
        e.parent_run = fr.back().id;
    }
    W->emissions.push_back(e);
    fr.push_back(Frame{false, uid});
    const int b                       = W->add(EV_EMIT_B, uid, type);
    W->emissions[size_t(uid)].b       = b;
    W->emissions[size_t(uid)].wrote_b = b;
    }
    try {
        switch (type) {
            case 0: emit_typed<0>(scope, fuel, uid); break;
            case 1: emit_typed<1>(scope, fuel, uid); break;
            case 2: emit_typed<2>(scope, fuel, uid); break;
            case 3: emit_typed<3>(scope, fuel, uid); break;
            case 4: emit_typed<4>(scope, fuel, uid); break;
            default: emit_typed<5>(scope, fuel, uid); break;
        }
    }
    catch (...) {
        W->emissions[size_t(uid)].threw = true;
    }
    W->frames[vs::self()].pop_back();
    const int end = W->add(EV_EMIT_E, uid, type);
    W->emissions[size_t(uid)].e = end;
}

static unsigned scope_answers() {
    return (w::TaskScope<C0>::in_scope() ? 1U : 0U) | (w::TaskScope<C1>::in_scope() ? 2U : 0U) | (w::TaskScope<C2>::in_scope() ? 4U : 0U);
}

static void probe_scopes(int run) {
    const int at = W->add(EV_SCOPE, run);
    W->probes.push_back(ScopeProbe{at, vs::self(), scope_answers(), run});
}

static void do_bind(int rid) {
    if (W->bound[size_t(rid)]) {
        return;
    }
    W->bound[size_t(rid)] = true;
    auto& def             = W->p.r[size_t(rid)];
    const int hop         = int(W->hops.size());
    W->hops.push_back(HandleOp{rid, A_BIND, -1, -1, -1});
    W->hops[size_t(hop)].b     = W->add(EV_HND_B, rid, A_BIND);
    try {
        W->handles[size_t(rid)] = kinds()[size_t(def.kind)].bind(*W->reactor, rid, "r" + std::to_string(rid));
    }
    catch (const std::invalid_argument&) {
        // A pool which does not exist yet cannot be watched once the system has begun to shut down
        if (W->meta(rid).idle < 0 || W->shuts.empty()) {
            throw;
        }
    }
    W->hops[size_t(hop)].e     = W->add(EV_HND_E, rid, A_BIND);
    W->bound_at[size_t(rid)]   = W->hops[size_t(hop)].e;
}

void perform(const Script& s, int fuel, int run) {
    for (const auto& a : s) {
        ++W->actions_done;
        switch (a.t) {
            case A_WORK:
                for (int i = 0; i < a.a; ++i) {
                    vs::point();
                }
                break;
            case A_EMIT:
                if (fuel > 0) {
                    for (int i = 0; i <= a.c; ++i) {
                        do_emit(a.a, a.b, fuel - 1);
                    }
                }
                break;
            case A_SLEEP: vs::sleep_ns(uint64_t(a.a + 1) * 100000ULL); break;
            case A_THROW:
                if (run >= 0) {
                    W->runs[size_t(run)].threw = true;
                    switch (a.a) {
                        case 0: throw std::runtime_error("generated");
                        case 1: throw 17;
                        case 2: throw Custom{3};
                        default: throw std::string("a string");
                    }
                }
                break;
            case A_DISABLE:
            case A_ENABLE:
            case A_UNBIND:
                if (a.a < int(W->handles.size()) && W->bound[size_t(a.a)]) {
                    const int hop = int(W->hops.size());
                    W->hops.push_back(HandleOp{a.a, a.t, -1, -1, run});
                    W->hops[size_t(hop)].b = W->add(EV_HND_B, a.a, a.t);
                    // each operation on a copy of the handle, as user code would keep
                    Handle h = W->handles[size_t(a.a)];
                    if (a.t == A_UNBIND) {
                        h.unbind();
                    }
                    else if (a.b == 1) {
                        h.enable(a.t == A_ENABLE);
                    }
                    else if (a.t == A_ENABLE) {
                        h.enable();
                    }
                    else {
                        h.disable();
                    }
                    W->hops[size_t(hop)].e = W->add(EV_HND_E, a.a, a.t);
                }
                break;
            case A_SHUTDOWN:
            case A_FORCE: {
                const int so = int(W->shuts.size());
                W->shuts.push_back(ShutOp{a.t == A_FORCE, -1, -1, run, vs::self()});
                W->shuts[size_t(so)].b = W->add(EV_SHUT_B, a.t == A_FORCE ? 1 : 0);
                auto& fr               = W->frames[vs::self()];
                fr.push_back(Frame{false, -2});
                W->plant->shutdown(a.t == A_FORCE);
                W->frames[vs::self()].pop_back();
                const int se           = W->add(EV_SHUT_E, a.t == A_FORCE ? 1 : 0);
                W->shuts[size_t(so)].e = se;
            } break;
            case A_SCOPE: probe_scopes(run); break;
            case A_BIND:
                if (a.a < int(W->p.r.size()) && W->p.r[size_t(a.a)].late) {
                    do_bind(a.a);
                }
                break;
            case A_REST:
                if (run < 0) {
                    rest();
                }
                break;
            default: break;
        }
    }
}

void rest() {
    // one at a time: threads which wait for their turn are blocked, and so part of the rest
    const std::lock_guard<std::mutex> turn(W->rest_turn);
    size_t still = 0;
    int idle_for = 0;
    int busy_for = 0;
    for (int i = 0; i < 3000; ++i) {
        // a continuously running reaction which cannot run keeps its thread spinning
        const auto q = vs::wait_quiet(W->has_always ? 100000 : ~0ULL);
        // nothing else may happen until this moment is recorded
        auto np = std::make_unique<vs::NoPreempt>();
        if (q == vs::Quiet::STUCK) {
            W->rests.push_back(W->add(EV_REST, 0));
            ++W->rest_count;
            return;
        }
        // continuously running and idle reactions never leave the system at rest: their runs do not count
        size_t activity = 0;
        for (auto& e : W->log) {
activity += e.t == EV_RUN_B || e.t == EV_RUN_E ? (W->meta(e.y).always || W->meta(e.y).idle >= 0 ? 0 : 1) : e.t == EV_EMIT_B || e.t == EV_EMIT_E || e.t == EV_SHUT_B || e.t == EV_SHUT_E ? 1 : 0;
        }
        const bool activity_same = activity == still;
        idle_for = activity == still ? idle_for + 1 : 0;
        still    = activity;
        busy_for = q == vs::Quiet::BUSY && activity_same ? busy_for + 1 : 0;
        W->busy_rest = W->busy_rest || busy_for > 5;
        if (((W->has_always || W->has_idle) && idle_for > 150) || busy_for > 5) {
            W->rests.push_back(W->add(EV_REST, 0));
            ++W->rest_count;
            return;
        }
        if (W->running && !W->has_always && !W->has_idle) {
            W->add(EV_TIMED, 0);
        }
        np = nullptr;
        if (q != vs::Quiet::BUSY) {
            vs::sleep_ns(100000);
        }
    }
    W->ctx->fail("endless", "the system did not come to rest in 300 ms of virtual time\n" + W->describe() + W->dump());
}

bool word_should_throw(int where, const Task& t) {
    (void) t;
    if (W->runs.empty()) {
        return false;
    }
    // deterministic but irregular
    const uint64_t h = pbt::mix(W->log.size() * 3 + uint64_t(where));
    return h % 3 == 0;
}

/// Record the start of a run: no scheduling points (copying shared pointers has them)
static int begin_run(int rid, const Seen& seen, int& fuel) {
    vs::NoPreempt np;
    const int id = int(W->runs.size());
    RunRec r{};
    r.id     = id;
    r.rid    = rid;
    r.thread = vs::self();
    r.tid    = std::this_thread::get_id();
    r.seen   = seen;
    fuel     = 2;
    for (auto& i : seen.items) {
        if (i.ptr != nullptr) {
            r.uid = i.uid;
            fuel  = i.fuel;
            break;
        }
    }
    if (r.uid < 0 && !seen.lists.empty() && !seen.lists[0].empty()) {
        r.uid = seen.lists[0].back().uid;
        fuel  = seen.lists[0].back().fuel;
    }
    auto& fr = W->frames[r.thread];
    if (!fr.empty()) {
        if (!fr.back().is_run) {
            r.frame_emission = fr.back().id;
        }
        else {
            r.frame_run = fr.back().id;
        }
    }
    const Task* t = Task::get_current_task();
    if (t != nullptr) {
        r.task_id     = t->id;
        r.priority    = t->priority;
        r.reaction_id = t->parent ? t->parent->id : 0;
        r.has_stats   = t->statistics != nullptr;
        W->by_reaction_id[r.reaction_id] = rid;
    }
    auto le          = W->last_ev.find(r.thread);
    r.prev_on_thread = le == W->last_ev.end() ? -1 : le->second;
    const Meta& m    = W->meta(rid);
    if (m.idle >= 0 || m.always) {
        fuel = W->idle_budget-- > 0 ? 1 : 0;
    }
    const int thread = r.thread;
    W->runs.push_back(std::move(r));
    W->frames[thread].push_back(Frame{true, id});
    const int b               = W->add(EV_RUN_B, id, rid);
    W->runs[size_t(id)].b     = b;
    ++W->active_runs;
    return id;
}

void body(int rid, const Seen& seen) {
    int fuel            = 0;
    const int id        = begin_run(rid, seen, fuel);
    const auto& scripts = W->p.r[size_t(rid)].scripts;
    const int nth       = W->run_count[size_t(rid)]++;
    const Meta& m       = W->meta(rid);

    struct Finish {
        int id;
        ~Finish() {
            vs::NoPreempt np;
            // W->add is a scheduling point: W->runs may move meanwhile
            const int thread = W->runs[size_t(id)].thread;
            const int rid    = W->runs[size_t(id)].rid;
            W->frames[thread].pop_back();
            const int e             = W->add(EV_RUN_E, id, rid);
            W->runs[size_t(id)].e   = e;
            --W->active_runs;
            auto& f = W->frames[thread];
            if (!f.empty() && !f.back().is_run && f.back().id >= 0) {
                W->emissions[size_t(f.back().id)].wrote_b = e;
            }
        }
    } finish{id};

    if (m.always || m.idle >= 0) {
        vs::sleep_ns(100000);
    }
    if (!scripts.empty()) {
        perform(scripts[size_t(nth) % scripts.size()], fuel, id);
    }
}

CoreReactor::CoreReactor(std::unique_ptr<NUClear::Environment> e) : NUClear::Reactor(std::move(e)) {
    W->reactor = this;
    W->plant   = &powerplant;
    if (W->p.listen_events) {
        on<Trigger<NUClear::message::ReactionEvent>, Inline::ALWAYS>().then("listener", [](const NUClear::message::ReactionEvent& ev) {
 vs::NoPreempt np;
            StatRec s;
            s.at      = int(W->log.size());
            s.thread  = vs::self();
            s.event   = int(ev.type);
            s.s       = ev.statistics;
            s.tid       = std::this_thread::get_id();
            s.exception = ev.statistics->exception != nullptr;
            auto& fr    = W->frames[s.thread];
            s.frame_emission = fr.empty() || fr.back().is_run ? -1 : fr.back().id;
            W->listener_id   = Task::get_current_task()->parent->id;
            W->stats.push_back(s);
        });
        on<Trigger<NUClear::message::ReactionStatistics>>().then("statistics", [] { ++W->statistics_seen; });
    }
    const size_t n = W->p.r.size();
    for (size_t i = 0; i < n; ++i) {
        if (i == n / 2) {
            perform(W->p.constructor, 3, -1);
        }
        if (!W->p.r[i].late) {
            do_bind(int(i));
        }
    }
    // marks that the system has started
    on<Startup>().then("started", [] {
        W->started_at = W->add(EV_STARTED, 0);
        W->running    = true;
    });
}

static const char* act_name(int t) {
    static const char* n[] = {"work", "emit", "sleep", "throw", "disable", "enable", "unbind", "shutdown", "FORCE", "scope?", "bind", "rest", ""};
    return n[t];
}
static std::string script_text(const Script& s) {
    std::string o = "[";
    for (auto& a : s) {
        static const char* sc[] = {"", "inline ", "init "};
        if (a.t == A_EMIT) {
            o += pbt::fmt("emit %sM%d%s; ", sc[a.b], a.a, a.c > 0 ? pbt::fmt(" x%d", a.c + 1).c_str() : "");
        }
        else if (a.t == A_WORK || a.t == A_SLEEP || a.t == A_DISABLE || a.t == A_ENABLE || a.t == A_UNBIND || a.t == A_BIND || a.t == A_THROW) {
            o += pbt::fmt("%s %d; ", act_name(a.t), a.a);
        }
        else {
            o += pbt::fmt("%s; ", act_name(a.t));
        }
    }
    return o + "]";
}

std::string World::describe() const {
    std::string o = pbt::fmt("program: default pool %d threads\n", p.default_threads);
    for (size_t i = 0; i < p.r.size(); ++i) {
        o += pbt::fmt(" r%zu: on<%s>%s", i, meta(int(i)).words, p.r[i].late ? " (late)" : "");
        for (auto& s : p.r[i].scripts) {
            o += " " + script_text(s);
        }
        o += "\n";
    }
    if (!p.constructor.empty()) {
        o += " constructor: " + script_text(p.constructor) + "\n";
    }
    if (!p.prestart.empty()) {
        o += " before start: " + script_text(p.prestart) + "\n";
    }
    for (size_t i = 0; i < p.drivers.size(); ++i) {
        o += pbt::fmt(" driver %zu: ", i) + script_text(p.drivers[i]) + "\n";
    }
    o += pbt::fmt(" then shutdown%s; schedule %s\n", p.final_force ? "(force)" : "", vs::strategy_name().c_str());
    return o;
}

std::string World::dump(int from, int to) const {
    std::string o;
    if (to < 0) {
        to = int(log.size());
    }
    to = std::min(to, int(log.size()));
    if (to - from > 90) {
        from = to - 90;
    }
    for (int i = std::max(0, from); i < to && i < int(log.size()); ++i) {
        const Ev& e = log[size_t(i)];
        o += pbt::fmt("  %d t%d ", i, e.thread);
        switch (e.t) {
            case EV_EMIT_B: o += pbt::fmt("emit M%d #%d%s {", e.y, e.x, emissions[size_t(e.x)].scope == SC_INLINE ? " inline" : emissions[size_t(e.x)].scope == SC_INIT ? " init" : ""); break;
            case EV_EMIT_E: o += pbt::fmt("} #%d", e.x); break;
            case EV_RUN_B: o += pbt::fmt("run%d r%d(%s) #%d {", e.x, e.y, meta(e.y).name, runs[size_t(e.x)].uid); break;
            case EV_RUN_E: o += pbt::fmt("} run%d%s", e.x, runs[size_t(e.x)].threw ? " threw" : ""); break;
            case EV_SHUT_B: o += e.x != 0 ? "force shutdown {" : "shutdown {"; break;
            case EV_SHUT_E: o += "} shutdown"; break;
            case EV_HND_B: o += pbt::fmt("%s r%d {", act_name(e.y), e.x); break;
            case EV_HND_E: o += pbt::fmt("} %s r%d", act_name(e.y), e.x); break;
            case EV_REST: o += "REST"; break;
            case EV_START: o += "start()"; break;
            case EV_RETURN: o += "start() returned"; break;
            case EV_SCOPE: o += "scope probe"; break;
            case EV_STARTED: o += "startup reached"; break;
            case EV_TIMED: o += "quiet"; break;
            default: o += "?"; break;
        }
        o += "\n";
    }
    return o;
}

}  // namespace core
