// Oracles for the life cycle, forced shutdown and statistics.
#ifndef ANALYSIS2_HPP
#define ANALYSIS2_HPP
#include "analysis.hpp"

namespace core {

struct Analysis2 : Analysis {
    using Analysis::Analysis;

    bool exact_group_free(int rid) const {
        return meta(rid).groups == 0;
    }

    // ------------------------------------------------------------------ P11
    void lifecycle(const char* pre = "P11") {
        const std::string P(pre);
        if (w.start_at < 0) {
            return;
        }
        int first_queued = n + 1;
        for (auto& r : w.runs) {
            if (queued(r) && !meta(r.rid).shutdown) {
                first_queued = std::min(first_queued, r.b);
            }
            if (queued(r) && r.b < w.start_at) {
                fail(P + ":before-start", pbt::fmt("queued run%d of %s before start()", r.id, rname(r.rid).c_str()), r.b);
            }
            if (w.return_at >= 0 && r.b > w.return_at && queued(r)) {
                fail(P + ":after-return", pbt::fmt("queued run%d of %s after start() returned", r.id, rname(r.rid).c_str()), r.b);
            }
            if (w.return_at >= 0 && queued(r) && (r.e < 0 || r.e > w.return_at)) {
                fail(P + ":after-return", pbt::fmt("run%d of %s was still running when start() returned", r.id, rname(r.rid).c_str()), r.b);
            }
        }
        if (w.live_at_return > 0) {
            fail(P + ":threads", pbt::fmt("%d pool threads still live when start() returned", w.live_at_return));
        }
        // Startup
        const int first_force_or_shut = shut0;
        for (int rid = 0; rid < int(w.p.r.size()); ++rid) {
            const Meta& m = meta(rid);
            if (!m.startup || w.p.r[size_t(rid)].late) {
                continue;
            }
            const Tri s = status(rid, w.start_at, w.started_at >= 0 ? w.started_at : n);
            int c       = 0;
            for (auto& r : w.runs) {
                if (r.rid != rid) {
                    continue;
                }
                ++c;
                if (r.b < w.start_at) {
                    fail(P + ":startup", pbt::fmt("%s ran before start()", rname(rid).c_str()), r.b);
                }
                if (exact_group_free(rid)) {
                    if (r.thread != 0) {
                        fail(P + ":startup", pbt::fmt("%s did not run on the starting thread", rname(rid).c_str()), r.b);
                    }
                    if (first_queued < r.e) {
                        fail(P + ":startup", pbt::fmt("a queued task ran before %s had finished", rname(rid).c_str()), first_queued);
                    }
                }
            }
            if (c > 1 || (c == 0 && s == YES && exact_group_free(rid))) {
                fail(P + ":startup", pbt::fmt("%s ran %d times", rname(rid).c_str(), c));
            }
            if (c == 1) {
                w.ctx->label("P11 startup reactions");
            }
        }
        (void) first_force_or_shut;
        // Shutdown reactions
        if (shut0 <= n) {
            for (int rid = 0; rid < int(w.p.r.size()); ++rid) {
                const Meta& m = meta(rid);
                if (!m.shutdown) {
                    continue;
                }
                int c  = 0;
                int at = -1;
                for (auto& r : w.runs) {
                    if (r.rid == rid) {
                        ++c;
                        at = r.b;
                        if (r.b < shut0) {
                            fail(P + ":shutdown", pbt::fmt("%s ran before shutdown was requested", rname(rid).c_str()), r.b);
                        }
                    }
                }
                if (c > 1) {
                    fail(P + ":shutdown-twice", pbt::fmt("%s ran %d times", rname(rid).c_str(), c), at);
                }
                if (c == 0 && !w.any_force() && status(rid, shut0, shut0e) == YES) {
                    fail(P + ":shutdown-lost", pbt::fmt("%s never ran", rname(rid).c_str()));
                }
                if (c == 1) {
                    w.ctx->label("P11 shutdown reactions");
                    w.choices++;
                }
            }
        }
        // Deferred emissions
        for (auto& e : w.emissions) {
            if (e.scope != SC_INIT || e.e < 0) {
                continue;
            }
            for (int id : runs_of[size_t(e.uid)]) {
                const RunRec& r = w.runs[size_t(id)];
                if (r.b < w.start_at) {
                    fail(P + ":deferred", pbt::fmt("run%d of %s saw the deferred #%d before start()", r.id, rname(r.rid).c_str(), e.uid), r.b);
                }
            }
            if (!w.any_force() && e.e < shut0) {
                for (int rid = 0; rid < int(w.p.r.size()); ++rid) {
                    // the delivery happens between its request and the end
                    const Meta& m = meta(rid);
                    if (!listens(rid, e.type) || !countable(rid) || !unlimited(rid) || throwing_word(rid) || !m.deps.empty() || has_hops(rid)) {
                        continue;
                    }
                    const bool rested = first_rest[size_t(std::max(e.e, w.start_at))] < shut0;
                    if (!rested && !m.always_inline) {
                        // after the request its listeners are discarded unless they run inline
                        continue;
                    }
                    if (!rested && m.groups != 0) {
                        continue;
                    }
                    if (status(rid, e.b, n) == YES) {
                        w.ctx->label("P11 deferred deliveries");
                        if (find_run(e, rid) == nullptr) {
                            fail(P + ":deferred-lost", pbt::fmt("%s never ran for the deferred #%d", rname(rid).c_str(), e.uid), e.b);
                        }
                    }
                }
            }
        }
        // What was accepted before the request is finished
        if (!w.any_force()) {
            for (auto& e : w.emissions) {
                if (e.scope == SC_INIT || e.e < 0 || e.e > shut0) {
                    continue;
                }
                for (int rid = 0; rid < int(w.p.r.size()); ++rid) {
                    if (must_run(e, rid)) {
                        const RunRec* r = find_run(e, rid);
                        if (r == nullptr || r->e < 0) {
                            fail(P + ":accepted-lost", pbt::fmt("%s was accepted for #%d before shutdown but never finished", rname(rid).c_str(), e.uid), e.b);
                        }
                        if (r->e > shut0) {
                            w.ctx->label("P11 accepted tasks finished after the request");
                            w.choices++;
                        }
                    }
                }
            }
        }
        // What is emitted after the request is discarded
        for (auto& r : w.runs) {
            const int tu = countable(r.rid) ? trigger_uid(r) : -1;
            if (tu < 0 || !queued(r)) {
                continue;
            }
            const Emission& e = w.emissions[size_t(tu)];
            const int pool    = meta(r.rid).pool;
            const bool pers   = pool == POOL_D || pool == POOL_E;
            if (e.b > shut0e && e.scope != SC_INIT && !pers) {
                fail(P + ":after-shutdown", pbt::fmt("%s ran for #%d, which was emitted after the shutdown request was accepted", rname(r.rid).c_str(), tu), r.b);
            }
            if (e.b > shut0e && pers) {
                w.ctx->label("P11 persistent runs after the request");
            }
        }
        for (auto& e : w.emissions) {
            if (e.b < shut0e || e.e < 0 || w.any_force() || e.scope == SC_INIT) {
                continue;
            }
            w.ctx->label("P11 emissions after the request");
            w.choices++;
            // emitted by a task of a pool which is not persistent: persistent pools still work
            if (e.parent_run < 0) {
                continue;
            }
            const RunRec& pr = w.runs[size_t(e.parent_run)];
            const int ppool  = meta(pr.rid).pool;
            if (!queued(pr) || ppool == POOL_D || ppool == POOL_E || ppool == POOL_ALWAYS || meta(pr.rid).triggers.empty()) {
                continue;
            }
            for (int rid = 0; rid < int(w.p.r.size()); ++rid) {
                const int pool = meta(rid).pool;
                if ((pool == POOL_D || pool == POOL_E) && must_run(e, rid) && pool_used_before(pool, shut0)) {
                    w.ctx->label("P11 persistent deliveries after the request");
                    if (find_run(e, rid) == nullptr) {
                        fail(P + ":persistent-lost", pbt::fmt("%s of a persistent pool never ran for #%d", rname(rid).c_str(), e.uid), e.b);
                    }
                }
            }
        }
    }

    /// Did the pool certainly exist before this point?
    bool pool_used_before(int pool, int at) const {
        for (auto& e : w.emissions) {
            if (e.e < 0 || e.e >= at || e.scope == SC_INIT) {
                continue;
            }
            for (int rid = 0; rid < int(w.p.r.size()); ++rid) {
                if (meta(rid).pool == pool && must_run(e, rid)) {
                    return true;
                }
            }
        }
        return false;
    }

    // ------------------------------------------------------------------ P12
    void forced(const char* pre = "P12") {
        const std::string P(pre);
        int fe = n + 1;
        for (auto& s : w.shuts) {
            if (s.force && s.e >= 0) {
                fe = std::min(fe, s.e);
            }
        }
        if (fe > n) {
            return;
        }
        int after = 0;
        for (auto& r : w.runs) {
            if (!queued(r) || r.b < fe) {
                continue;
            }
            ++after;
            const int tu = countable(r.rid) ? trigger_uid(r) : -1;
            if (tu >= 0 && w.emissions[size_t(tu)].b > fe) {
                fail(P + ":started", pbt::fmt("%s ran for #%d, which was emitted after the forced shutdown", rname(r.rid).c_str(), tu), r.b);
            }
            if (r.prev_on_thread > fe) {
                fail(P + ":started", pbt::fmt("run%d of %s was taken up after the forced shutdown", r.id, rname(r.rid).c_str()), r.b);
            }
        }
        w.ctx->label("P12 runs begun around the request", uint64_t(after));
        int discarded = 0;
        for (auto& e : w.emissions) {
            for (int rid = 0; rid < int(w.p.r.size()); ++rid) {
                discarded += e.e >= 0 && e.e < force0 && must_run(e, rid) && find_run(e, rid) == nullptr ? 1 : 0;
            }
        }
        w.ctx->label("P12 discarded tasks", uint64_t(discarded));
        w.choices += uint64_t(discarded);
        if (w.live_at_return > 0) {
            fail(P + ":threads", pbt::fmt("%d pool threads still live when start() returned", w.live_at_return));
        }
    }

    // ------------------------------------------------------------------ P15
    void statistics(const char* pre = "P15") {
        const std::string P(pre);
        using RE = NUClear::message::ReactionEvent;
        std::map<NUClear::id_t, std::vector<const StatRec*>> by_task;
        std::map<NUClear::id_t, const RunRec*> run_of;
        std::map<int, NUClear::id_t> id_of;  // rid -> reaction id
        for (auto& h : w.by_reaction_id) {
            id_of[h.second] = h.first;
        }
        for (auto& r : w.runs) {
            run_of[r.task_id] = &r;
            if (!r.has_stats) {
                fail(P + ":none", pbt::fmt("run%d of %s has no statistics", r.id, rname(r.rid).c_str()), r.b);
            }
        }
        int finished = 0;
        for (auto& s : w.stats) {
            if (s.s->target.reaction_id == w.listener_id) {
                fail(P + ":listener", "statistics about the reaction which listens to statistics", s.at);
            }
            by_task[s.s->target.task_id].push_back(&s);
            finished += s.event == RE::FINISHED ? 1 : 0;
        }
        for (auto& t : by_task) {
            std::string seq;
            for (auto* s : t.second) {
                seq += "CMBSF"[s->event];
            }
            const StatRec* c = t.second[0];
            const int at     = c->at;
            if (seq != "CSF" && seq != "M" && seq != "B" && seq != "C") {
                fail(P + ":sequence", pbt::fmt("task %llu has the event sequence %s", (unsigned long long) t.first, seq.c_str()), at);
            }
            w.ctx->label("P15 tasks " + seq);
            const auto rid_it = w.by_reaction_id.find(c->s->target.reaction_id);
            if (seq == "C" && at < shut0 && !w.any_force() && rid_it != w.by_reaction_id.end() && !throwing_word(rid_it->second) && first_rest[size_t(std::min(at, n))] < shut0) {
                fail(P + ":sequence", pbt::fmt("task %llu was created but never finished", (unsigned long long) t.first), at);
            }
            auto rit = run_of.find(t.first);
            if (seq == "CSF" && rit == run_of.end() && rid_it != w.by_reaction_id.end() && !throwing_word(rid_it->second)) {
                fail(P + ":phantom", pbt::fmt("task %llu is reported as run but did not", (unsigned long long) t.first), at);
            }
            if ((seq == "M" || seq == "B") && rit != run_of.end()) {
                fail(P + ":phantom", pbt::fmt("task %llu ran although it is reported as dropped", (unsigned long long) t.first), at);
            }
            const auto& st = *c->s;
            if (st.created.thread.thread_id != c->tid) {
                fail(P + ":thread", "created on another thread than reported", at);
            }
            // who caused it?
            if (c->frame_emission >= 0) {
                const Emission& e = w.emissions[size_t(c->frame_emission)];
                if (st.cause.task_id != e.task_id || st.cause.reaction_id != e.reaction_id) {
                    fail(P + ":cause", pbt::fmt("the task created by emission #%d names task %llu of reaction %llu as its cause, not %llu of %llu", e.uid, (unsigned long long) st.cause.task_id, (unsigned long long) st.cause.reaction_id, (unsigned long long) e.task_id, (unsigned long long) e.reaction_id), at);
                }
                w.ctx->label(e.task_id != 0 ? "P15 causes checked" : "P15 causes outside tasks");
            }
            if (rid_it != w.by_reaction_id.end()) {
                const int rid = rid_it->second;
                const Meta& m = meta(rid);
                if (st.target_pool == nullptr || (!m.always && st.target_pool->concurrency != (m.pool == POOL_DEFAULT ? st.target_pool->concurrency : pool_threads(m.pool))) || st.target_pool->persistent != (m.pool == POOL_D || m.pool == POOL_E)) {
                    fail(P + ":pool", pbt::fmt("%s is reported to target the wrong pool", rname(rid).c_str()), at);
                }
                auto tp = target_pools.emplace(m.always ? 1000 + rid : m.pool, st.target_pool.get());
                if (tp.first->second != st.target_pool.get()) {
                    fail(P + ":pool", pbt::fmt("%s is reported to target another pool than others of its pool", rname(rid).c_str()), at);
                }
                if (int(st.target_groups.size()) != m.ngroups()) {
                    fail(P + ":groups", pbt::fmt("%s is reported with %zu groups", rname(rid).c_str(), st.target_groups.size()), at);
                }
                if (st.identifiers == nullptr || st.identifiers->name != "r" + std::to_string(rid)) {
                    fail(P + ":identity", pbt::fmt("%s is reported under another name", rname(rid).c_str()), at);
                }
            }
        }
        for (auto& r : w.runs) {
            auto it = by_task.find(r.task_id);
            if (it == by_task.end()) {
                fail(P + ":missing", pbt::fmt("run%d of %s has no events", r.id, rname(r.rid).c_str()), r.b);
            }
            if (it->second.size() != 3) {
                continue;
            }
            const StatRec& c = *it->second[0];
            const StatRec& s = *it->second[1];
            const StatRec& f = *it->second[2];
            if (s.at > r.b || c.at > s.at || f.at <= r.e) {
                fail(P + ":order", pbt::fmt("the events of run%d are out of order", r.id), r.b);
            }
            if (s.thread != r.thread || f.thread != r.thread || s.s->started.thread.thread_id != r.tid || s.s->finished.thread.thread_id != r.tid) {
                fail(P + ":thread", pbt::fmt("run%d of %s is reported on another thread", r.id, rname(r.rid).c_str()), r.b);
            }
            if (s.s->target.reaction_id != r.reaction_id) {
                fail(P + ":identity", pbt::fmt("run%d of %s is reported for another reaction", r.id, rname(r.rid).c_str()), r.b);
            }
            if (f.exception != r.threw && !throwing_word(r.rid)) {
                fail(P + ":exception", pbt::fmt("run%d of %s %s but its statistics say otherwise", r.id, rname(r.rid).c_str(), r.threw ? "threw" : "did not throw"), r.e);
            }
            if (s.s->started.real_time < s.s->created.real_time || s.s->finished.real_time < s.s->started.real_time || s.s->finished.nuclear_time < s.s->started.nuclear_time || s.s->started.nuclear_time < s.s->created.nuclear_time || s.s->finished.thread_time < s.s->started.thread_time) {
                fail(P + ":times", pbt::fmt("times of run%d run backwards", r.id), r.b);
            }
            if (queued(r) && s.s->started.thread.pool != s.s->target_pool) {
                fail(P + ":pool", pbt::fmt("run%d of %s is reported to have started on another pool", r.id, rname(r.rid).c_str()), r.b);
            }
            if (!queued(r) && std::count(w.driver_threads.begin(), w.driver_threads.end(), r.thread) != 0 && s.s->started.thread.pool != nullptr) {
                fail(P + ":pool", pbt::fmt("run%d of %s is reported on a pool although it ran on a foreign thread", r.id, rname(r.rid).c_str()), r.b);
            }
            if (r.threw) {
                w.ctx->label("P15 exceptions checked");
            }
        }
        // one outcome per listener and emission
        std::map<std::pair<int, NUClear::id_t>, std::string> outcome;
        for (auto& s : w.stats) {
            if (s.frame_emission >= 0 && (s.event == RE::CREATED || s.event == RE::BLOCKED || s.event == RE::MISSING_DATA)) {
                outcome[{s.frame_emission, s.s->target.reaction_id}] += "CMB"[s.event];
            }
        }
        for (auto& e : w.emissions) {
            if (e.scope == SC_INIT || e.e < 0) {
                continue;
            }
            for (int rid = 0; rid < int(w.p.r.size()); ++rid) {
                auto id = id_of.find(rid);
                if (id == id_of.end() || !listens(rid, e.type)) {
                    continue;
                }
                const Meta& m         = meta(rid);
                const Tri st          = status(rid, e.b, e.e);
                const Tri dp          = deps(rid, e.type, e.b, e.e);
                const std::string out = outcome[{e.uid, id->second}];
                if (out.size() > 1 || (out.empty() && st == YES)) {
                    fail(P + ":outcome", pbt::fmt("emission #%d led to the outcomes '%s' for %s", e.uid, out.c_str(), rname(rid).c_str()), e.b);
                }
                if (out == "B" && m.buffer == 0) {
                    fail(P + ":outcome", pbt::fmt("emission #%d is reported as blocked for %s", e.uid, rname(rid).c_str()), e.b);
                }
                if ((out == "M" && dp == YES) || (out == "C" && dp == NO)) {
                    fail(P + ":outcome", pbt::fmt("emission #%d has the outcome '%s' for %s", e.uid, out.c_str(), rname(rid).c_str()), e.b);
                }
                w.ctx->label("P15 outcomes checked");
            }
        }
    }
    std::map<int, const void*> target_pools;
};

}  // namespace core
#endif
