// Post-hoc oracles over the history of a generated program.
#ifndef ANALYSIS_HPP
#define ANALYSIS_HPP
#include "world.hpp"

namespace core {

struct Analysis {
    World& w;
    int n;                ///< log size
    int shut0;            ///< first shutdown request begins (n + 1 if none)
    int shut0e;           ///< ... and has ended
    int force0;           ///< first forced request begins
    std::vector<std::vector<int>> runs_of;  ///< by emission: run ids with that trigger
    std::vector<int> known_end;             ///< by run: index from which the task is certainly finished
    bool multi_groups{false};
    std::vector<int> first_rest;  ///< by log index: the next REST at or after it
    enum Tri { NO, MAYBE, YES };

    explicit Analysis(World& w_) : w(w_), n(int(w_.log.size())) {
        shut0  = n + 1;
        shut0e = n + 1;
        force0 = n + 1;
        for (auto& s : w.shuts) {
            if (s.b < 0) {
                continue;
            }
            shut0 = std::min(shut0, s.b);
            if (s.force) {
                force0 = std::min(force0, s.b);
            }
        }
        // Whichever request was first does the work (if not forced the others return at once): it began before any ended
        int first_e = n + 1;
        int forced  = n + 1;
        for (auto& s : w.shuts) {
            if (s.b >= 0 && s.e >= 0) {
                first_e = std::min(first_e, s.e);
                forced  = s.force ? std::min(forced, s.e) : forced;
            }
        }
        if (first_e <= n) {
            shut0e = 0;
            for (auto& s : w.shuts) {
                if (s.b >= 0 && s.b < first_e) {
                    shut0e = std::max(shut0e, s.e < 0 ? n + 1 : s.e);
                }
            }
            shut0e = std::min(shut0e, forced);
        }
        runs_of.resize(w.emissions.size());
        known_end.assign(w.runs.size(), n + 1);
        first_rest.assign(size_t(n) + 1, n + 1);
        std::map<int, int> next_of_thread;
        int next_rest = n + 1;
        for (int i = n - 1; i >= 0; --i) {
            const Ev& e = w.log[size_t(i)];
            if (e.t == EV_RUN_E) {
                auto it                     = next_of_thread.find(e.thread);
                known_end[size_t(e.x)] = std::min(it == next_of_thread.end() ? n + 1 : it->second, next_rest);
            }
            next_of_thread[e.thread] = i;
            if (e.t == EV_REST || e.t == EV_TIMED) {
                next_rest = i;
            }
            if (e.t == EV_REST) {
                first_rest[size_t(i)] = i;
            }
            else {
                first_rest[size_t(i)] = first_rest[size_t(i) + 1];
            }
        }
        for (auto& r : w.runs) {
            if (r.uid >= 0 && r.uid < int(runs_of.size())) {
                runs_of[size_t(r.uid)].push_back(r.id);
            }
        }
        for (auto& r : w.p.r) {
            multi_groups = multi_groups || kinds()[size_t(r.kind)].meta.ngroups() > 1;
        }
    }

    [[noreturn]] void fail(const std::string& kind, const std::string& msg, int at = -1) {
        int from = at < 0 ? n - 60 : at - 45;
        w.ctx->fail(kind, msg + "\n" + w.describe() + w.dump(std::max(0, from), at < 0 ? n : std::min(n, at + 15)));
    }

    const Meta& meta(int rid) const {
        return w.meta(rid);
    }
    static bool has_word(const Meta& m, const char* word) {
        return strstr(m.words, word) != nullptr;
    }
    bool listens(int rid, int type) const {
        const Meta& m = meta(rid);
        return std::find(m.triggers.begin(), m.triggers.end(), type) != m.triggers.end();
    }

    /// Until the bind has returned there is no handle to operate on, so an operation before it may do nothing
    int handle_from(int rid) const {
        for (auto& o : w.hops) {
            if (o.rid == rid && o.op == A_BIND && o.e >= 0) {
                return o.e;
            }
        }
        return n + 1;
    }

    /// Is rid bound and enabled throughout [b, e]?
    Tri status(int rid, int b, int e) const {
        bool bound = false;
        Tri result = YES;
        std::vector<const HandleOp*> en;
        const int have_handle = handle_from(rid);
        for (auto& o : w.hops) {
            if (o.rid != rid || o.b < 0) {
                continue;
            }
            if (o.op != A_BIND && o.b <= have_handle) {
                if (o.b < e) {
                    result = MAYBE;
                }
                continue;
            }
            const int oe = o.e < 0 ? n + 1 : o.e;
            if (o.op == A_BIND) {
                bound = true;
                if (o.b > e) {
                    return NO;
                }
                if (oe > b) {
                    result = MAYBE;
                }
            }
            else if (o.op == A_UNBIND) {
                if (oe < b) {
                    return NO;
                }
                if (o.b < e) {
                    result = MAYBE;
                }
            }
            else if (o.b < e) {
                en.push_back(&o);
            }
        }
        if (!bound) {
            return NO;
        }
        if (meta(rid).once) {
            for (auto& r : w.runs) {
                if (r.rid == rid && !r.threw) {
                    if (r.e >= 0 && known_end[size_t(r.id)] < b) {
                        return NO;
                    }
                    if (r.b < e) {
                        result = MAYBE;
                    }
                }
            }
        }
        const HandleOp* last = nullptr;
        for (auto* o : en) {
            if (o->e < 0 || o->e > b) {
                return MAYBE;
            }
            if (last == nullptr || o->e > last->e) {
                last = o;
            }
        }
        if (last != nullptr) {
            for (auto* o : en) {
                if (o != last && o->e > last->b && o->op != last->op) {
                    return MAYBE;
                }
            }
            if (last->op == A_DISABLE) {
                return result == YES ? NO : MAYBE;
            }
        }
        return result;
    }

    /// Is there certainly / certainly no value of the type during the interval?
    Tri present(int type, int b, int e) const {
        Tri t = NO;
        for (auto& x : w.emissions) {
            if (x.type != type || x.b < 0) {
                continue;
            }
            if (x.scope != SC_INIT && x.e >= 0 && x.e < b) {
                return YES;
            }
            if (x.b < e) {
                t = MAYBE;
            }
        }
        return t;
    }
    /// Are the values other than the trigger there?
    Tri deps(int rid, int type, int b, int e) const {
        const Meta& m = meta(rid);
        Tri t         = YES;
        for (auto& d : m.deps) {
            if (d.optional) {
                continue;
            }
            Tri p = present(d.type, b, e);
            if (p == NO) {
                return NO;
            }
            t = std::min(t, p);
        }
        for (int o : m.triggers) {
            if (o != type) {
                Tri p = present(o, b, e);
                if (p == NO) {
                    return NO;
                }
                t = std::min(t, p);
            }
        }
        return t;
    }

    /// A listener whose runs can be counted by trigger
    bool countable(int rid) const {
        const Meta& m = meta(rid);
        return m.triggers.size() == 1;
    }
    bool unlimited(int rid) const {
        const Meta& m = meta(rid);
        return m.buffer == 0 && !m.once;
    }
    bool throwing_word(int rid) const {
        return has_word(meta(rid), "ThrowWord");
    }

    /// Interval in which the delivery of an emission happened
    bool delivered_before(const Emission& e, int at) const {
        if (e.b < 0 || e.e < 0) {
            return false;
        }
        if (e.scope == SC_INIT) {
            const int from = std::max(e.e, w.start_at);
            return w.start_at >= 0 && from < n && first_rest[size_t(from)] < at;
        }
        return e.e < at;
    }
    /// Was the emission accepted in circumstances which guarantee that its tasks run?
    bool safe(const Emission& e) const {
        if (w.start_at < 0 || !delivered_before(e, shut0)) {
            return false;
        }
        if (force0 <= n) {
            // forced shutdown discards what is still queued
            const int from = std::max(e.e, w.start_at);
            return first_rest[size_t(from)] < force0;
        }
        return true;
    }
    /// listeners for which the emission certainly leads to one run
    bool must_run(const Emission& e, int rid) const {
        if (!listens(rid, e.type) || !countable(rid) || !unlimited(rid) || throwing_word(rid)) {
            return false;
        }
        const int b = e.b;
        const int x = e.scope == SC_INIT ? shut0 : e.e;
        return status(rid, b, x) == YES && deps(rid, e.type, b, x) == YES;
    }
    const RunRec* run_for(const Emission& e, int rid) const {
        for (int id : runs_of[size_t(e.uid)]) {
            if (w.runs[size_t(id)].rid == rid) {
                return &w.runs[size_t(id)];
            }
        }
        return nullptr;
    }
    std::string rname(int rid) const {
        return pbt::fmt("r%d on<%s>", rid, meta(rid).words);
    }

    // ------------------------------------------------------------------ P01
    void delivery(const char* pre = "P01") {
        const std::string P(pre);
        for (auto& r : w.runs) {
            const Meta& m = meta(r.rid);
            if (m.triggers.empty()) {
                continue;
            }
            if (r.uid < 0 || r.uid >= int(w.emissions.size())) {
                fail(P + ":phantom", pbt::fmt("run%d of %s without a trigger", r.id, rname(r.rid).c_str()), r.b);
            }
            auto check = [&](const Item& i) {
                if (i.ptr == nullptr) {
                    return;
                }
                if (!i.intact || i.uid < 0 || i.uid >= int(w.emissions.size()) || w.emissions[size_t(i.uid)].ptr != i.ptr
                    || w.emissions[size_t(i.uid)].type != i.type || w.emissions[size_t(i.uid)].fuel != i.fuel) {
                    fail(P + ":payload", pbt::fmt("run%d of %s saw a message which was not emitted as such (M%d #%d)", r.id, rname(r.rid).c_str(), i.type, i.uid), r.b);
                }
                if (w.emissions[size_t(i.uid)].b > r.b) {
                    fail(P + ":phantom", pbt::fmt("run%d of %s saw #%d before it was emitted", r.id, rname(r.rid).c_str(), i.uid), r.b);
                }
            };
            for (auto& i : r.seen.items) {
                check(i);
            }
            for (auto& l : r.seen.lists) {
                for (auto& i : l) {
                    check(i);
                }
            }
            if (!listens(r.rid, w.emissions[size_t(r.uid)].type)) {
                if (m.triggers.size() == 1 && m.deps.empty()) {
                    fail(P + ":phantom", pbt::fmt("run%d of %s has trigger #%d of another type", r.id, rname(r.rid).c_str(), r.uid), r.b);
                }
            }
        }
        for (auto& e : w.emissions) {
            std::map<int, int> count;
            for (int id : runs_of[size_t(e.uid)]) {
                const RunRec& r = w.runs[size_t(id)];
                if (countable(r.rid) && trigger_uid(r) == e.uid && ++count[r.rid] > 1) {
                    fail(P + ":duplicate", pbt::fmt("%s ran twice for #%d", rname(r.rid).c_str(), e.uid), r.b);
                }
            }
            if (!safe(e)) {
                continue;
            }
            for (int rid = 0; rid < int(w.p.r.size()); ++rid) {
                if (must_run(e, rid) && find_run(e, rid) == nullptr) {
                    fail(P + ":lost", pbt::fmt("%s never ran for #%d", rname(rid).c_str(), e.uid), e.b);
                }
            }
        }
        // reactions with several triggers: count
        for (int rid = 0; rid < int(w.p.r.size()); ++rid) {
            const Meta& m = meta(rid);
            if (m.triggers.size() < 2 || !unlimited(rid) || throwing_word(rid)) {
                continue;
            }
            int lo = 0;
            int hi = 0;
            for (auto& e : w.emissions) {
                if (!listens(rid, e.type) || e.b < 0) {
                    continue;
                }
                const int x = e.scope == SC_INIT ? n : e.e < 0 ? n : e.e;
                const Tri s = std::min(status(rid, e.b, x), deps(rid, e.type, e.b, x));
                hi += s != NO ? 1 : 0;
                lo += s == YES && safe(e) ? 1 : 0;
            }
            int c = 0;
            for (auto& r : w.runs) {
                c += r.rid == rid ? 1 : 0;
            }
            if (c < lo || c > hi) {
                fail(P + (c < lo ? ":lost" : ":duplicate"), pbt::fmt("%s ran %d times, expected %d to %d", rname(rid).c_str(), c, lo, hi));
            }
        }
    }
    /// The trigger of a run (the item of the trigger's type)
    int trigger_uid(const RunRec& r) const {
        const Meta& m = meta(r.rid);
        if (m.triggers.empty()) {
            return -1;
        }
        if (m.last_trigger > 0) {
            return r.seen.lists.empty() || r.seen.lists[0].empty() ? -1 : r.seen.lists[0].back().uid;
        }
        for (auto& i : r.seen.items) {
            if (i.type == m.triggers[0]) {
                return i.uid;
            }
        }
        return -1;
    }
    const RunRec* find_run(const Emission& e, int rid) const {
        for (auto& r : w.runs) {
            if (r.rid == rid && trigger_uid(r) == e.uid) {
                return &r;
            }
        }
        return nullptr;
    }

    // ------------------------------------------------------------------ P02
    void data(const char* pre = "P02") {
        const std::string P(pre);
        for (auto& r : w.runs) {
            const Meta& m = meta(r.rid);
            if (m.triggers.empty()) {
                continue;
            }
            // the interval in which the arguments were collected
            int b = 0;
            int e = r.b;
            int tu = countable(r.rid) ? trigger_uid(r) : -1;
            if (tu >= 0) {
                const Emission& em = w.emissions[size_t(tu)];
                b                  = em.b;
                if (em.scope != SC_INIT) {
                    e = std::min(r.b, em.e < 0 ? r.b : em.e);
                }
            }
            else if (countable(r.rid)) {
                fail(P + ":no-trigger", pbt::fmt("run%d of %s has no trigger value", r.id, rname(r.rid).c_str()), r.b);
            }
            else {
                // several triggers: collected at the latest in the emission of the newest of its values
                for (auto& i : r.seen.items) {
                    if (i.uid >= 0) {
                        b = std::max(b, w.emissions[size_t(i.uid)].b);
                    }
                    else {
                        fail(P + ":missing", pbt::fmt("run%d of %s ran without a required value", r.id, rname(r.rid).c_str()), r.b);
                    }
                }
                continue;
            }
            // items in argument order: the words say which is which
            for (auto& i : r.seen.items) {
                if (i.uid == tu && i.type == m.triggers[0]) {
                    continue;
                }
                const Dep* d = nullptr;
                for (auto& x : m.deps) {
                    if (x.type == i.type && x.last == 0) {
                        d = &x;
                    }
                }
                if (i.ptr == nullptr) {
                    if (d == nullptr || !d->optional) {
                        fail(P + ":missing", pbt::fmt("run%d of %s got null for M%d, which it requires", r.id, rname(r.rid).c_str(), i.type), r.b);
                    }
                    if (present(i.type, b, e) == YES) {
                        fail(P + ":null", pbt::fmt("run%d of %s got null although M%d has a value", r.id, rname(r.rid).c_str(), i.type), r.b);
                    }
                    w.ctx->label("P02 nulls checked");
                    continue;
                }
                if (d != nullptr) {
                    check_read(P, r, i, b, e);
                }
            }
            for (auto& l : r.seen.lists) {
                const int cap = m.last_trigger > 0 ? m.last_trigger : [&] {
                    for (auto& x : m.deps) {
                        if (x.last > 0) {
                            return x.last;
                        }
                    }
                    return 0;
                }();
                if (int(l.size()) > cap || l.empty()) {
                    fail(P + ":window", pbt::fmt("run%d of %s got %zu values", r.id, rname(r.rid).c_str(), l.size()), r.b);
                }
                // while there is no value yet the list is the one from the previous trigger
                if (m.last_trigger == 0 && deps(r.rid, w.emissions[size_t(trigger_uid(r))].type, b, e) == YES) {
                    check_read(P, r, l.back(), b, e);
                }
            }
            if (!m.deps.empty()) {
                // required values absent for certain means no run
                for (auto& d : m.deps) {
                    if (!d.optional && present(d.type, b, e) == NO) {
                        fail(P + ":missing", pbt::fmt("run%d of %s ran although M%d was never emitted", r.id, rname(r.rid).c_str(), d.type), r.b);
                    }
                }
            }
        }
        windows(P);
    }
    /// A last-N list is the newest N values the reaction was triggered with, oldest first
    void windows(const std::string& P) {
        for (int rid = 0; rid < int(w.p.r.size()); ++rid) {
            const Meta& m = meta(rid);
            int cap       = m.last_trigger;
            for (auto& d : m.deps) {
                cap = std::max(cap, d.last);
            }
            if (cap == 0) {
                continue;
            }
            // only when the triggers of the reaction do not overlap in time is their order known
            std::vector<const Emission*> tr;
            bool serial = true;
            for (auto& e : w.emissions) {
                if (listens(rid, e.type) && e.b >= 0) {
                    if (e.scope == SC_INIT || e.e < 0) {
                        serial = false;
                    }
                    tr.push_back(&e);
                }
            }
            std::sort(tr.begin(), tr.end(), [](const Emission* a, const Emission* b) { return a->b < b->b; });
            for (size_t i = 1; i < tr.size(); ++i) {
                serial = serial && tr[i]->b > tr[i - 1]->e;
            }
            if (!serial) {
                continue;
            }
            if (m.last_trigger > 0) {
                std::vector<int> window;
                for (auto* e : tr) {
                    const Tri s = status(rid, e->b, e->e);
                    if (s == MAYBE) {
                        break;
                    }
                    if (s == NO) {
                        continue;
                    }
                    window.push_back(e->uid);
                    if (int(window.size()) > cap) {
                        window.erase(window.begin());
                    }
                    const RunRec* r = find_run(*e, rid);
                    if (r == nullptr) {
                        continue;  // judged elsewhere
                    }
                    std::vector<int> got;
                    for (auto& i : r->seen.lists[0]) {
                        got.push_back(i.uid);
                    }
                    if (got != window) {
                        std::string g;
                        for (int x : got) {
                            g += pbt::fmt("#%d ", x);
                        }
                        std::string x;
                        for (int v : window) {
                            x += pbt::fmt("#%d ", v);
                        }
                        fail(P + ":window", pbt::fmt("run%d of %s got %s but the newest values are %s", r->id, rname(rid).c_str(), g.c_str(), x.c_str()), r->b);
                    }
                    w.ctx->label("P02 windows checked");
                    if (int(window.size()) == cap) {
                        w.ctx->label("P02 full windows");
                    }
                }
            }
            else {
                // Last<N, With>: the values that were the latest at each trigger (a value stays listed once per trigger)
                std::vector<int> window;
                bool known = true;
                for (auto* e : tr) {
                    if (status(rid, e->b, e->e) != YES) {
                        break;
                    }
                    const RunRec* r = find_run(*e, rid);
                    if (r == nullptr) {
                        if (deps(rid, e->type, e->b, e->e) != NO) {
                            known = false;
                        }
                        continue;
                    }
                    auto& l = r->seen.lists[0];
                    if (deps(rid, e->type, e->b, e->e) != YES) {
                        known = false;  // the newest may not be from this trigger
                    }
                    if (l.empty()) {
                        continue;
                    }
                    window.push_back(l.back().uid);
                    if (int(window.size()) > cap) {
                        window.erase(window.begin());
                    }
                    if (!known) {
                        break;
                    }
                    std::vector<int> got;
                    for (auto& i : l) {
                        got.push_back(i.uid);
                    }
                    if (got != window) {
                        fail(P + ":window", pbt::fmt("run%d of %s got a window of %zu values which is not the newest %zu", r->id, rname(rid).c_str(), got.size(), window.size()), r->b);
                    }
                    w.ctx->label("P02 with-windows checked");
                }
            }
        }
    }
    void check_read(const std::string& P, const RunRec& r, const Item& v, int b, int e) {
        if (v.ptr == nullptr) {
            return;
        }
        const Emission& x = w.emissions[size_t(v.uid)];
        w.ctx->label("P02 reads checked");
        // a value being handed out on the same thread at that moment is visible to it
        if (x.thread == (r.uid >= 0 ? w.emissions[size_t(trigger_uid(r))].thread : -1) && x.b <= e && (x.e < 0 || x.e >= b)) {
            return;
        }
        if (x.scope == SC_INIT) {
            return;
        }
        if (x.wrote_b > e) {
            fail(P + ":early", pbt::fmt("run%d of %s saw #%d before it could have been stored", r.id, rname(r.rid).c_str(), v.uid), r.b);
        }
        if (x.e < 0) {
            return;
        }
        for (auto& y : w.emissions) {
            if (y.uid != x.uid && y.type == x.type && y.scope != SC_INIT && y.e >= 0 && y.wrote_b > x.e && y.e < b) {
                fail(P + ":stale", pbt::fmt("run%d of %s saw #%d although #%d replaced it", r.id, rname(r.rid).c_str(), v.uid, y.uid), r.b);
            }
        }
    }

    // ------------------------------------------------------------------ P03
    bool inline_in(const RunRec& r, const Emission& e) const {
        return r.frame_emission == e.uid;
    }
    bool top_level(const RunRec& r) const {
        return r.frame_emission == -1 && r.frame_run == -1;
    }
    /// Could any task of group g other than this emission's listener be holding or waiting for a slot in [b, e]?
    bool group_touched(int g, int b, int e, int uid, int rid) const {
        for (auto& x : w.emissions) {
            for (int q = 0; q < int(w.p.r.size()); ++q) {
                const Meta& m = meta(q);
                if ((m.groups & (1U << g)) == 0 || !listens(q, x.type) || (x.uid == uid && q == rid)) {
                    continue;
                }
                if (x.b > e || x.b < 0) {
                    continue;
                }
                const RunRec* r = nullptr;
                bool uncertain  = !countable(q) || throwing_word(q);
                for (auto& rr : w.runs) {
                    if (rr.rid == q && trigger_uid(rr) == x.uid) {
                        r = &rr;
                    }
                }
                if (r != nullptr && !uncertain) {
                    if (known_end[size_t(r->id)] >= b) {
                        return true;
                    }
                    continue;
                }
                if (r == nullptr && !uncertain && x.scope != SC_INIT && x.e >= 0 && x.e < b) {
                    // no run: it was not triggered (or was discarded later on: uncertain)
                    if (status(q, x.b, x.e) == NO || deps(q, x.type, x.b, x.e) == NO) {
                        continue;
                    }
                    return true;
                }
                return true;
            }
        }
        // other reactions in the group (startup, shutdown, always)
        for (auto& r : w.runs) {
            if (meta(r.rid).triggers.empty() && (meta(r.rid).groups & (1U << g)) != 0) {
                return true;
            }
        }
        for (int q = 0; q < int(w.p.r.size()); ++q) {
            if (meta(q).triggers.empty() && (meta(q).groups & (1U << g)) != 0 && !meta(q).startup) {
                return true;
            }
        }
        return false;
    }
    void inlining(const char* pre = "P03") {
        const std::string P(pre);
        for (auto& r : w.runs) {
            const Meta& m = meta(r.rid);
            if (m.triggers.empty()) {
                continue;
            }
            if (m.never_inline && !top_level(r)) {
                fail(P + ":never", pbt::fmt("run%d of %s ran inline", r.id, rname(r.rid).c_str()), r.b);
            }
            if (r.frame_run >= 0) {
                fail(P + ":frame", pbt::fmt("run%d of %s ran inside another run without an emission", r.id, rname(r.rid).c_str()), r.b);
            }
            if (r.frame_emission >= 0) {
                const Emission& e = w.emissions[size_t(r.frame_emission)];
                if (countable(r.rid) && trigger_uid(r) != e.uid) {
                    fail(P + ":foreign", pbt::fmt("run%d of %s, triggered by #%d, ran inside the emission of #%d", r.id, rname(r.rid).c_str(), trigger_uid(r), e.uid), r.b);
                }
                if (e.scope == SC_LOCAL && !m.always_inline) {
                    fail(P + ":queued-inline", pbt::fmt("run%d of %s ran inside the ordinary emission #%d", r.id, rname(r.rid).c_str(), e.uid), r.b);
                }
                if (e.scope == SC_INIT) {
                    fail(P + ":init-inline", pbt::fmt("run%d of %s ran inside the deferred emission #%d", r.id, rname(r.rid).c_str(), e.uid), r.b);
                }
            }
        }
        for (auto& e : w.emissions) {
            if (e.scope == SC_INIT || e.e < 0) {
                continue;
            }
            for (int rid = 0; rid < int(w.p.r.size()); ++rid) {
                const Meta& m = meta(rid);
                if (!listens(rid, e.type) || !countable(rid) || !unlimited(rid) || throwing_word(rid) || m.never_inline) {
                    continue;
                }
                if (e.scope == SC_LOCAL && !m.always_inline) {
                    continue;
                }
                if (status(rid, e.b, e.e) != YES || deps(rid, e.type, e.b, e.e) != YES) {
                    continue;
                }
                bool is_free = true;
                for (int g = 0; g < GROUPS && is_free; ++g) {
                    if ((m.groups & (1U << g)) != 0) {
                        is_free = !group_touched(g, e.b, e.e, e.uid, rid);
                    }
                }
                if (!is_free) {
                    w.ctx->label("P03 inline but group maybe busy");
                    continue;
                }
                const RunRec* r = find_run(e, rid);
                w.ctx->label(m.groups == 0 ? "P03 inline required" : "P03 inline required with free groups");
                w.ctx->label(e.b < w.start_at || w.start_at < 0 ? "P03 inline before start" : e.b > shut0 ? "P03 inline after shutdown" : "P03 inline while running");
                if (r == nullptr || !inline_in(*r, e) || r->thread != e.thread || r->e > e.e || r->e < 0) {
                    fail(P + ":not-inline", pbt::fmt("%s did not run inside the %s emission #%d", rname(rid).c_str(), e.scope == SC_INLINE ? "inline" : "local", e.uid), e.b);
                }
            }
        }
    }

    // ------------------------------------------------------------------ P04
    void group_bound(const char* pre = "P04") {
        int count[GROUPS] = {0, 0, 0, 0, 0};
        int most          = 0;
        for (int i = 0; i < n; ++i) {
            const Ev& e = w.log[size_t(i)];
            if (e.t != EV_RUN_B && e.t != EV_RUN_E) {
                continue;
            }
            const unsigned gs = meta(e.y).groups;
            for (int g = 0; g < GROUPS; ++g) {
                if ((gs & (1U << g)) != 0) {
                    count[g] += e.t == EV_RUN_B ? 1 : -1;
                    if (count[g] > group_limit[g]) {
                        fail(std::string(pre) + ":bound", pbt::fmt("%d tasks of group %d (limit %d) run at once", count[g], g, group_limit[g]), i);
                    }
                    if (count[g] == group_limit[g]) {
                        ++most;
                    }
                }
            }
        }
        w.ctx->label("P04 times a group was full", uint64_t(most));
    }

    // ------------------------------------------------------------------ P05
    int pool_threads(int pool) const {
        switch (pool) {
            case POOL_DEFAULT: return w.p.default_threads;
            case POOL_B:
            case POOL_C:
            case POOL_E: return 2;
            default: return 1;
        }
    }
    /// A continuously running reaction in the same group always waits for it again, and may always come first
    bool may_starve(int rid) {
        int idles = 0;
        bool yes = false;
        for (int o = 0; o < int(w.p.r.size()); ++o) {
            yes = yes || (meta(o).always && (meta(o).groups & meta(rid).groups) != 0);
            idles += meta(o).idle >= 0 ? 1 : 0;
        }
        // Several idle reactions can trigger each other faster than their pools can run them
        return yes || idles > 1;
    }
    void not_stranded(const char* pre = "P05") {
        const std::string P(pre);
        for (auto& e : w.emissions) {
            if (w.start_at < 0 || !delivered_before(e, shut0)) {
                continue;
            }
            const int from = std::max(e.e, w.start_at);
            if (from >= n) {
                continue;
            }
            int rest = first_rest[size_t(from)];
            if (e.scope == SC_INIT && rest < shut0) {
                // delivered by then at the latest
            }
            if (rest > shut0) {
                continue;
            }
            for (int rid = 0; rid < int(w.p.r.size()); ++rid) {
                if (!must_run(e, rid) || may_starve(rid)) {
                    continue;
                }
                const RunRec* r = find_run(e, rid);
                if (r == nullptr || r->e < 0 || r->e > rest) {
                    fail(P + ":stranded", pbt::fmt("the system came to rest although %s has not run for #%d", rname(rid).c_str(), e.uid), rest);
                }
            }
        }
    }
    /// At moments at which only time can pass, nothing runnable waits
    void work_conserving(const std::string& kind_suffix, const char* pre, bool only_plain) {
        for (int p = 0; p < n; ++p) {
            if (w.log[size_t(p)].t != EV_TIMED || p > shut0 || w.start_at < 0 || p < w.start_at) {
                continue;
            }
            int busy[POOL_COUNT] = {};
            int act[GROUPS]      = {};
            bool in_startup      = false;
            std::set<int> seen_threads;
            bool started_reached = w.started_at >= 0 && w.started_at < p;
            for (auto& r : w.runs) {
                if (r.b < p && (r.e < 0 || r.e > p)) {
                    in_startup = in_startup || meta(r.rid).startup;
                    for (int g = 0; g < GROUPS; ++g) {
                        act[g] += (meta(r.rid).groups >> g) & 1U;
                    }
                    if (seen_threads.insert(r.thread).second) {
                        const int pl = thread_pool(r.thread);
                        if (pl == -2) {
                            in_startup = true;  // unknown: give up
                        }
                        else if (pl >= 0) {
                            ++busy[pl];
                        }
                    }
                }
            }
            if (in_startup || !started_reached) {
                continue;
            }
            // main may be in between start and its pool: quiet, so it is in its pool
            struct Waiting {
                int rid, uid;
            };
            std::vector<Waiting> waiting;
            bool init_pending = false;
            for (auto& e : w.emissions) {
                if (e.scope == SC_INIT && e.b < p) {
                    init_pending = true;
                }
                if (e.e < 0 || e.e > p || e.scope == SC_INIT) {
                    continue;
                }
                for (int rid = 0; rid < int(w.p.r.size()); ++rid) {
                    if (!must_run(e, rid)) {
                        continue;
                    }
                    const RunRec* r = find_run(e, rid);
                    if (r == nullptr || r->b > p) {
                        waiting.push_back({rid, e.uid});
                    }
                }
            }
            (void) init_pending;
            // tasks of emissions which are still going on may exist too
            std::vector<Waiting> perhaps;
            for (auto& e : w.emissions) {
                if (e.b < p && (e.e < 0 || e.e > p)) {
                    for (int rid = 0; rid < int(w.p.r.size()); ++rid) {
                        const RunRec* r = listens(rid, e.type) ? find_run(e, rid) : nullptr;
                        if (listens(rid, e.type) && (r == nullptr || r->b > p)) {
                            perhaps.push_back({rid, e.uid});
                        }
                    }
                }
            }
            for (auto& x : waiting) {
                const Meta& m = meta(x.rid);
                if (m.groups != 0 && (only_plain || multi_groups)) {
                    continue;
                }
                if (busy[m.pool] >= pool_threads(m.pool)) {
                    w.ctx->label("P05 waiting for a thread");
                    continue;
                }
                bool ok = true;
                for (int g = 0; g < GROUPS && ok; ++g) {
                    if ((m.groups & (1U << g)) == 0) {
                        continue;
                    }
                    int held = act[g];
                    for (auto& y : waiting) {
                        if ((meta(y.rid).groups & (1U << g)) != 0 && busy[meta(y.rid).pool] >= pool_threads(meta(y.rid).pool)) {
                            ++held;
                        }
                    }
                    for (auto& y : perhaps) {
                        held += (meta(y.rid).groups >> g) & 1U;
                    }
                    // reactions whose pending tasks we cannot count may hold slots too
                    for (int q = 0; q < int(w.p.r.size()); ++q) {
                        if ((meta(q).groups & (1U << g)) != 0 && (!unlimited(q) || !countable(q) || throwing_word(q) || meta(q).triggers.empty() || has_hops(q) || !meta(q).deps.empty())) {
                            held = 1000;
                        }
                    }
                    if (held >= group_limit[g] || init_pending) {
                        ok = false;
                    }
                }
                if (!ok) {
                    w.ctx->label("P05 waiting for a group");
                    continue;
                }
                fail(std::string(pre) + kind_suffix,
                     pbt::fmt("while only time can pass, %s waits for #%d although a thread of %s is free (%d of %d busy)", rname(x.rid).c_str(), x.uid, pool_names[m.pool], busy[m.pool], pool_threads(m.pool)), p);
            }
            w.ctx->label("P05 quiet moments with work in progress", seen_threads.empty() ? 0 : 1);
        }
    }
    bool has_hops(int rid) const {
        for (auto& o : w.hops) {
            if (o.rid == rid && o.op != A_BIND) {
                return true;
            }
        }
        return false;
    }
    /// The pool a thread belongs to (-1: none of ours, -2 unknown)
    std::map<int, int> tpool;
    bool tpool_done{false};
    int thread_pool(int t) {
        if (!tpool_done) {
            tpool_done = true;
            for (auto& r : w.runs) {
                if (queued(r)) {
                    tpool[r.thread] = meta(r.rid).pool;
                }
            }
            tpool[0] = POOL_MAIN;
            for (int d : w.driver_threads) {
                tpool[d] = -1;
            }
        }
        auto it = tpool.find(t);
        return it == tpool.end() ? -2 : it->second;
    }
    /// Did the run come out of its pool's queue?
    bool queued(const RunRec& r) const {
        const Meta& m = meta(r.rid);
        if (!top_level(r)) {
            return false;
        }
        if (m.startup) {
            return false;
        }
        if (m.shutdown && r.frame_emission == -2) {
            return false;
        }
        if (m.always_inline) {
            // queued only if its group was busy; or run inside a deferred emission
            return false;
        }
        return true;
    }

    // ------------------------------------------------------------------ P06
    void placement(const char* pre = "P06") {
        const std::string P(pre);
        std::map<int, int> pool_of;
        std::map<int, std::set<int>> threads_of;
        std::map<int, int> always_of;  // thread -> rid
        std::set<int> drivers(w.driver_threads.begin(), w.driver_threads.end());
        for (auto& r : w.runs) {
            if (!queued(r)) {
                continue;
            }
            const Meta& m = meta(r.rid);
            const int key = m.pool == POOL_ALWAYS ? 1000 + r.rid : m.pool;
            if (drivers.count(r.thread) != 0) {
                fail(P + ":driver", pbt::fmt("queued run%d of %s ran on a thread which belongs to no pool", r.id, rname(r.rid).c_str()), r.b);
            }
            auto it = pool_of.emplace(r.thread, key);
            if (it.first->second != key) {
                fail(P + ":pool", pbt::fmt("run%d of %s ran on thread t%d, which also runs tasks of pool %s", r.id, rname(r.rid).c_str(), r.thread, it.first->second < 1000 ? pool_names[it.first->second] : "Always"), r.b);
            }
            threads_of[key].insert(r.thread);
            const int limit = key >= 1000 ? 1 : pool_threads(key);
            if (int(threads_of[key].size()) > limit) {
                fail(P + ":threads", pbt::fmt("pool %s of %d threads uses %zu", pool_names[m.pool], limit, threads_of[key].size()), r.b);
            }
            if ((r.thread == 0) != (m.pool == POOL_MAIN)) {
                fail(P + ":main", pbt::fmt("run%d of %s ran on thread t%d", r.id, rname(r.rid).c_str(), r.thread), r.b);
            }
            w.ctx->label(pbt::fmt("P06 queued runs in %s", pool_names[m.pool]));
        }
        for (auto& t : threads_of) {
            if (t.first < 1000 && int(t.second.size()) == pool_threads(t.first) && t.second.size() > 1) {
                w.ctx->label("P06 all threads of a pool used");
            }
        }
        // Always reactions run again and again until shutdown
        for (int rid = 0; rid < int(w.p.r.size()); ++rid) {
            const Meta& m = meta(rid);
            if (!m.always || w.start_at < 0) {
                continue;
            }
            int last  = -1;
            int count = 0;
            for (auto& r : w.runs) {
                if (r.rid == rid) {
                    ++count;
                    if (r.b < last) {
                        fail(P + ":always-overlap", pbt::fmt("two instances of %s ran at once", rname(rid).c_str()), r.b);
                    }
                    last = r.e < 0 ? n : r.e;
                }
            }
            // At rest every one of them is in the middle of a run (which sleeps)
            for (int rest : w.rests) {
                if (m.groups == 0 && !w.busy_rest && !w.any_force() && rest > w.start_at && rest < shut0 && status(rid, w.start_at, rest) == YES) {
                    bool in = false;
                    for (auto& r : w.runs) {
                        in = in || (r.rid == rid && r.b < rest && (r.e < 0 || r.e > rest));
                    }
                    if (!in) {
                        fail(P + ":always-stopped", pbt::fmt("%s is not running at rest, it ran %d times", rname(rid).c_str(), count), rest);
                    }
                }
            }
            w.ctx->label("P06 always runs", uint64_t(count));
        }
    }

    // ------------------------------------------------------------------ P07
    void order(const char* pre = "P07") {
        const std::string P(pre);
        for (auto& r : w.runs) {
            const Meta& m = meta(r.rid);
            if (r.task_id != 0 && !m.once && r.priority != m.prio()) {
                fail(P + ":priority", pbt::fmt("run%d of %s has priority %d", r.id, rname(r.rid).c_str(), r.priority), r.b);
            }
        }
        // Pools
        struct Q {
            int rid, uid, e, b, thread, prio;
            const RunRec* run;
        };
        std::vector<Q> tasks;
        for (auto& e : w.emissions) {
            if (e.scope == SC_INIT || e.e < 0) {
                continue;
            }
            const bool s = safe(e);
            for (int rid = 0; rid < int(w.p.r.size()); ++rid) {
                if (!listens(rid, e.type) || !countable(rid)) {
                    continue;
                }
                const RunRec* r = find_run(e, rid);
                if (r != nullptr && !queued(*r)) {
                    continue;
                }
                if (r == nullptr && !(s && must_run(e, rid))) {
                    continue;
                }
                if (e.scope == SC_INLINE && !meta(rid).never_inline) {
                    continue;
                }
                if (meta(rid).always_inline || throwing_word(rid)) {
                    continue;
                }
                tasks.push_back(Q{rid, e.uid, e.e, e.b, e.thread, meta(rid).prio(), r});
            }
        }
        for (auto& x : tasks) {
            if (x.run == nullptr) {
                continue;
            }
            const Meta& mx = meta(x.rid);
            const int d0   = std::max(x.run->prev_on_thread >= 0 && pool_event(x.run->prev_on_thread) ? x.run->prev_on_thread : -1, x.b);
            for (auto& y : tasks) {
                if (&x == &y || meta(y.rid).pool != mx.pool || meta(y.rid).groups != 0 || y.e >= d0) {
                    continue;
                }
                if (y.run != nullptr && (y.run->b < x.run->b || y.run->prev_on_thread < x.run->b)) {
                    continue;  // started, or perhaps already taken by another thread
                }
                if (y.prio > x.prio) {
                    fail(P + ":pool-priority", pbt::fmt("%s (#%d) started although %s (#%d) of higher priority was waiting", rname(x.rid).c_str(), x.uid, rname(y.rid).c_str(), y.uid), x.run->b);
                }
                if (y.prio == x.prio && y.thread == x.thread && y.e < x.b && mx.groups == 0) {
                    fail(P + ":pool-fifo", pbt::fmt("%s (#%d) started although %s (#%d) was queued first", rname(x.rid).c_str(), x.uid, rname(y.rid).c_str(), y.uid), x.run->b);
                }
            }
            // how often was there a choice?
            int choice = 0;
            for (auto& y : tasks) {
                if (&x != &y && meta(y.rid).pool == mx.pool && y.run != nullptr && y.e < d0 && y.run->b > x.run->b && y.prio <= x.prio) {
                    ++choice;
                }
            }
            if (choice > 0) {
                w.ctx->label("P07 dequeues with a choice");
                w.choices++;
            }
        }
        // Groups of one
        for (int g = 0; g < 3; ++g) {
            std::vector<const RunRec*> in;
            for (auto& r : w.runs) {
                if ((meta(r.rid).groups & (1U << g)) != 0) {
                    in.push_back(&r);
                }
            }
            for (size_t i = 1; i < in.size(); ++i) {
                const RunRec* h = in[i - 1];
                const RunRec* r = in[i];
                if (h->e < 0 || h->e > r->b) {
                    continue;
                }
                const Q* x = nullptr;
                for (auto& q : tasks) {
                    if (q.run == r) {
                        x = &q;
                    }
                }
                if (x == nullptr) {
                    continue;
                }
                const unsigned gs = meta(x->rid).groups;
                const bool limit1 = (gs & ~7U) == 0;
                if (!limit1) {
                    continue;
                }
                for (auto& y : tasks) {
                    if (&y == x || meta(y.rid).groups != gs || y.e >= h->e) {
                        continue;
                    }
                    if (y.run != nullptr && y.run->b <= r->b) {
                        continue;
                    }
                    if (meta(x->rid).ngroups() > 1 && meta(y.rid).pool != meta(x->rid).pool) {
                        continue;
                    }
                    // both waited while h held the slot
                    if (x->e >= h->e) {
                        // x came later than the release may have begun: only y can have been handed the slot
                    }
                    if (meta(x->rid).ngroups() > 1 && x->e >= h->e) {
                        continue;
                    }
                    if (y.prio > x->prio) {
                        fail(P + ":group-priority", pbt::fmt("%s (#%d) got the group before %s (#%d) of higher priority", rname(x->rid).c_str(), x->uid, rname(y.rid).c_str(), y.uid), r->b);
                    }
                    if (y.prio == x->prio && y.thread == x->thread && y.e < x->b) {
                        fail(P + ":group-fifo", pbt::fmt("%s (#%d) got the group before %s (#%d), which waited longer", rname(x->rid).c_str(), x->uid, rname(y.rid).c_str(), y.uid), r->b);
                    }
                    w.ctx->label("P07 group hand-overs with a choice");
                    w.choices++;
                }
            }
        }
    }
    /// Is this log entry one after which its thread fetches its next task?
    bool pool_event(int i) const {
        return w.log[size_t(i)].t == EV_RUN_E || w.log[size_t(i)].t == EV_START;
    }

    // ------------------------------------------------------------------ P08
    void drops(const char* pre = "P08") {
        const std::string P(pre);
        for (int rid = 0; rid < int(w.p.r.size()); ++rid) {
            const Meta& m = meta(rid);
            if (m.buffer == 0 || !countable(rid) || throwing_word(rid)) {
                continue;
            }
            struct I {
                int b0, b, e, e1, uid;
            };
            std::vector<I> v;
            for (auto& r : w.runs) {
                if (r.rid != rid) {
                    continue;
                }
                const int tu = trigger_uid(r);
                if (tu < 0) {
                    continue;
                }
                const Emission& em = w.emissions[size_t(tu)];
                int sure           = r.b;
                if (em.scope != SC_INIT && em.e >= 0) {
                    sure = std::min(sure, em.e);
                }
                v.push_back(I{em.b, sure, r.e < 0 ? n : r.e, known_end[size_t(r.id)], tu});
            }
            for (auto& a : v) {
                int c = 0;
                for (auto& b : v) {
                    c += b.b <= a.b && b.e >= a.b ? 1 : 0;
                }
                if (c > m.buffer) {
                    fail(P + ":exceeded", pbt::fmt("%d instances of %s pending at once", c, rname(rid).c_str()), a.b);
                }
                if (c == m.buffer) {
                    w.ctx->label("P08 full");
                }
            }
            for (auto& e : w.emissions) {
                if (!listens(rid, e.type) || !safe(e) || e.scope == SC_INIT) {
                    continue;
                }
                if (status(rid, e.b, e.e) != YES || deps(rid, e.type, e.b, e.e) != YES || find_run(e, rid) != nullptr) {
                    continue;
                }
                int c = 0;
                for (auto& b : v) {
                    c += b.b0 <= e.e && b.e1 >= e.b ? 1 : 0;
                }
                // A trigger which finds its data missing has a place until it finds out
                for (auto& f : w.emissions) {
                    c += f.uid != e.uid && listens(rid, f.type) && f.b <= e.e && (f.e < 0 || f.e >= e.b || f.scope == SC_INIT) && find_run(f, rid) == nullptr
                                 && deps(rid, f.type, f.b, f.e < 0 ? n : f.e) != YES
                             ? 1
                             : 0;
                }
                w.ctx->label("P08 drops");
                w.choices++;
                if (c < m.buffer) {
                    fail(P + ":dropped-early", pbt::fmt("%s dropped #%d although at most %d of %d instances were pending", rname(rid).c_str(), e.uid, c, m.buffer), e.b);
                }
            }
        }
    }

    // ------------------------------------------------------------------ P13
    void handles(const char* pre = "P13") {
        const std::string P(pre);
        for (auto& r : w.runs) {
            const int tu = countable(r.rid) ? trigger_uid(r) : -1;
            if (tu < 0) {
                continue;
            }
            const Emission& e = w.emissions[size_t(tu)];
            if (e.scope == SC_INIT || e.e < 0) {
                continue;
            }
            if (status(r.rid, e.b, e.e) == NO) {
                fail(P + ":ran", pbt::fmt("run%d of %s for #%d although it was not bound and enabled", r.id, rname(r.rid).c_str(), tu), r.b);
            }
        }
        for (int rid = 0; rid < int(w.p.r.size()); ++rid) {
            const Meta& m = meta(rid);
            if (m.once) {
                int c = 0;
                for (auto& r : w.runs) {
                    if (r.rid == rid && !r.threw) {
                        ++c;
                        if (c > 1) {
                            fail(P + ":once", pbt::fmt("%s ran to its end twice", rname(rid).c_str()), r.b);
                        }
                    }
                }
                w.ctx->label("P13 once-only runs", uint64_t(c));
            }
            // idle, always and lifecycle reactions have no message: judge by rest points
            if (m.triggers.empty()) {
                for (auto& o : w.hops) {
                    if (o.rid != rid || o.e < 0 || (o.op != A_UNBIND && o.op != A_DISABLE) || o.b <= handle_from(rid)) {
                        continue;
                    }
                    if (m.idle >= 0 && m.idle != 100 && m.idle != m.pool) {
                        continue;  // any number of its runs may be waiting for the pool which it runs in
                    }
                    const int rest = o.e < n ? w.soft_rest_after(o.e) : n + 1;
                    const int from = m.always || m.idle >= 0 ? o.e : rest;
                    int to         = n;
                    if (o.op == A_DISABLE) {
                        for (auto& x : w.hops) {
                            if (x.rid == rid && x.op == A_ENABLE && (x.e < 0 || x.e > o.b)) {
                                to = std::min(to, x.b);
                            }
                        }
                    }
                    // a continuous reaction has its next run made already, an idle one may have a few waiting
                    int allowed = m.always ? 3 : m.idle >= 0 ? 40 : 0;
                    for (auto& r : w.runs) {
                        if (r.rid == rid && r.b > from && r.b < to && --allowed < 0) {
                            fail(P + ":ran", pbt::fmt("run%d of %s although it was %s", r.id, rname(rid).c_str(), o.op == A_UNBIND ? "unbound" : "disabled"), r.b);
                        }
                    }
                    w.ctx->label("P13 stopped sources");
                }
            }
        }
        // whoever is bound and enabled is not affected by what happens to others, and queued runs are kept
        for (auto& e : w.emissions) {
            if (!safe(e)) {
                continue;
            }
            for (int rid = 0; rid < int(w.p.r.size()); ++rid) {
                if (must_run(e, rid) && find_run(e, rid) == nullptr) {
                    fail(P + ":lost", pbt::fmt("%s is bound and enabled but never ran for #%d", rname(rid).c_str(), e.uid), e.b);
                }
            }
        }
    }

    // ------------------------------------------------------------------ P14
    bool threw_before(int at) const {
        for (auto& r : w.runs) {
            if (r.threw && r.e >= 0 && r.e < at) {
                return true;
            }
        }
        return false;
    }

    // ------------------------------------------------------------------ P16
    void scopes(const char* pre = "P16") {
        for (auto& p : w.probes) {
            const unsigned want = p.run < 0 ? 0U : meta(w.runs[size_t(p.run)].rid).scopes;
            if (p.answers != want) {
                fail(std::string(pre) + ":scope", pbt::fmt("in_scope answered %x where %x is right", p.answers, want), p.at);
            }
            w.ctx->label(want != 0 ? "P16 probes inside" : "P16 probes outside");
            if (p.run >= 0 && w.runs[size_t(p.run)].frame_emission >= 0) {
                w.ctx->label("P16 probes in inline runs");
            }
        }
    }
};

}  // namespace core
#endif
