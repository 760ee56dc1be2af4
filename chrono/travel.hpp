// P19: the clock on its own, and time travel with pending timers.
namespace {

/// The clock used by one thread, with exact virtual time
void clock_sequential(pbt::Ctx& ctx) {
    auto& s = ctx.src;
    vs::Options o;
    o.seed    = 1;
    o.tick_ns = 0;  // only sleeping takes time
    vs::on_stuck = stuck;
    vs::begin(o);
    rebase_clock();
    long double epoch = clk();
    long double base  = now();
    long double rtf   = 1.0L;
    long double tol   = 1.0L;  // rounding
    std::string text;
    uint64_t ops = 0, reads = 0;
    bool changed = false;
    auto expect = [&] { return epoch + (now() - base) * rtf; };
    auto check  = [&](const char* when) {
        const ns_t c        = clk();
        const long double x = expect();
        const long double t = tol + (now() - base) * rtf * 0x1p-52L;
        if (c < x - t || c > x + t) {
            fail("clock-value", fmt("%s the clock should read %.0Lf but reads %lld (off by %.0Lf)\n", when, x, (long long) c, c - x) + text);
        }
        reads += changed ? 1 : 0;
    };
    for (int i = 0; s.more(i, 2, 40, 14); ++i) {
        static const double rtfs[] = {1.0, 2.0, 0.5, 0.0, 4.0, 0.25, 1.5, 10.0};
        static const ns_t scale[]  = {1, 1000, MS, SEC, 60 * SEC, 900 * SEC};
        ns_t n = ns_t(s.draw(1000)) * scale[s.draw(6)] + ns_t(s.draw(10));
        double f = rtfs[s.draw(8)];
        if (s.draw(4) == 3) {
            f = double(s.draw(3000)) / 997.0;
        }
        switch (s.weighted({4, 3, 3, 2, 1, 1})) {
            case 0:
                text += "sleep " + fmt("%lld", (long long) n) + "; ";
                vs::sleep_ns(uint64_t(n));
                check("after sleeping");
                break;
            case 1: {
                n = s.draw(3) == 2 ? -n : n;
                text += fmt("adjust by %lld rtf %g; ", (long long) n, f);
                const long double e = expect() + n;
                tol += 1 + (now() - base) * rtf * 0x1p-52L;
                NUClear::clock::adjust_clock(NUClear::clock::duration(n), f);
                epoch   = e;
                base    = now();
                rtf     = f;
                changed = true;
                check("after adjusting");
                break;
            }
            case 2: {
                const ns_t to = clk() + (s.draw(3) == 2 ? -n : n);
                text += fmt("set to %lld rtf %g; ", (long long) to, f);
                NUClear::clock::set_clock(NUClear::clock::time_point(NUClear::clock::duration(to)), f);
                epoch   = to;
                base    = now();
                rtf     = f;
                tol     = 1;
                changed = true;
                check("after setting");
                break;
            }
            case 3: {
                // only the rate
                text += fmt("rate %g; ", f);
                const long double e = expect();
                tol += 1 + (now() - base) * rtf * 0x1p-52L;
                NUClear::clock::adjust_clock(NUClear::clock::duration(0), f);
                epoch   = e;
                base    = now();
                rtf     = f;
                changed = true;
                check("after changing only the rate");
                break;
            }
            case 4:
                if (NUClear::clock::rtf() != double(rtf)) {
                    fail("clock-rate", fmt("the rate reads %g but was set to %g\n", NUClear::clock::rtf(), double(rtf)) + text);
                }
                break;
            default:
                // the defaults go back to the natural rate
                text += "adjust by 0 (default rate); ";
                epoch = expect();
                tol += 1 + (now() - base) * rtf * 0x1p-52L;
                NUClear::clock::adjust_clock(NUClear::clock::duration(0));
                base = now();
                rtf  = 1.0L;
                check("after adjusting with the default rate");
                break;
        }
        ++ops;
    }
    vs::end();
    ctx.sample = "clock: " + text;
    ctx.label("clock operations", ops);
    ctx.nontrivial(reads >= 2);
}

/// Adjustments from several threads all count
void clock_concurrent(pbt::Ctx& ctx) {
    auto& s = ctx.src;
    struct Step {
        ns_t adjust, sleep;
    };
    std::vector<std::vector<Step>> plan;
    const int n = s.range(2, 4);
    ns_t total  = 0;
    int ops     = 0;
    for (int t = 0; t < n; ++t) {
        std::vector<Step> v;
        for (int i = 0; s.more(i, 1, 6, 3); ++i) {
            Step st{ns_t(s.draw(2000)) * MS - 1000 * MS, s.draw(2) == 0 ? 0 : ns_t(s.draw(1000))};
            total += st.adjust;
            ++ops;
            v.push_back(st);
        }
        plan.push_back(v);
    }
    vs::Options o;
    o.seed       = pbt::mix(ctx.sched_seed + s.draw(4));
    vs::on_stuck = stuck;
    vs::begin(o);
    rebase_clock();
    const ns_t off = clk() - now();
    std::vector<std::thread> threads;
    bool bad = false;
    std::vector<ns_t> adj;
    for (auto& v : plan) {
        threads.emplace_back([&v] {
            for (auto& st : v) {
                NUClear::clock::adjust_clock(NUClear::clock::duration(st.adjust));
                vs::sleep_ns(uint64_t(st.sleep));
            }
        });
    }
    std::thread reader([&] {
        // everything read is at least the start plus all the negative adjustments
        ns_t lo = 0, hi = 0;
        for (auto& v : plan) {
            for (auto& st : v) {
                (st.adjust < 0 ? lo : hi) += st.adjust;
            }
        }
        for (int i = 0; i < 20; ++i) {
            const ns_t b = now();
            const ns_t c = clk() - off;
            const ns_t e = now();
            bad          = bad || c < b + lo - 1000 || c > e + hi + 1000;
        }
    });
    for (auto& t : threads) {
        t.join();
    }
    reader.join();
    const ns_t b = now();
    const ns_t c = clk() - off - total;
    const ns_t e = now();
    vs::end();
    ctx.sample = fmt("clock: %d adjustments from %d threads", ops, n);
    if (c < b - 100 || c > e + 100) {
        fail("clock-composition", fmt("after %d concurrent adjustments the clock is off by %lld ns", ops, (long long) (c - b)));
    }
    if (bad) {
        fail("clock-torn", "a concurrent reader saw a time which no set of adjustments explains");
    }
    ctx.label("concurrent adjustments", uint64_t(ops));
    ctx.nontrivial(ops >= 4);
}

/// The clock over a run: segments between travels
struct Segment {
    ns_t r;      ///< real time from which it holds
    ns_t r_end;  ///< and until when
    ns_t c;      ///< the clock at r
    double rtf;
    ns_t at(ns_t real) const {
        return c + ns_t((long double) (real - r) * rtf);
    }
    /// When in this segment does the clock reach x? NEVER if not
    ns_t reach(ns_t x, ns_t from) const {
        const ns_t start = std::max(r, from);
        if (at(start) >= x) {
            return start;
        }
        if (rtf <= 0) {
            return NEVER;
        }
        const long double d = (long double) (x - c) / rtf;
        if (d > 1e18L) {
            return NEVER;
        }
        const ns_t t = r + ns_t(d) + 1;
        return t <= r_end ? t : NEVER;
    }
};

void check_travel(World& w, pbt::Ctx& ctx) {
    const Busy busy = busy_times(w);
    std::vector<Segment> seg;
    seg.push_back(Segment{0, NEVER, w.clk0, 1.0});
    for (auto& t : w.travels) {
        seg.back().r_end = t.t.b;
        seg.push_back(Segment{t.t.e, NEVER, t.clk_e, t.rtf});
    }
    auto became_due = [&](ns_t due, ns_t registered) {
        for (auto& s : seg) {
            if (s.r_end < registered) {
                continue;
            }
            const ns_t r = s.reach(due, registered);
            if (r < NEVER) {
                return r;
            }
        }
        return NEVER;
    };
    struct Pending {
        std::string what;
        ns_t lo{0}, hi{0};  ///< when it is due, in clock time
        ns_t reg_b{0}, reg{NEVER};      ///< since when it can be triggered
        ns_t period{0};
        ns_t unbound_b{NEVER}, unbound_e{NEVER};
        bool unknown{false};
        bool done{false};
        NUClear::id_t id{0};
        int uid{-1};
    };
    std::vector<Pending> pend;
    auto overlaps_travel = [&](const Interval& i) {
        for (auto& t : w.travels) {
            if (i.b <= t.t.e && t.t.b <= i.e) {
                return true;
            }
        }
        return false;
    };
    for (size_t i = 0; i < w.timers.size(); ++i) {
        auto& s = w.st[i];
        if (!s.bound) {
            continue;
        }
        Pending p;
        p.what      = fmt("t%zu", i);
        p.period    = w.timers[i].period;
        p.lo        = s.clk_b + p.period;
        p.hi        = s.clk_e + p.period;
        p.reg_b     = s.bind.b;
        p.reg       = s.bind.e;
        p.unbound_b = s.unbind.b;
        p.unbound_e = s.unbind.e;
        p.unknown   = overlaps_travel(s.bind);
        p.id        = s.id;
        pend.push_back(p);
    }
    for (auto& d : w.delays) {
        if (d.emit.b >= NEVER) {
            continue;
        }
        Pending p;
        p.what    = fmt("delayed #%d", d.uid);
        p.lo      = d.absolute ? d.at : d.clk_b + d.delay;
        p.hi      = d.absolute ? d.at : d.clk_e + d.delay;
        p.reg_b   = d.emit.b;
        p.reg     = d.emit.e;
        p.unknown = overlaps_travel(d.emit) || d.emit.e >= NEVER;
        p.uid     = d.uid;
        pend.push_back(p);
    }
    size_t next_travel  = 0;
    uint64_t compared   = 0;
    uint64_t after      = 0;
    auto apply_travels = [&](ns_t until) {
        while (next_travel < w.travels.size() && w.travels[next_travel].t.e <= until) {
            const auto& t  = w.travels[next_travel++];
            const ns_t dt  = t.t.e - t.t.b;
            const ns_t old = t.clk_b + ns_t((long double) dt * t.old_rtf) + 2;
            const ns_t run = ns_t((long double) dt * t.rtf) + 2;
            if (dt > busy.until(t.t.b) - t.t.b) {
                fail("travel-blocked", "travelling at " + show(t.t.b) + " took " + show(dt));
            }
            if (t.action != 2) {
                if (t.clk_e < t.target || t.clk_e > t.target + run) {
                    fail("travel-target", fmt("after travelling at ") + show(t.t.b) + fmt(" the clock is %lld ns from the target", (long long) (t.clk_e - t.target)));
                }
                ++compared;
            }
            if (t.action == 1) {
                for (auto& p : pend) {
                    if (p.reg_b < t.t.b && !p.done) {
                        p.lo += t.target - old;
                        p.hi += t.target - t.clk_b;
                    }
                }
            }
            if (t.action == 2) {
                ns_t lo    = t.target;
                ns_t hi    = t.target;
                bool known = true;
                for (auto& k : w.triggers) {
                    known = known && !(k.t >= t.t.b && k.t <= t.t.e);
                }
                for (auto& p : pend) {
                    if (p.reg_b <= t.t.e && !p.done) {
                        const bool here = p.reg < t.t.b && p.unbound_b > t.t.e;
                        const bool gone = p.unbound_e < t.t.b;
                        if (gone) {
                            continue;
                        }
                        known = known && !p.unknown && here;
                        lo    = std::min(lo, p.lo);
                        hi    = std::min(hi, p.hi);
                    }
                }
                if (known) {
                    ++compared;
                    ctx.label("nearest travels compared");
                    if (t.clk_e < lo || t.clk_e > hi + run) {
                        fail("nearest", "travelling to the nearest of the target and the next timer at " + show(t.t.b) + fmt(" should set the clock to %lld ns from where it was, but moved it by %lld ns", (long long) (hi - t.clk_b), (long long) (t.clk_e - t.clk_b)));
                    }
                }
            }
        }
    };
    auto late_check = [&](Pending& p, ns_t seen, const char* how) {
        if (p.unknown || p.done) {
            return;
        }
        // the dues of the past do not count: the clock may have been there before this was due
        const ns_t r = became_due(p.hi, std::max(p.reg, next_travel > 0 ? w.travels[next_travel - 1].t.b : 0));
        if (r >= NEVER) {
            return;
        }
        const ns_t by = busy.until(r);
        if (seen > by && by < p.unbound_b && by < w.end) {
            // a travel soon after it became due may have taken it back
            for (auto& t : w.travels) {
                if (t.t.e >= r && t.t.b <= by) {
                    return;
                }
            }
            fail("late", p.what + " was due at " + show(r) + " but " + how + " " + show(seen));
        }
    };
    for (auto& k : w.triggers) {
        apply_travels(k.t);
        const bool in_travel = next_travel < w.travels.size() && w.travels[next_travel].t.b <= k.t;
        // anything which became due before and has not been triggered is late
        for (auto& p : pend) {
            const bool mine = p.uid >= 0 ? k.uid == p.uid : k.reaction == p.id;
            if (p.reg < k.t) {
                late_check(p, k.t, mine ? "was triggered at" : "had not been triggered at");
            }
            if (!mine) {
                continue;
            }
            if (p.done) {
                fail("delay-twice", p.what + " was performed twice");
            }
            if (k.t > p.unbound_e) {
                fail("after-unbind", p.what + " was triggered after it had been unbound");
            }
            if (!p.unknown && !in_travel && k.clk < p.lo) {
                fail("early", p.what + " was triggered at " + show(k.t) + " when the clock said " + show(k.clk - w.clk0) + " but was due at " + show(p.lo - w.clk0) + " of the clock");
            }
            after += next_travel > 0 ? 1 : 0;
            ++compared;
            if (p.period > 0) {
                p.lo += p.period;
                p.hi += p.period;
                p.reg = std::max(p.reg, k.t);
            }
            else {
                p.done = true;
            }
        }
    }
    apply_travels(w.end);
    for (auto& p : pend) {
        late_check(p, w.end, "had not been triggered at");
    }
    ctx.label("travels", w.travels.size());
    ctx.label("triggers after a travel", after);
    ctx.nontrivial(w.travels.size() >= 2 && after >= 2);
}

void p19(pbt::Ctx& ctx) {
    PROP = "P19";
    const int z = ctx.src.sized();
    switch (ctx.src.weighted({5, 2, 1})) {
        case 1: clock_sequential(ctx); return;
        case 2: clock_concurrent(ctx); return;
        default: break;
    }
    World w;
    w.ctx = &ctx;
    Gen g{ctx.src, w, z};
    g.travel = true;
    g.generate();
    // only one thread travels
    for (size_t d = 1; d < w.drivers.size(); ++d) {
        for (auto& a : w.drivers[d]) {
            if (a.t == A_TRAVEL) {
                a = Action{A_SLEEP, 0, w.unit, 0, 1.0};
            }
        }
    }
    for (auto& sc : w.drivers) {
        for (auto& a : sc) {
            if (a.t == A_DISABLE || a.t == A_ENABLE) {
                a = Action{A_SLEEP, 0, w.unit, 0, 1.0};
            }
        }
    }
    auto strip = [&](Script& sc) {
        for (auto& a : sc) {
            if (a.t == A_DISABLE || a.t == A_ENABLE) {
                a = Action{A_WORK, 0, 1, 0, 1.0};
            }
        }
    };
    for (auto& t : w.timers) {
        strip(t.script);
    }
    strip(w.listener_script[0]);
    strip(w.listener_script[1]);
    execute(ctx, w);
    check_travel(w, ctx);
    check_shutdown(w);
    finish(ctx, w);
}

}  // namespace
