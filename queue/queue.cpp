// P09: the work queues, used directly by generated producers and consumers under controlled schedules.
#include <algorithm>
#include <atomic>
#include <memory>
#include <thread>
#include <vector>

#include "rt/pbt.hpp"
#include "rt/vsched.hpp"
#include "threading/scheduler/queue/MPSCQueue.hpp"
#include "threading/scheduler/queue/TaskQueue.hpp"

namespace {

namespace q = NUClear::threading::scheduler::queue;

int g_live = 0;
pbt::Ctx* g_ctx = nullptr;
std::string g_program;

[[noreturn]] void stuck(const char* kind, const std::string& report) {
    g_ctx->fail(kind, report + "\n" + g_program);
}
[[noreturn]] void fail(const std::string& kind, const std::string& msg) {
    g_ctx->fail("P09:" + kind, msg + "\n" + g_program);
}

/// An element which knows whether it is alive
struct Item {
    static constexpr uint64_t ALIVE = 0x5CA1AB1E0DDBA11ULL;
    static constexpr uint64_t DEAD  = 0xDEADDEADDEADDEADULL;
    uint64_t magic{ALIVE};
    std::unique_ptr<int> value;  // producer << 20 | number, empty when moved from
    Item() {
        ++g_live;
    }
    Item(int v) : value(std::make_unique<int>(v)) {
        ++g_live;
    }
    Item(const Item& o) : value(o.value ? std::make_unique<int>(*o.value) : nullptr) {
        ++g_live;
    }
    Item(Item&& o) noexcept : value(std::move(o.value)) {
        if (o.magic != ALIVE) {
            fail("dead", "an element was moved from after it had been destroyed");
        }
        ++g_live;
    }
    Item& operator=(Item&& o) noexcept {
        if (o.magic != ALIVE || magic != ALIVE) {
            fail("dead", "an element was read after it had been destroyed, or before it was there");
        }
        value = std::move(o.value);
        return *this;
    }
    ~Item() {
        if (magic != ALIVE) {
            fail("dead", "an element was destroyed twice");
        }
        magic = DEAD;
        --g_live;
    }
};

struct Op {
    int kind;  // 0 enqueue (move), 1 enqueue (copy), 2 try_dequeue, 3 pause
    int n;
};
struct Event {
    uint64_t b, e;
    int value;  // -1: nothing there
    int thread;
};

template <typename Queue>
void run(pbt::Ctx& ctx, const std::vector<std::vector<Op>>& threads, bool drain, const vs::Options& opt, bool concurrent_destroy_rest) {
    std::vector<Event> enq, deq;
    std::vector<int> produced(threads.size(), 0);
    (void) concurrent_destroy_rest;
    vs::on_stuck = stuck;
    vs::begin(opt);
    uint64_t clock = 0;  // only one thread runs at a time
    {
        Queue queue;
        std::vector<std::thread> ts;
        auto enqueue = [&](int t, bool copy) {
            const int v      = (t << 20) | produced[size_t(t)]++;
            const uint64_t b = ++clock;
            if (copy) {
                const Item i(v);
                queue.enqueue(i);
            }
            else {
                Item i(v);
                queue.enqueue(std::move(i));
                if (i.value != nullptr) {
                    fail("moved", "enqueue did not take the element it was given");
                }
            }
            enq.push_back(Event{b, ++clock, v, t});
        };
        auto dequeue = [&](int t) {
            Item out(-7);
            const uint64_t b = ++clock;
            const bool got   = queue.try_dequeue(out);
            const uint64_t e = ++clock;
            if (got && (out.value == nullptr || *out.value == -7)) {
                fail("empty-item", "try_dequeue said there was an element but did not provide one");
            }
            if (!got && (out.value == nullptr || *out.value != -7)) {
                fail("phantom", "try_dequeue said there was nothing but changed the output");
            }
            deq.push_back(Event{b, e, got ? *out.value : -1, t});
            return got;
        };
        for (int t = 0; t < int(threads.size()); ++t) {
            ts.emplace_back([&, t] {
                for (auto& op : threads[size_t(t)]) {
                    for (int i = 0; i < op.n; ++i) {
                        switch (op.kind) {
                            case 0: enqueue(t, false); break;
                            case 1: enqueue(t, true); break;
                            case 2: dequeue(t); break;
                            default: vs::yield(); break;
                        }
                    }
                }
            });
        }
        for (auto& t : ts) {
            t.join();
        }
        if (drain) {
            while (dequeue(int(threads.size()))) {
            }
        }
    }
    vs::end();
    // what came out
    std::vector<const Event*> by_value;
    std::map<int, const Event*> in;
    for (auto& e : enq) {
        in[e.value] = &e;
    }
    std::map<int, const Event*> out;
    for (auto& d : deq) {
        if (d.value < 0) {
            continue;
        }
        auto it = in.find(d.value);
        if (it == in.end()) {
            fail("invented", pbt::fmt("%x came out but never went in", unsigned(d.value)));
        }
        if (out.count(d.value) != 0) {
            fail("duplicate", pbt::fmt("element %d of producer %d came out twice", d.value & 0xFFFFF, d.value >> 20));
        }
        if (d.e < it->second->b) {
            fail("invented", "an element came out before it went in");
        }
        out[d.value] = &d;
    }
    if (drain && out.size() != in.size()) {
        for (auto& i : in) {
            if (out.count(i.first) == 0) {
                fail("lost", pbt::fmt("element %d of producer %d went in but never came out (%zu of %zu did)", i.first & 0xFFFFF, i.first >> 20, out.size(), in.size()));
            }
        }
    }
    // each producer's elements are taken in the order they were put in
    for (auto& i : in) {
        auto next = in.find(i.first + 1);
        if (next == in.end()) {
            continue;
        }
        auto a = out.find(i.first);
        auto b = out.find(i.first + 1);
        if (b != out.end() && a == out.end()) {
            fail("order", pbt::fmt("element %d of producer %d was overtaken by the one after it", i.first & 0xFFFFF, i.first >> 20));
        }
        if (b != out.end() && b->second->e < a->second->b) {
            fail("order", pbt::fmt("element %d of producer %d came out before the one before it", (i.first & 0xFFFFF) + 1, i.first >> 20));
        }
    }
    // an element that was completely in before another was started cannot come out after it by the same consumer... only
    // per producer order is promised, so nothing is checked across producers.
    // "empty" is only said when it may have been: some moment of the call at which all that was in had been taken
    uint64_t empties = 0;
    for (auto& d : deq) {
        if (d.value >= 0) {
            continue;
        }
        ++empties;
        for (auto& i : in) {
            if (i.second->e < d.b) {
                auto o = out.find(i.first);
                if (o == out.end() || o->second->b > d.e) {
                    fail("hidden", pbt::fmt("thread %d was told that the queue is empty although element %d of producer %d was in it", d.thread, i.first & 0xFFFFF, i.first >> 20));
                }
            }
        }
    }
    if (g_live != 0) {
        fail("leak", pbt::fmt("%d elements are still alive after the queue was destroyed", g_live));
    }
    bool overlap = false;
    for (auto& a : enq) {
        for (auto& d : deq) {
            overlap = overlap || (a.thread != d.thread && a.b < d.e && d.b < a.e);
        }
    }
    ctx.label("elements", in.size());
    ctx.label("elements left to the destructor", in.size() - out.size());
    ctx.label("empty answers", empties);
    ctx.label("blocks filled", in.size() / 64);
    if (overlap) {
        ctx.label("cases with overlapping operations");
    }
    ctx.nontrivial(overlap && in.size() > 64);
}

void p09(pbt::Ctx& ctx) {
    g_ctx       = &ctx;
    auto& s     = ctx.src;
    const int z = s.sized();
    const bool multi = s.draw(3) != 0;
    const int producers = s.range(1, z > 20 ? 4 : 2);
    const int consumers = multi ? s.range(1, z > 20 ? 4 : 2) : 1;
    const bool drain = s.draw(4) != 0;
    // before the case proper the block can be filled almost up, so that its end is crossed while the threads run
    const int prefill = s.weighted({3, 5, 1}) == 1 ? 56 + s.range(0, 9) : s.range(0, 200);
    std::vector<std::vector<Op>> threads;
    for (int p = 0; p < producers; ++p) {
        std::vector<Op> ops;
        if (p == 0 && prefill > 0) {
            ops.push_back(Op{0, prefill});
        }
        for (int i = 0; s.more(i, 1, 8, 3); ++i) {
            const int k = s.weighted({6, 1, multi ? 1 : 0, 2});
            ops.push_back(Op{k, k == 3 ? s.range(1, 3) : s.weighted({4, 2, 1}) == 0 ? s.range(1, 5) : s.range(1, z > 50 ? 70 : 20)});
        }
        threads.push_back(ops);
    }
    for (int c = 0; c < consumers; ++c) {
        std::vector<Op> ops;
        for (int i = 0; s.more(i, 1, 12, 5); ++i) {
            const int k = s.weighted({0, 0, 6, 2});
            ops.push_back(Op{k, k == 3 ? s.range(1, 3) : s.weighted({3, 2, 2}) == 0 ? s.range(1, 5) : s.range(1, 80)});
        }
        threads.push_back(ops);
    }
    g_program = pbt::fmt("%s, %s\n", multi ? "TaskQueue (many consumers)" : "MPSCQueue", drain ? "drained at the end" : "destroyed with what is left");
    for (size_t t = 0; t < threads.size(); ++t) {
        g_program += pbt::fmt(" thread %zu:", t);
        for (auto& o : threads[t]) {
            static const char* const names[] = {"enqueue", "enqueue copy", "dequeue", "pause"};
            g_program += pbt::fmt(" %s x%d;", names[o.kind], o.n);
        }
        g_program += "\n";
    }
    vs::Options o;
    o.seed     = pbt::mix(ctx.sched_seed + s.draw(4));
    o.spurious = false;
    ctx.sample = g_program;
    ctx.hash(pbt::mix(std::hash<std::string>()(g_program)));
    if (multi) {
        run<q::TaskQueue<Item>>(ctx, threads, drain, o, false);
    }
    else {
        run<q::MPSCQueue<Item>>(ctx, threads, drain, o, false);
    }
    ctx.label(multi ? "TaskQueue" : "MPSCQueue");
}

}  // namespace

int main(int argc, char** argv) {
    pbt::Runner r;
    pbt::Prop p{};
    p.id           = "P09";
    p.fn           = p09;
    p.rule         = "generated producer and consumer programs; counts when operations of different threads overlapped and more than one block of elements was used";
    p.batch        = false;
    p.hang_counts  = true;
    p.quick_s      = 25;
    p.thorough_s   = 300;
    p.quick_max    = 1000000;
    p.thorough_max = 100000000;
    r.props.push_back(p);
    return r.main(argc, argv);
}
