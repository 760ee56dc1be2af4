// pbt: a small property based testing engine.
//
// A property is a function of a stream of bounded choices (Src) and a schedule seed.  Cases are run in
// forked children (fresh process state), on all cores.  A failing case is shrunk by deleting, zeroing and
// lowering choices, is replayed three times and is then written out as the replay file.
#ifndef PBT_HPP
#define PBT_HPP
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <execinfo.h>
#include <sys/personality.h>
#include <thread>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <typeinfo>
#include <unordered_set>
#include <vector>

namespace pbt {

inline uint64_t mix(uint64_t z) {
    z += 0x9E3779B97F4A7C15ULL;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
    char buf[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

/// The stream of choices a case is made of.  0 is always the simplest choice.
class Src {
public:
    explicit Src(uint64_t seed) : state(seed) {}
    explicit Src(const std::vector<uint32_t>& c) : replay(true), in(c) {}
    /// A value in [0, n)
    uint32_t draw(uint32_t n) {
        uint32_t v = 0;
        if (n > 1) {
            if (replay) {
                v = pos < in.size() ? in[pos] : 0;
                v = v < n ? v : v % n;
            }
            else {
                state += 0x9E3779B97F4A7C15ULL;
                v = uint32_t((mix(state) >> 8) % n);
            }
            ++pos;
            out.push_back(v);
        }
        return v;
    }
    uint64_t draw64() {
        uint64_t r = 0;
        for (int i = 0; i < 4; ++i) {
            r = (r << 16) | draw(65536);
        }
        return r;
    }
    int range(int lo, int hi) {  // inclusive
        return lo + int(draw(uint32_t(hi - lo + 1)));
    }
    bool chance(int num, int den) {
        return int(draw(uint32_t(den))) >= den - num;
    }
    /// Should a list with i elements so far get another one?
    bool more(int i, int min, int max, int avg) {
        if (i < min) {
            return true;
        }
        if (i >= max) {
            return false;
        }
        return draw(uint32_t(avg + 1)) != 0;
    }
    template <typename T>
    const T& pick(const std::vector<T>& v) {
        return v[draw(uint32_t(v.size()))];
    }
    /// An index chosen with the given weights
    int weighted(const std::vector<int>& w) {
        int total = 0;
        for (int x : w) {
            total += x;
        }
        int v = int(draw(uint32_t(total)));
        for (size_t i = 0; i < w.size(); ++i) {
            if (v < w[i]) {
                return int(i);
            }
            v -= w[i];
        }
        return 0;
    }
    std::vector<uint32_t> out;
    /// How big the case should be, from 0 to 100; part of the choices so that a replay sees the same
    int sized() {
        if (replay) {
            size = pos < in.size() ? int(in[pos] % 101) : 0;
        }
        ++pos;
        out.push_back(uint32_t(size));
        return size;
    }
    int size{30};

private:
    bool replay{false};
    uint64_t state{0};
    std::vector<uint32_t> in;
    size_t pos{0};
};

enum Status : int { ST_NONE = 0, ST_OK = 1, ST_FAIL = 2, ST_DISCARD = 3 };

struct Label {
    char name[56];
    uint64_t count;
};
struct Block {  // shared between a worker and its children
    volatile int status;
    uint64_t index;
    char kind[160];
    char msg[6000];
    uint32_t nchoices;
    uint32_t choices[1 << 18];
    uint64_t evaluated, nontrivial, discarded, other;
    uint64_t nhash;
    uint64_t hashes[1 << 20];
    Label labels[256];
    int nsamples;
    char samples[6][1600];
    uint64_t sample_score;
    char wall_kind[64];
};

struct Prop;
struct Ctx {
    Src& src;
    uint64_t sched_seed;
    const Prop& prop;
    bool verbose{false};
    Block* blk{nullptr};
    bool is_nontrivial{false};
    uint64_t sig{0};
    std::string sample;
    std::string extra;  ///< appended to a failure message

    void label(const std::string& s, uint64_t n = 1) {
        for (auto& l : blk->labels) {
            if (l.name[0] == 0) {
                snprintf(l.name, sizeof l.name, "%s", s.c_str());
            }
            if (strncmp(l.name, s.c_str(), sizeof l.name - 1) == 0) {
                l.count += n;
                return;
            }
        }
    }
    void nontrivial(bool b = true) {
        is_nontrivial = is_nontrivial || b;
    }
    void hash(uint64_t h) {
        sig = mix(sig ^ h);
    }
    [[noreturn]] void fail(const std::string& kind, const std::string& msg);
    [[noreturn]] void discard(const char* why) {
        label(std::string("discard:") + why);
        blk->status = ST_DISCARD;
        _exit(0);
    }
};

struct Prop {
    const char* id;
    void (*fn)(Ctx&);
    const char* rule;
    bool batch;          ///< many cases per process
    bool hang_counts;    ///< deadlock / endless / wall clock hang breaks this property
    double quick_s, thorough_s;
    uint64_t quick_max, thorough_max;
    const char* profile{""};
};

inline Ctx*& current() {
    static Ctx* c = nullptr;
    return c;
}

/// Report a failure of the property under test.  A kind "Pxx:..." for another property is counted but is not
/// a failure of this check.
[[noreturn]] inline void Ctx::fail(const std::string& kind, const std::string& msg) {
    blk->nchoices = uint32_t(std::min<size_t>(src.out.size(), 1 << 18));
    memcpy(blk->choices, src.out.data(), blk->nchoices * 4);
    snprintf(blk->kind, sizeof blk->kind, "%s", kind.c_str());
    snprintf(blk->msg, sizeof blk->msg, "%s%s%s", msg.c_str(), extra.empty() ? "" : "\n", extra.c_str());
    blk->status = ST_FAIL;
    _exit(3);
}

struct Outcome {
    int status{ST_NONE};
    std::string kind, msg;
    std::vector<uint32_t> choices;
};

struct Known {
    std::string property, kind, what;
};

class Runner {
public:
    std::vector<Prop> props;
    const Prop* prop{nullptr};
    std::string tier{"quick"};
    uint64_t seed{1};
    double time_limit{0};
    uint64_t max_cases{0};
    std::string evidence_path, replay_dir{"replays"}, known_path, corpus_path;
    std::vector<Known> known;
    int nworkers{8};
    int only_case{-1};
    bool verbose{false};
    double wall_per_case{60};

    static double now() {
        timespec ts{};
        syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
        return double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9;
    }

    static void set_limits(double wall) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        rlimit rl{0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        itimerval it{};
        it.it_value.tv_sec = long(wall);
        setitimer(ITIMER_REAL, &it, nullptr);
    }

    static void on_terminate() {
        std::string what = "std::terminate";
        if (auto e = std::current_exception()) {
            try {
                std::rethrow_exception(e);
            }
            catch (const std::exception& x) {
                what = std::string("std::terminate after ") + typeid(x).name() + ": " + x.what();
            }
            catch (...) {
                what = "std::terminate after unknown exception";
            }
        }
        if (current() != nullptr) {
            current()->fail("terminate", what);
        }
        FILE* f = getenv("PBT_LOG") != nullptr ? fopen(getenv("PBT_LOG"), "a") : nullptr;
        if (f != nullptr) {
            fprintf(f, "%s\n", what.c_str());
            fclose(f);
        }
        abort();
    }

    /// Every case runs in a thread of its own: its heap is then a new arena whose layout only depends on the case.
    void run_case(Block* blk, Src& src, uint64_t sched_seed, bool verb) {
        std::thread([&] { do_case(blk, src, sched_seed, verb); }).join();
    }

    void do_case(Block* blk, Src& src, uint64_t sched_seed, bool verb) {
        Ctx ctx{src, sched_seed, *prop};
        ctx.verbose = verb;
        ctx.blk     = blk;
        current()   = &ctx;
        blk->status = ST_NONE;
        prop->fn(ctx);
        ++blk->evaluated;
        if (ctx.is_nontrivial) {
            ++blk->nontrivial;
            uint64_t h = ctx.sig;
            for (auto v : src.out) {
                h = mix(h ^ v);
            }
            if (blk->nhash < (1 << 20)) {
                blk->hashes[blk->nhash++] = h;
            }
            if (!ctx.sample.empty() && (blk->nsamples < 6 && (blk->nontrivial & (blk->nontrivial - 1)) == 0)) {
                snprintf(blk->samples[blk->nsamples++], 1600, "%s", ctx.sample.c_str());
            }
        }
        blk->status = ST_OK;
        current()   = nullptr;
    }

    void quiet_child() const {
        if (getenv("PBT_LOG") != nullptr) {
            int fd = open(getenv("PBT_LOG"), O_WRONLY | O_CREAT | O_APPEND, 0600);
            dup2(fd, 2);
            signal(SIGABRT, [](int) {
                void* a[40];
                backtrace_symbols_fd(a, backtrace(a, 40), 2);
                _exit(77);
            });
            return;
        }
        if (!verbose) {
            int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 1);
            dup2(fd, 2);
            close(fd);
        }
    }

    Outcome collect(Block* blk, int wst) {
        Outcome o;
        if (WIFEXITED(wst) && WEXITSTATUS(wst) == 0 && (blk->status == ST_OK || blk->status == ST_DISCARD)) {
            o.status = blk->status;
            return o;
        }
        if (blk->status == ST_FAIL) {
            o.kind = blk->kind;
            o.msg  = blk->msg;
            o.choices.assign(blk->choices, blk->choices + blk->nchoices);
        }
        else if (WIFSIGNALED(wst) && WTERMSIG(wst) == SIGALRM) {
            o.kind = "hang";
            o.msg  = "the case did not finish within the wall clock limit";
        }
        else if (WIFSIGNALED(wst)) {
            o.kind = "crash";
            o.msg  = fmt("killed by signal %d (%s)", WTERMSIG(wst), strsignal(WTERMSIG(wst)));
        }
        else {
            o.kind = "crash";
            o.msg  = fmt("exited with status %d", WEXITSTATUS(wst));
        }
        o.status = ST_FAIL;
        return o;
    }

    /// Run one case in a child of its own
    Outcome run_one(Block* blk, const std::vector<uint32_t>& choices, uint64_t sched_seed, bool verb = false) {
        fflush(stdout);
        blk->status = ST_NONE;
        pid_t p     = fork();
        if (p == 0) {
            set_limits(wall_per_case);
            if (!verb) {
                quiet_child();
            }
            std::set_terminate(on_terminate);
            Src s(choices);
            run_case(blk, s, sched_seed, verb);
            fflush(stdout);
            _exit(0);
        }
        int wst = 0;
        while (waitpid(p, &wst, 0) < 0 && errno == EINTR) {
        }
        Outcome o = collect(blk, wst);
        if (o.status == ST_FAIL && o.choices.empty()) {
            o.choices = choices;
        }
        return o;
    }

    bool relevant(const Outcome& o) const {
        if (o.status != ST_FAIL) {
            return false;
        }
        if (o.kind.size() > 3 && o.kind[0] == 'P' && o.kind[3] == ':') {
            return o.kind.compare(0, 3, prop->id) == 0;
        }
        if (o.kind == "deadlock" || o.kind == "endless" || o.kind == "hang") {
            return prop->hang_counts;
        }
        return true;
    }
    bool is_known(const Outcome& o) const {
        for (const auto& k : known) {
            if (k.property == prop->id && k.kind == o.kind) {
                return true;
            }
        }
        return false;
    }

    std::vector<uint32_t> case_choices(Block*, uint64_t) {
        return {};
    }
    uint64_t case_seed(uint64_t i) const {
        uint64_t h = seed;
        for (const char* c = prop->id; *c != 0; ++c) {
            h = mix(h ^ uint64_t(*c));
        }
        return mix(h ^ mix(i));
    }
    Src make_src(uint64_t i) const {
        Src s(case_seed(i));
        static const int sizes[] = {4, 8, 15, 30, 30, 60, 100, 20};
        s.size                   = sizes[i % 8];
        return s;
    }
    static uint64_t sched_seed_for(uint64_t cs) {
        return mix(cs ^ 0x5eed);
    }

    static void write_outcome(int fd, uint64_t index, const Outcome& o) {
        // one record: index, kind, msg, choices
        std::string s;
        auto put = [&](const void* p, size_t n) { s.append(static_cast<const char*>(p), n); };
        auto str = [&](const std::string& v) {
            uint32_t n = uint32_t(v.size());
            put(&n, 4);
            s += v;
        };
        put(&index, 8);
        str(o.kind);
        str(o.msg);
        uint32_t n = uint32_t(o.choices.size());
        put(&n, 4);
        put(o.choices.data(), n * 4);
        size_t off = 0;
        while (off < s.size()) {
            ssize_t w = write(fd, s.data() + off, s.size() - off);
            if (w <= 0) {
                break;
            }
            off += size_t(w);
        }
    }
    static bool read_all(int fd, void* p, size_t n) {
        size_t off = 0;
        while (off < n) {
            ssize_t r = read(fd, static_cast<char*>(p) + off, n - off);
            if (r <= 0) {
                return false;
            }
            off += size_t(r);
        }
        return true;
    }

    struct Shared {
        volatile int stop;
        volatile uint64_t total;
        uint64_t known_hits, other_hits, unconfirmed;
        Label others[64];
    };

    void count_other(Shared* sh, const std::string& kind) {
        for (auto& l : sh->others) {
            if (l.name[0] == 0) {
                snprintf(l.name, sizeof l.name, "%s", kind.c_str());
            }
            if (strncmp(l.name, kind.c_str(), sizeof l.name - 1) == 0) {
                __atomic_add_fetch(&l.count, 1, __ATOMIC_RELAXED);
                return;
            }
        }
    }

    /// Generate and run one case in a child of its own
    Outcome run_index(Block* blk, uint64_t idx) {
        blk->status = ST_NONE;
        pid_t p     = fork();
        if (p == 0) {
            set_limits(wall_per_case);
            quiet_child();
            std::set_terminate(on_terminate);
            blk->index = idx;
            Src s      = make_src(idx);
            run_case(blk, s, sched_seed_for(case_seed(idx)), false);
            _exit(0);
        }
        int wst = 0;
        while (waitpid(p, &wst, 0) < 0 && errno == EINTR) {
        }
        return collect(blk, wst);
    }

    void worker(int w, Block* blk, Shared* sh, double t_end, int out_fd) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        cpu_set_t set;
        CPU_ZERO(&set);
        cpu_set_t allowed;
        sched_getaffinity(0, sizeof allowed, &allowed);
        int k = 0;
        for (int c = 0; c < CPU_SETSIZE; ++c) {
            if (CPU_ISSET(c, &allowed) && k++ % nworkers == w) {
                CPU_SET(c, &set);
                break;
            }
        }
        if (CPU_COUNT(&set) > 0) {
            sched_setaffinity(0, sizeof set, &set);
        }
        uint64_t i           = uint64_t(w);
        const uint64_t min_cases = 64;
        while (sh->stop == 0) {
            const bool over = now() > t_end;
            if ((over && (i / uint64_t(nworkers) * uint64_t(nworkers) >= min_cases || now() > t_end + 120)) || i >= max_cases) {
                break;
            }
            const uint64_t idx = i;
            Outcome o          = run_index(blk, idx);
            if (o.status == ST_DISCARD) {
                ++blk->discarded;
            }
            i += uint64_t(nworkers);
            if (o.status == ST_FAIL) {
                ++blk->evaluated;
                if (!relevant(o)) {
                    ++blk->other;
                    count_other(sh, o.kind);
                }
                else if (is_known(o)) {
                    __atomic_add_fetch(&sh->known_hits, 1, __ATOMIC_RELAXED);
                    count_other(sh, "known " + o.kind);
                }
                else {
                    // A failure which does not happen again is the machine's, and must not end the search
                    Outcome again = run_index(blk, idx);
                    if (relevant(again) && !is_known(again)) {
                        write_outcome(out_fd, idx, again);
                        break;
                    }
                    __atomic_add_fetch(&sh->unconfirmed, 1, __ATOMIC_RELAXED);
                    count_other(sh, "unconfirmed " + o.kind);
                }
            }
        }
        _exit(0);
    }

    static std::string esc(const std::string& s) {
        std::string r;
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') {
                r += '\\';
                r += char(c);
            }
            else if (c == '\n') {
                r += "\\n";
            }
            else if (c < 32 || c > 126) {
                r += fmt("\\u%04x", c);
            }
            else {
                r += char(c);
            }
        }
        return r;
    }

    struct Failing {
        std::vector<uint32_t> choices;
        uint64_t sched{0};
        Outcome o;
    };

    /// choices of a generated case whose child died without saying what they were
    std::vector<uint32_t> regenerate(Block* blk, uint64_t index) {
        // Run in the child with a hook: the child writes its choices as it goes
        (void) blk;
        (void) index;
        return {};
    }

    bool still_fails(Block* blk, Failing& f, const std::vector<uint32_t>& cand, int seeds, double t_end) {
        for (int s = 0; s < seeds; ++s) {
            const uint64_t sc = s == 0 ? f.sched : mix(f.sched + uint64_t(s) * 7919);
            Outcome o         = run_one(blk, cand, sc);
            if (relevant(o) && o.kind == f.o.kind) {
                f.choices = o.choices.size() <= cand.size() ? o.choices : cand;
                if (f.choices.size() > cand.size()) {
                    f.choices = cand;
                }
                f.sched = sc;
                f.o     = o;
                return true;
            }
            if (now() > t_end) {
                return false;
            }
        }
        return false;
    }

    int shrink(Block* blk, Failing& f, double budget, int seeds) {
        const double t_end = now() + budget;
        int tries          = 0;
        bool progress      = true;
        while (progress && now() < t_end) {
            progress = false;
            // delete spans
            for (size_t len : {64, 32, 16, 8, 6, 5, 4, 3, 2, 1}) {
                for (size_t at = f.choices.size(); at-- > 0 && now() < t_end;) {
                    if (at + len > f.choices.size()) {
                        continue;
                    }
                    std::vector<uint32_t> c = f.choices;
                    c.erase(c.begin() + long(at), c.begin() + long(at + len));
                    ++tries;
                    if (still_fails(blk, f, c, seeds, t_end)) {
                        progress = true;
                        at       = std::min(at, f.choices.size());
                    }
                }
            }
            // zero / lower values
            for (size_t at = 0; at < f.choices.size() && now() < t_end; ++at) {
                if (f.choices[at] == 0) {
                    continue;
                }
                for (uint32_t v : {0U, f.choices[at] / 2, f.choices[at] - 1}) {
                    if (at >= f.choices.size() || v >= f.choices[at]) {
                        continue;
                    }
                    std::vector<uint32_t> c = f.choices;
                    c[at]                   = v;
                    ++tries;
                    if (still_fails(blk, f, c, seeds, t_end)) {
                        progress = true;
                        break;
                    }
                }
            }
        }
        return tries;
    }

    static bool load_replay(const std::string& path, Failing& f) {
        FILE* fp = fopen(path.c_str(), "r");
        if (fp == nullptr) {
            return false;
        }
        std::vector<char> line(4 << 20);
        bool ok = false;
        while (fgets(line.data(), int(line.size()), fp) != nullptr) {
            std::string s(line.data());
            if (s.compare(0, 11, "sched_seed=") == 0) {
                f.sched = strtoull(s.c_str() + 11, nullptr, 10);
            }
            else if (s.compare(0, 5, "kind=") == 0) {
                f.o.kind = s.substr(5, s.find('\n') - 5);
            }
            else if (s.compare(0, 8, "choices=") == 0) {
                ok            = true;
                const char* p = s.c_str() + 8;
                while (*p >= '0' && *p <= '9') {
                    char* e = nullptr;
                    f.choices.push_back(uint32_t(strtoul(p, &e, 10)));
                    p = *e == ',' ? e + 1 : e;
                }
            }
        }
        fclose(fp);
        return ok;
    }
    std::string save_replay(const Failing& f) const {
        uint64_t h = f.sched;
        for (auto v : f.choices) {
            h = mix(h ^ v);
        }
        std::string path = fmt("%s/%s-%016llx.replay", replay_dir.c_str(), prop->id, (unsigned long long) h);
        FILE* fp         = fopen(path.c_str(), "w");
        if (fp == nullptr) {
            return path;
        }
        fprintf(fp, "property=%s\nkind=%s\nsched_seed=%llu\nchoices=", prop->id, f.o.kind.c_str(), (unsigned long long) f.sched);
        for (size_t i = 0; i < f.choices.size(); ++i) {
            fprintf(fp, "%s%u", i == 0 ? "" : ",", f.choices[i]);
        }
        fprintf(fp, "\n# %s\n", esc(f.o.msg).c_str());
        fclose(fp);
        return path;
    }

    void load_known() {
        FILE* fp = known_path.empty() ? nullptr : fopen(known_path.c_str(), "r");
        if (fp == nullptr) {
            return;
        }
        char line[4096];
        while (fgets(line, sizeof line, fp) != nullptr) {
            // finding: property=P07 kind=P07:xyz what fails...
            std::string s(line);
            while (!s.empty() && (s.back() == '\n' || s.back() == ' ')) {
                s.pop_back();
            }
            if (s.compare(0, 18, "finding: property=") != 0) {
                continue;
            }
            Known k;
            size_t a   = 18;
            size_t b   = s.find(' ', a);
            k.property = s.substr(a, b - a);
            a          = s.find("kind=", b) + 5;
            b          = s.find(' ', a);
            k.kind     = s.substr(a, b - a);
            k.what     = b == std::string::npos ? "" : s.substr(b + 1);
            known.push_back(k);
        }
        fclose(fp);
    }

    int main(int argc, char** argv) {
        // No address randomisation, so that a case always runs in exactly the same way
        int pers = personality(0xffffffff);
        if ((pers & ADDR_NO_RANDOMIZE) == 0 && getenv("PBT_NOASLR") == nullptr) {
            setenv("PBT_NOASLR", "1", 1);
            personality(static_cast<unsigned long>(pers) | ADDR_NO_RANDOMIZE);
            execv("/proc/self/exe", argv);
        }
        std::string pid, replay;
        bool dump = false;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto next     = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
            if (a == "--prop") pid = next();
            else if (a == "--tier") tier = next();
            else if (a == "--seed") seed = strtoull(next(), nullptr, 10);
            else if (a == "--time") time_limit = atof(next());
            else if (a == "--max") max_cases = strtoull(next(), nullptr, 10);
            else if (a == "--evidence") evidence_path = next();
            else if (a == "--known") known_path = next();
            else if (a == "--corpus") corpus_path = next();
            else if (a == "--replay-dir") replay_dir = next();
            else if (a == "--replay") replay = next();
            else if (a == "--workers") nworkers = atoi(next());
            else if (a == "--case") only_case = atoi(next());
            else if (a == "--dump") dump = true;
            else if (a == "-v") verbose = true;
        }
        for (const auto& p : props) {
            if (pid == p.id) {
                prop = &p;
            }
        }
        if (prop == nullptr) {
            fprintf(stderr, "unknown property %s\n", pid.c_str());
            return 2;
        }
        const bool quick = tier != "thorough";
        if (time_limit == 0) {
            time_limit = quick ? prop->quick_s : prop->thorough_s;
        }
        if (max_cases == 0) {
            max_cases = quick ? prop->quick_max : prop->thorough_max;
        }
        load_known();

        auto* blocks = static_cast<Block*>(mmap(nullptr, sizeof(Block) * size_t(nworkers + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        auto* sh     = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        Block* mine  = &blocks[nworkers];

        if (only_case >= 0) {
            pid_t p = fork();
            if (p == 0) {
                set_limits(wall_per_case);
                std::set_terminate(on_terminate);
                Src s = make_src(uint64_t(only_case));
                run_case(mine, s, sched_seed_for(case_seed(uint64_t(only_case))), true);
                fflush(stdout);
                _exit(0);
            }
            int wst = 0;
            waitpid(p, &wst, 0);
            Outcome o = collect(mine, wst);
            if (o.status == ST_FAIL) {
                Failing f;
                f.sched   = sched_seed_for(case_seed(uint64_t(only_case)));
                f.o       = o;
                f.choices = o.choices;
                printf("saved %s\n", save_replay(f).c_str());
            }
            printf("case %d: %s %s\n%s\n", only_case, o.status == ST_FAIL ? "FAIL" : "ok", o.kind.c_str(), o.msg.c_str());
            return 0;
        }

        if (!replay.empty()) {
            Failing f;
            if (!load_replay(replay, f)) {
                fprintf(stderr, "cannot read %s\n", replay.c_str());
                return 2;
            }
            Outcome o = run_one(mine, f.choices, f.sched, true);
            printf("%s\n%s\n", o.status == ST_FAIL ? o.kind.c_str() : "held", o.msg.c_str());
            if (relevant(o) && !is_known(o)) {
                printf("VIOLATION property=%s replay=%s\n", prop->id, replay.c_str());
                return 1;
            }
            return 0;
        }

        const double t0 = now();
        int pipefd[2];
        if (pipe(pipefd) != 0) {
            return 2;
        }
        std::vector<pid_t> pids;
        fflush(stdout);
        for (int w = 0; w < nworkers; ++w) {
            pid_t p = fork();
            if (p == 0) {
                close(pipefd[0]);
                worker(w, &blocks[w], sh, t0 + time_limit, pipefd[1]);
            }
            pids.push_back(p);
        }
        close(pipefd[1]);
        std::vector<std::pair<uint64_t, Outcome>> found;
        for (;;) {
            uint64_t idx = 0;
            if (!read_all(pipefd[0], &idx, 8)) {
                break;
            }
            Outcome o;
            o.status   = ST_FAIL;
            auto rdstr = [&](std::string& s) {
                uint32_t n = 0;
                read_all(pipefd[0], &n, 4);
                s.resize(n);
                read_all(pipefd[0], &s[0], n);
            };
            rdstr(o.kind);
            rdstr(o.msg);
            uint32_t n = 0;
            read_all(pipefd[0], &n, 4);
            o.choices.resize(n);
            read_all(pipefd[0], o.choices.data(), size_t(n) * 4);
            found.emplace_back(idx, o);
            sh->stop = 1;
        }
        for (pid_t p : pids) {
            waitpid(p, nullptr, 0);
        }
        const double t_search = now() - t0;

        // Confirm and shrink
        std::sort(found.begin(), found.end(), [](const std::pair<uint64_t, Outcome>& a, const std::pair<uint64_t, Outcome>& b) { return a.first < b.first; });
        Failing best;
        bool violated = false;
        std::vector<std::string> unconfirmed;
        for (auto& fo : found) {
            Failing f;
            f.sched = sched_seed_for(case_seed(fo.first));
            f.o     = fo.second;
            if (fo.second.choices.empty()) {
                // The process died: learn the choices by generating again with recording
                f.choices = record(mine, fo.first);
            }
            else {
                f.choices = fo.second.choices;
            }
            int again = 0;
            for (int i = 0; i < 3; ++i) {
                Outcome o = run_one(mine, f.choices, f.sched);
                if (relevant(o) && !is_known(o)) {
                    ++again;
                    if (o.kind != f.o.kind) {
                        f.o = o;
                    }
                }
            }
            if (again == 3) {
                const Failing orig = f;
                shrink(mine, f, quick ? 15 : 60, prop->batch ? 1 : 6);
                // confirm the shrunk one
                int ok = 0;
                for (int i = 0; i < 3; ++i) {
                    Outcome o = run_one(mine, f.choices, f.sched);
                    ok += (relevant(o) && !is_known(o)) ? 1 : 0;
                }
                best     = ok == 3 ? f : orig;
                violated = true;
                break;
            }
            unconfirmed.push_back(fmt("case %llu ", (unsigned long long) fo.first) + fo.second.kind + ": " + fo.second.msg);
        }

        // Evidence
        uint64_t evals = 0;
        uint64_t nontriv = 0;
        uint64_t other = 0;
        uint64_t disc = 0;
        std::unordered_set<uint64_t> distinct;
        std::map<std::string, uint64_t> labels;
        std::vector<std::string> samples;
        for (int w = 0; w < nworkers; ++w) {
            Block& b = blocks[w];
            evals += b.evaluated;
            nontriv += b.nontrivial;
            other += b.other;
            disc += b.discarded;
            distinct.insert(b.hashes, b.hashes + b.nhash);
            for (auto& l : b.labels) {
                if (l.name[0] != 0) {
                    labels[l.name] += l.count;
                }
            }
            if (b.nsamples > 0 && samples.size() < 5) {
                samples.emplace_back(b.samples[b.nsamples - 1]);
            }
        }
        if (!evidence_path.empty()) {
            FILE* fp = fopen(evidence_path.c_str(), "w");
            if (fp != nullptr) {
                fprintf(fp, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n", prop->id, tier.c_str(), (unsigned long long) seed);
                fprintf(fp, " \"coverage\": {\n  \"evaluations\": %llu,\n  \"nontrivial\": %llu,\n  \"distinct_nontrivial\": %zu,\n  \"discarded\": %llu,\n  \"rule\": \"%s\",\n", (unsigned long long) evals, (unsigned long long) nontriv, distinct.size(), (unsigned long long) disc, esc(prop->rule).c_str());
                fprintf(fp, "  \"labels\": {");
                bool first = true;
                for (auto& l : labels) {
                    fprintf(fp, "%s\n   \"%s\": %llu", first ? "" : ",", esc(l.first).c_str(), (unsigned long long) l.second);
                    first = false;
                }
                fprintf(fp, "\n  },\n  \"cases_ended_by_another_property\": {");
                first = true;
                for (auto& l : sh->others) {
                    if (l.name[0] != 0) {
                        fprintf(fp, "%s\"%s\": %llu", first ? "" : ", ", esc(l.name).c_str(), (unsigned long long) l.count);
                        first = false;
                    }
                }
                fprintf(fp, "},\n  \"unconfirmed\": [");
                for (size_t i = 0; i < unconfirmed.size(); ++i) {
                    fprintf(fp, "%s\"%s\"", i == 0 ? "" : ", ", esc(unconfirmed[i]).c_str());
                }
                fprintf(fp, "],\n  \"samples\": [");
                for (size_t i = 0; i < samples.size(); ++i) {
                    fprintf(fp, "%s\n   \"%s\"", i == 0 ? "" : ",", esc(samples[i]).c_str());
                }
                fprintf(fp, "\n  ]\n },\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", now() - t0, violated ? 1 : 0);
                fclose(fp);
            }
        }
        printf("%s %s seed=%llu: %llu cases, %llu nontrivial (%zu distinct), %llu discarded, %llu ended by another property's failure, %.1f s search\n", prop->id, tier.c_str(), (unsigned long long) seed,
               (unsigned long long) evals, (unsigned long long) nontriv, distinct.size(), (unsigned long long) disc, (unsigned long long) other, t_search);
        if (dump) {
            for (auto& l : labels) {
                printf("  %-50s %llu\n", l.first.c_str(), (unsigned long long) l.second);
            }
            for (auto& l : sh->others) {
                if (l.name[0] != 0) {
                    printf("  OTHER %-50s %llu\n", l.name, (unsigned long long) l.count);
                }
            }
            for (auto& s : samples) {
                printf("  SAMPLE %s\n", s.c_str());
            }
        }
        for (auto& u : unconfirmed) {
            printf("UNCONFIRMED (did not fail again on replay): %s\n", u.c_str());
        }
        for (const auto& k : known) {
            if (k.property == prop->id) {
                printf("KNOWN-FINDING: property=%s %s\n", prop->id, k.what.c_str());
            }
        }
        if (violated) {
            std::string path = save_replay(best);
            printf("%s\n%s\n%zu choices\n", best.o.kind.c_str(), best.o.msg.c_str(), best.choices.size());
            printf("VIOLATION property=%s replay=%s\n", prop->id, path.c_str());
            return 1;
        }
        return 0;
    }

    /// Learn the choices of a generated case whose child died: run it in a child which streams its choices
    std::vector<uint32_t> record(Block* blk, uint64_t index);
};

/// choices are mirrored here when recording
inline std::vector<uint32_t> Runner::record(Block* blk, uint64_t index) {
    // The choice stream is a pure function of the seed and of the bounds asked for; the bounds are only known
    // to the running case.  A watcher thread is not possible under the scheduler, so use a crash handler.
    static Block* s_blk;
    s_blk       = blk;
    blk->status = ST_NONE;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        set_limits(wall_per_case);
        quiet_child();
        std::set_terminate(on_terminate);
        auto h = [](int) {
            if (current() != nullptr) {
                auto& out        = current()->src.out;
                s_blk->nchoices  = uint32_t(std::min<size_t>(out.size(), 1 << 18));
                memcpy(s_blk->choices, out.data(), s_blk->nchoices * 4);
                s_blk->status = ST_FAIL;
            }
            _exit(5);
        };
        static char alt[65536];
        stack_t ss{};
        ss.ss_sp   = alt;
        ss.ss_size = sizeof alt;
        sigaltstack(&ss, nullptr);
        for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) {
            struct sigaction sa {};
            sa.sa_handler = h;
            sa.sa_flags   = SA_ONSTACK;
            sigaction(s, &sa, nullptr);
        }
        Src s = make_src(index);
        run_case(blk, s, sched_seed_for(case_seed(index)), false);
        _exit(0);
    }
    int wst = 0;
    waitpid(p, &wst, 0);
    return std::vector<uint32_t>(blk->choices, blk->choices + blk->nchoices);
}

}  // namespace pbt
#endif
