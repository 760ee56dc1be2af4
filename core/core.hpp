// The vocabulary of generated PowerPlant programs: message types, pools, groups, reaction kinds and the log.
#ifndef CORE_HPP
#define CORE_HPP
#include <nuclear>

#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "../rt/pbt.hpp"
#include "../rt/vsched.hpp"

namespace core {

namespace w   = NUClear::dsl::word;
using Handle  = NUClear::threading::ReactionHandle;
using Task    = NUClear::threading::ReactionTask;

constexpr int TYPES = 6;

/// Counts the messages alive
struct Counted {
    Counted();
    ~Counted();
    Counted(const Counted&)            = delete;
    Counted& operator=(const Counted&) = delete;
    static int& live();
};
inline int& Counted::live() {
    static int n = 0;
    return n;
}
inline Counted::Counted() {
    ++live();
}
inline Counted::~Counted() {
    --live();
}

/// The messages of generated programs
template <int I>
struct M {
    Counted counted;
    int uid{-1};
    int fuel{0};
    uint64_t sum{0};
    std::vector<uint8_t> body;
    static uint64_t check(int uid, int fuel) {
        return pbt::mix(uint64_t(uid) * 31 + uint64_t(fuel) + uint64_t(I) * 977);
    }
    bool intact() const {
        if (sum != check(uid, fuel) || body.size() != size_t(uid % 7)) {
            return false;
        }
        for (auto b : body) {
            if (b != uint8_t(uid)) {
                return false;
            }
        }
        return true;
    }
};

// Pools
struct PA { static constexpr int concurrency = 1; };
struct PB { static constexpr int concurrency = 2; };
struct PC { static constexpr int concurrency = 2; static constexpr bool counts_for_idle = false; };
struct PD { static constexpr int concurrency = 1; static constexpr bool persistent = true; };
struct PE { static constexpr int concurrency = 2; static constexpr bool persistent = true; };
enum PoolId { POOL_DEFAULT, POOL_A, POOL_B, POOL_C, POOL_D, POOL_E, POOL_MAIN, POOL_ALWAYS, POOL_COUNT };
extern const char* const pool_names[];

// Groups
struct S0 {};
struct S1 {};
struct S2 {};
struct G2 { static constexpr int concurrency = 2; };
struct G3 { static constexpr int concurrency = 3; };
constexpr int GROUPS = 5;
constexpr int group_limit[GROUPS] = {1, 1, 1, 2, 3};

// Scopes
struct C0 {};
struct C1 {};
struct C2 {};
constexpr int SCOPES = 3;

struct Dep {
    int type;
    bool optional;
    int last;  ///< > 0: a Last<n>
};

/// What the words of a kind mean, derived from the words themselves
struct Meta {
    const char* name{""};
    const char* words{""};
    std::vector<int> triggers;
    std::vector<Dep> deps;
    int pool{POOL_DEFAULT};
    unsigned groups{0};
    std::vector<int> prios;
    int buffer{0};
    bool always_inline{false}, never_inline{false};
    bool once{false};
    bool startup{false}, shutdown{false};
    bool always{false};
    int idle{-1};  ///< -1 none, 100 global, else a PoolId
    unsigned scopes{0};
    int last_trigger{0};
    bool plain_arg{false};
    bool precond{false};
    bool bind_only{false};
    int prio() const {
        if (prios.empty()) {
            return shutdown ? 0 : 500;
        }
        int p = prios[0];
        for (int x : prios) {
            p = x > p ? x : p;
        }
        if (shutdown && p < 0) {
            p = 0;
        }
        return p;
    }
    int ngroups() const {
        return __builtin_popcount(groups);
    }
};

/// What a run saw of one message
struct Item {
    int type{-1};
    const void* ptr{nullptr};
    int uid{-1};
    int fuel{0};
    bool intact{true};
};
struct Seen {
    std::vector<Item> items;             ///< single values (triggers and withs)
    std::vector<std::vector<Item>> lists;  ///< last-N lists
    template <int I>
    Seen& add(const std::shared_ptr<const M<I>>& m) {
        items.push_back(item<I>(m.get()));
        return *this;
    }
    template <int I>
    static Item item(const M<I>* m) {
        Item i;
        i.type = I;
        i.ptr  = m;
        if (m != nullptr) {
            i.uid    = m->uid;
            i.fuel   = m->fuel;
            i.intact = m->intact();
        }
        return i;
    }
    template <int I>
    Seen& list(const std::list<std::shared_ptr<const M<I>>>& l) {
        lists.emplace_back();
        for (auto& m : l) {
            lists.back().push_back(item<I>(m.get()));
        }
        return *this;
    }
};

class CoreReactor;
/// Run the generated body of reaction rid
void body(int rid, const Seen& seen);

struct Kind {
    Meta meta;
    Handle (*bind)(CoreReactor&, int rid, const std::string& label);
};
std::vector<Kind>& kinds();

class CoreReactor : public NUClear::Reactor {
public:
    explicit CoreReactor(std::unique_ptr<NUClear::Environment> e);
};

struct Custom {  // an exception type of our own
    int v;
};

// A user written word which delays by yielding in its precondition / pre_run / post_run
struct YieldWord {
    template <typename DSL>
    static bool precondition(const Task& /*task*/) {
        vs::point();
        return true;
    }
};
/// throws from pre_run when the program says so
bool word_should_throw(int where, const Task& t);
struct ThrowWord {
    template <typename DSL>
    static void pre_run(Task& t) {
        if (word_should_throw(0, t)) {
            throw std::runtime_error("pre_run");
        }
    }
    template <typename DSL>
    static void post_run(Task& t) {
        if (word_should_throw(1, t)) {
            throw std::runtime_error("post_run");
        }
    }
};

// ---------------------------------------------------------------------------------------------
// Meta from words
// ---------------------------------------------------------------------------------------------
template <typename W>
struct Info {
    static void add(Meta&) {}
};
template <int I>
struct Info<w::Trigger<M<I>>> {
    static void add(Meta& m) {
        m.triggers.push_back(I);
    }
};
template <size_t N, int I>
struct Info<w::Last<N, w::Trigger<M<I>>>> {
    static void add(Meta& m) {
        m.triggers.push_back(I);
        m.last_trigger = int(N);
    }
};
template <int I>
struct Info<w::With<M<I>>> {
    static void add(Meta& m) {
        m.deps.push_back({I, false, 0});
    }
};
template <int I>
struct Info<w::Optional<w::With<M<I>>>> {
    static void add(Meta& m) {
        m.deps.push_back({I, true, 0});
    }
};
template <size_t N, int I>
struct Info<w::Last<N, w::With<M<I>>>> {
    static void add(Meta& m) {
        m.deps.push_back({I, false, int(N)});
    }
};
#define POOL_INFO(P, ID)                  \
    template <>                           \
    struct Info<w::Pool<P>> {             \
        static void add(Meta& m) {        \
            m.pool = ID;                  \
        }                                 \
    }
POOL_INFO(PA, POOL_A);
POOL_INFO(PB, POOL_B);
POOL_INFO(PC, POOL_C);
POOL_INFO(PD, POOL_D);
POOL_INFO(PE, POOL_E);
template <>
struct Info<w::MainThread> {
    static void add(Meta& m) {
        m.pool = POOL_MAIN;
    }
};
#define GROUP_INFO(W, ID)                 \
    template <>                           \
    struct Info<W> {                      \
        static void add(Meta& m) {        \
            m.groups |= 1U << (ID);       \
        }                                 \
    }
GROUP_INFO(w::Sync<S0>, 0);
GROUP_INFO(w::Sync<S1>, 1);
GROUP_INFO(w::Sync<S2>, 2);
GROUP_INFO(w::Group<G2>, 3);
GROUP_INFO(w::Group<G3>, 4);
#define SCOPE_INFO(C, ID)                 \
    template <>                           \
    struct Info<w::TaskScope<C>> {        \
        static void add(Meta& m) {        \
            m.scopes |= 1U << (ID);       \
        }                                 \
    }
SCOPE_INFO(C0, 0);
SCOPE_INFO(C1, 1);
SCOPE_INFO(C2, 2);
#define PRIO_INFO(P, V)                   \
    template <>                           \
    struct Info<w::Priority::P> {         \
        static void add(Meta& m) {        \
            m.prios.push_back(V);         \
        }                                 \
    }
PRIO_INFO(REALTIME, 1000);
PRIO_INFO(HIGH, 750);
PRIO_INFO(NORMAL, 500);
PRIO_INFO(LOW, 250);
PRIO_INFO(IDLE, 0);
template <int N>
struct Info<w::Buffer<N>> {
    static void add(Meta& m) {
        m.buffer = m.buffer == 0 || N < m.buffer ? N : m.buffer;
    }
};
#define SIMPLE_INFO(W, STMT)              \
    template <>                           \
    struct Info<W> {                      \
        static void add(Meta& m) {        \
            STMT;                         \
        }                                 \
    }
SIMPLE_INFO(w::Single, m.buffer = 1);
SIMPLE_INFO(w::Once, (m.once = true, m.buffer = 1));
SIMPLE_INFO(w::Inline::ALWAYS, m.always_inline = true);
SIMPLE_INFO(w::Inline::NEVER, m.never_inline = true);
SIMPLE_INFO(w::Startup, m.startup = true);
SIMPLE_INFO(w::Shutdown, m.shutdown = true);
SIMPLE_INFO(w::Always, (m.always = true, m.pool = POOL_ALWAYS, m.never_inline = true));
SIMPLE_INFO(w::Idle<void>, m.idle = 100);
SIMPLE_INFO(w::Idle<w::Pool<>>, m.idle = POOL_DEFAULT);
SIMPLE_INFO(w::Idle<w::Pool<PA>>, m.idle = POOL_A);
SIMPLE_INFO(w::Idle<w::Pool<PB>>, m.idle = POOL_B);
SIMPLE_INFO(w::Idle<w::MainThread>, m.idle = POOL_MAIN);

template <typename... W>
Meta meta_of() {
    Meta m;
    int unused[] = {0, (Info<W>::add(m), 0)...};
    (void) unused;
    return m;
}

inline bool add_kind(const char* name, const char* words, bool plain, Meta m, Handle (*bind)(CoreReactor&, int, const std::string&)) {
    m.name      = name;
    m.words     = words;
    m.plain_arg = plain;
    kinds().push_back(Kind{m, bind});
    return true;
}

#define PTR(I) const std::shared_ptr<const M<I>>&
#define LST(I) const std::list<std::shared_ptr<const M<I>>>&
#define REG(NAME, PLAIN, ...)                                                                    \
    static const bool reg_##NAME = add_kind(#NAME, #__VA_ARGS__, PLAIN, meta_of<__VA_ARGS__>(), bind_##NAME)
/// A reaction without arguments
#define K0(NAME, ...)                                                                            \
    static Handle bind_##NAME(CoreReactor& r, int rid, const std::string& l) {                    \
        return r.on<__VA_ARGS__>().then(l, [rid]() { body(rid, Seen()); });                       \
    }                                                                                            \
    REG(NAME, false, __VA_ARGS__)
/// A reaction which takes its trigger as a shared pointer
#define K1(NAME, I, ...)                                                                         \
    static Handle bind_##NAME(CoreReactor& r, int rid, const std::string& l) {                    \
        return r.on<__VA_ARGS__>().then(l, [rid](PTR(I) m) { body(rid, Seen().add<I>(m)); });      \
    }                                                                                            \
    REG(NAME, false, __VA_ARGS__)
/// ... as a reference
#define KR(NAME, I, ...)                                                                         \
    static Handle bind_##NAME(CoreReactor& r, int rid, const std::string& l) {                    \
        return r.on<__VA_ARGS__>().then(l, [rid](const M<I>& m) {                                 \
            Seen s;                                                                              \
            s.items.push_back(Seen::item<I>(&m));                                                \
            body(rid, s);                                                             \
        });                                                                                      \
    }                                                                                            \
    REG(NAME, true, __VA_ARGS__)
#define K2(NAME, I, J, ...)                                                                      \
    static Handle bind_##NAME(CoreReactor& r, int rid, const std::string& l) {                    \
        return r.on<__VA_ARGS__>().then(l, [rid](PTR(I) m, PTR(J) n) { body(rid, Seen().add<I>(m).add<J>(n)); }); \
    }                                                                                            \
    REG(NAME, false, __VA_ARGS__)
#define K3(NAME, I, J, L, ...)                                                                   \
    static Handle bind_##NAME(CoreReactor& r, int rid, const std::string& l) {                    \
        return r.on<__VA_ARGS__>().then(l, [rid](PTR(I) m, PTR(J) n, PTR(L) o) { body(rid, Seen().add<I>(m).add<J>(n).add<L>(o)); }); \
    }                                                                                            \
    REG(NAME, false, __VA_ARGS__)
/// Last<N, Trigger<I>>
#define KL(NAME, I, ...)                                                                         \
    static Handle bind_##NAME(CoreReactor& r, int rid, const std::string& l) {                    \
        return r.on<__VA_ARGS__>().then(l, [rid](LST(I) m) { body(rid, Seen().list<I>(m)); });     \
    }                                                                                            \
    REG(NAME, false, __VA_ARGS__)
#define KPL(NAME, I, J, ...)                                                                     \
    static Handle bind_##NAME(CoreReactor& r, int rid, const std::string& l) {                    \
        return r.on<__VA_ARGS__>().then(l, [rid](PTR(I) m, LST(J) n) { body(rid, Seen().add<I>(m).list<J>(n)); }); \
    }                                                                                            \
    REG(NAME, false, __VA_ARGS__)

}  // namespace core
#endif
