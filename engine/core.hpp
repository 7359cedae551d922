// Core of the check engine: recorded choices, case context, calls into the simulated PEs' library images.
#pragma once
#include "sim.hpp"
#include <cstdarg>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <string>
#include <vector>

constexpr int MAXPE = 10;
constexpr size_t MAXREC = 60000, MAXMSG = 6000, MAXDESC = 24000;
constexpr int NCNT = 48;

struct Slot { // shared memory, one per worker
    volatile int status; // 0 running, 1 ok, 2 violation, 3 discarded
    volatile int nontrivial;
    volatile uint64_t hash, steps, events;
    volatile uint32_t nrec;
    uint64_t cnt[NCNT];
    char msg[MAXMSG];
    char desc[MAXDESC];
    uint32_t desclen;
    uint32_t rec[MAXREC];
};
extern Slot *slot;
extern std::vector<std::string> cnt_names; // names of the counters of the running property
extern std::string g_cfg;                  // build configuration name
extern int g_tier;                         // 0 quick, 1 thorough

struct Choices {
    uint64_t s = 1;
    const std::vector<uint32_t> *replay = nullptr;
    uint64_t next() {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t draw(uint32_t n); // uniform in [0,n); 0 is the simplest
};
extern Choices ch;

inline uint32_t draw(uint32_t n) { return ch.draw(n); }
inline int range(int lo, int hi) { return lo + (int)draw((uint32_t)(hi - lo + 1)); }
inline bool chance(int pct) { return (int)draw(100) >= 100 - pct; } // shrinks to false
uint64_t draw64();
int pickw(std::initializer_list<int> w); // weighted; index 0 is the simplest
template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + draw((uint32_t)l.size())); }
template <class T> const T &pickv(const std::vector<T> &v) { return v[draw((uint32_t)v.size())]; }

void desc(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void discard();
void nontrivial();
void count(int i, uint64_t n = 1);

// ---- calls into the PE images
void *pe_sym(int pe, const char *name, bool must = true);
struct ApiReturn {
    ~ApiReturn() { sim_api_mark(); }
};
// When threads of a PE take turns (SimParams::hop), any of them may make the call.
extern bool g_hop;
void hop(const std::function<void()> &f);
void hop_end();
bool hop_init(); // shmem_init_thread in place of shmem_init
template <class R = void, class... A> R callp(void *f, A... a) {
    ApiReturn r;
    if (g_hop) {
        if constexpr (std::is_void<R>::value) {
            hop([&] { ((R(*)(A...))f)(a...); });
            return;
        } else {
            R v{};
            hop([&] { v = ((R(*)(A...))f)(a...); });
            return v;
        }
    }
    return ((R(*)(A...))f)(a...);
}
template <class R = void, class... A> R call(const char *name, A... a) {
    if (g_hop && !strcmp(name, "shmem_init") && hop_init()) return R();
    if (g_hop && !strcmp(name, "shmem_finalize")) hop_end(); // by the thread that initialised
    return callp<R>(pe_sym(sim_me(), name), a...);
}

// ---- running
struct RunOpts {
    bool expect_abort = false;
    int expect_code = -1;
};
SimParams draw_sim(int npes, int hop_pct = 5); // hop_pct: probability of threads that take turns; draws scheduling / transport parameters
std::vector<std::vector<int>> draw_nodes(SimParams &); // draws which PE runs on which node; the PEs of each node
std::string sim_str(const SimParams &);
SimResult run_case(const SimParams &, const std::function<void(int)> &body); // fails the case on anything but SIM_OK
SimResult run_raw(const SimParams &, const std::function<void(int)> &body);
void compute(int n); // local computation: n scheduling points that count as progress
void setenv_case(const char *k, const char *v);
// A large block allocated before the blocks of the case, so that those lie far from the start of the symmetric heap.
struct FarBlock {
    size_t pad = 0;
    void *blk[MAXPE] = {};
    void draw(int pct, size_t used, size_t around); // used: symmetric heap size the case needs otherwise; around: size of the first blocks
    void heap_size(size_t used);                    // sets SHMEM_SYMMETRIC_SIZE
    void take(int me);                              // collective
    void give(int me);                              // collective
};
std::string captured_output(); // stdout+stderr of the case so far

// ---- registry
struct Prop {
    const char *id;
    void (*fn)();
    const char *rule;
    std::vector<std::string> counters;
};
std::vector<Prop> &props();
struct RegProp {
    RegProp(const char *id, void (*fn)(), const char *rule, std::vector<std::string> cn = {}) { props().push_back({id, fn, rule, cn}); }
};

// ---- types of the API
enum TK { K_FLOAT, K_DOUBLE, K_LONGDOUBLE, K_CHAR, K_SCHAR, K_SHORT, K_INT, K_LONG, K_LONGLONG, K_UCHAR, K_USHORT, K_UINT, K_ULONG,
          K_ULONGLONG, K_INT8, K_INT16, K_INT32, K_INT64, K_UINT8, K_UINT16, K_UINT32, K_UINT64, K_SIZE, K_PTRDIFF, K_COMPLEXD, K_COMPLEXF, NTK };
extern const char *tk_name[NTK];
extern const int tk_size[NTK];
extern const bool tk_signed[NTK];
inline bool tk_float(int k) { return k <= K_LONGDOUBLE || k >= K_COMPLEXD; }
// calls f(T()) with the C type of the kind (real types only)
template <class F> auto with_type(int k, F f) {
    switch (k) {
    case K_FLOAT: return f(float());
    case K_DOUBLE: return f(double());
    case K_LONGDOUBLE: return f((long double)0);
    case K_CHAR: return f(char());
    case K_SCHAR: case K_INT8: return f((signed char)0);
    case K_SHORT: case K_INT16: return f((short)0);
    case K_INT: case K_INT32: return f(int());
    case K_LONG: case K_INT64: case K_PTRDIFF: return f(long());
    case K_LONGLONG: return f((long long)0);
    case K_UCHAR: case K_UINT8: return f((unsigned char)0);
    case K_USHORT: case K_UINT16: return f((unsigned short)0);
    case K_UINT: case K_UINT32: return f((unsigned)0);
    case K_ULONG: case K_UINT64: case K_SIZE: return f((unsigned long)0);
    default: return f((unsigned long long)0);
    }
}
extern const std::vector<int> T_RMA, T_AMO_STD, T_AMO_EXT, T_AMO_BIT, T_P2P, T_RED_BIT_A, T_RED_MM_A, T_RED_SP_A, T_RED_MM_T, T_RED_SP_T, T_RED_BIT_T;
std::string hex(const void *p, size_t n);
inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
    char b[2000];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
// API constants
#define O_CTX_DEFAULT ((void *)0x80000)
#define O_TEAM_WORLD ((void *)0x90000)
#define O_TEAM_SHARED ((void *)0x90001)
