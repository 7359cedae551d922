// Driver of generated-case search: fork per case, 8 workers, shrinking, results as JSON.
#include "core.hpp"
#include <algorithm>
#include <atomic>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
using std::string;
using std::vector;

Slot *slot;
vector<string> cnt_names;
string g_cfg;
int g_tier;
Choices ch;
static void *dls[MAXPE];
static uintptr_t bases[MAXPE];
static string outfile_dir;
static int capfd = -1;

vector<Prop> &props() {
    static vector<Prop> p;
    return p;
}
const char *tk_name[NTK] = {"float", "double", "longdouble", "char", "schar", "short", "int", "long", "longlong", "uchar", "ushort", "uint", "ulong",
                            "ulonglong", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "size", "ptrdiff", "complexd", "complexf"};
const int tk_size[NTK] = {4, 8, 16, 1, 1, 2, 4, 8, 8, 1, 2, 4, 8, 8, 1, 2, 4, 8, 1, 2, 4, 8, 8, 8, 16, 8};
const bool tk_signed[NTK] = {1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 1, 1, 1, 1, 0, 0, 0, 0, 0, 1, 1, 1};
const vector<int> T_RMA = {K_INT, K_FLOAT, K_DOUBLE, K_LONGDOUBLE, K_CHAR, K_SCHAR, K_SHORT, K_LONG, K_LONGLONG, K_UCHAR, K_USHORT, K_UINT, K_ULONG, K_ULONGLONG,
                           K_INT8, K_INT16, K_INT32, K_INT64, K_UINT8, K_UINT16, K_UINT32, K_UINT64, K_SIZE, K_PTRDIFF};
const vector<int> T_AMO_STD = {K_INT, K_LONG, K_LONGLONG, K_UINT, K_ULONG, K_ULONGLONG, K_INT32, K_INT64, K_UINT32, K_UINT64, K_SIZE, K_PTRDIFF};
const vector<int> T_AMO_EXT = {K_INT, K_LONG, K_LONGLONG, K_UINT, K_ULONG, K_ULONGLONG, K_INT32, K_INT64, K_UINT32, K_UINT64, K_SIZE, K_PTRDIFF, K_FLOAT, K_DOUBLE};
const vector<int> T_AMO_BIT = {K_UINT, K_ULONG, K_ULONGLONG, K_INT32, K_INT64, K_UINT32, K_UINT64};
const vector<int> T_P2P = {K_INT, K_SHORT, K_LONG, K_LONGLONG, K_USHORT, K_UINT, K_ULONG, K_ULONGLONG, K_INT32, K_INT64, K_UINT32, K_UINT64, K_SIZE, K_PTRDIFF};
const vector<int> T_RED_BIT_A = {K_INT, K_SHORT, K_LONG, K_LONGLONG};
const vector<int> T_RED_MM_A = {K_INT, K_SHORT, K_LONG, K_LONGLONG, K_FLOAT, K_DOUBLE, K_LONGDOUBLE};
const vector<int> T_RED_SP_A = {K_INT, K_SHORT, K_LONG, K_LONGLONG, K_FLOAT, K_DOUBLE, K_LONGDOUBLE, K_COMPLEXD, K_COMPLEXF};
const vector<int> T_RED_MM_T = T_RMA;
const vector<int> T_RED_SP_T = [] { vector<int> v = T_RMA; v.push_back(K_COMPLEXD); v.push_back(K_COMPLEXF); return v; }();
const vector<int> T_RED_BIT_T = {K_UINT, K_UCHAR, K_USHORT, K_ULONG, K_ULONGLONG, K_INT8, K_INT16, K_INT32, K_INT64, K_UINT8, K_UINT16, K_UINT32, K_UINT64, K_SIZE};

uint32_t Choices::draw(uint32_t n) {
    uint32_t v;
    uint32_t k = slot->nrec;
    if (replay) v = k < replay->size() ? (*replay)[k] : 0;
    else v = (uint32_t)next();
    if (n == 0) v = 0;
    else if (replay) v = v < n ? v : v % n;
    else v = (uint32_t)(((uint64_t)v * n) >> 32);
    if (k < MAXREC) {
        slot->rec[k] = v;
        slot->nrec = k + 1;
    }
    slot->hash = (slot->hash ^ v) * 0x100000001b3ull;
    return v;
}
uint64_t draw64() {
    uint64_t a = draw(0xffffffffu), b = draw(0xffffffffu);
    return a | b << 32;
}
int pickw(std::initializer_list<int> w) {
    int t = 0;
    for (int x : w) t += x;
    int d = (int)draw(t), i = 0;
    for (int x : w) {
        if (d < x) return i;
        d -= x;
        i++;
    }
    return 0;
}
void desc(const char *f, ...) {
    char b[3000];
    va_list ap;
    va_start(ap, f);
    int n = vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    if (n >= (int)sizeof b) n = sizeof b - 1;
    if (slot->desclen + n + 2 < MAXDESC) {
        memcpy(slot->desc + slot->desclen, b, n);
        slot->desclen += n;
        slot->desc[slot->desclen++] = '\n';
        slot->desc[slot->desclen] = 0;
    }
}
void fail(const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    vsnprintf(slot->msg, MAXMSG, f, ap);
    va_end(ap);
    slot->status = 2;
    _exit(0);
}
void discard() {
    slot->status = 3;
    _exit(0);
}
void nontrivial() { slot->nontrivial = 1; }
void count(int i, uint64_t n) { slot->cnt[i] += n; }
string hex(const void *p, size_t n) {
    string s;
    for (size_t i = 0; i < n && i < 64; i++) {
        char b[4];
        snprintf(b, sizeof b, "%02x", ((const unsigned char *)p)[i]);
        s += b;
    }
    if (n > 64) s += "..";
    return s;
}

void *pe_sym(int pe, const char *name, bool must) {
    static std::unordered_map<string, uintptr_t> off;
    auto it = off.find(name);
    if (it == off.end()) {
        void *p = dlsym(dls[0], name);
        if (!p) {
            if (must) fail("the library does not provide %s", name);
            return nullptr;
        }
        it = off.emplace(name, (uintptr_t)p - bases[0]).first;
    }
    return (void *)(bases[pe] + it->second);
}

SimParams draw_sim(int npes, int hop_pct) {
    SimParams p;
    p.npes = npes;
    p.sched = pickw({4, 3, 2, 3});
    p.yield_pct = pick({100, 100, 60, 20});
    p.bg_pct = pick({30, 5, 70, 1});
    p.spurious_pct = pick({20, 0, 50});
    p.eager = pick({1024, 0, 64, 1 << 20});
    p.coll_sync = draw(2);
    p.split_puts = draw(2);
    p.late_put = draw(2);
    p.seed = draw(0x7fffffff);
    if (g_cfg != "fast" && g_cfg != "dynwin" && chance(hop_pct)) {
        p.hop = pick({50, 15, 90});
        p.provided = g_cfg.compare(0, 3, "thr") ? pick({2, 3}) : 3;
    }
    return p;
}
vector<vector<int>> draw_nodes(SimParams &p) {
    int n = chance(40) ? 2 + draw(2) : 1;
    for (int i = 0; i < p.npes; i++) p.node[i] = n == 1 ? 0 : (int)draw(n);
    vector<vector<int>> r;
    for (int k = 0; k < n; k++) {
        vector<int> m;
        for (int i = 0; i < p.npes; i++)
            if (p.node[i] == k) m.push_back(i);
        if (!m.empty()) r.push_back(m);
    }
    if (r.size() > 1) {
        string s;
        for (int i = 0; i < p.npes; i++) s += fmt(" %d", p.node[i]);
        desc("the PEs run on nodes%s", s.c_str());
    }
    return r;
}
string sim_str(const SimParams &p) {
    return fmt("npes=%d sched=%d yield=%d bg=%d spurious=%d eager=%d collsync=%d split=%d late=%d seed=%llu%s", p.npes, p.sched, p.yield_pct, p.bg_pct,
               p.spurious_pct, p.eager, p.coll_sync, p.split_puts, p.late_put, (unsigned long long)p.seed,
               p.hop ? fmt(" threads take turns: %d%%", p.hop).c_str() : "");
}
SimResult run_raw(const SimParams &p, const std::function<void(int)> &body) {
    SimResult r = sim_run(p, body);
    slot->steps = r.steps;
    slot->events = r.events;
    return r;
}
void FarBlock::draw(int pct, size_t used, size_t around) {
    pad = 0;
    if (chance(pct)) {
        size_t edge = pick<size_t>({1ull << 31, 1ull << 32, 1ull << 33, 3ull << 31});
        switch (pickw({3, 1, 1})) { // the blocks lie across the edge, or behind it
        case 0: pad = edge - 16 * ::draw((uint32_t)(around / 16 + 4)); break;
        case 1: pad = edge + ::draw(100); break;
        default: pad = edge + 4096 * (size_t)::draw(100000); break;
        }
        desc("the blocks of the case are allocated behind one of %zu bytes", pad);
    }
    heap_size(used);
}
void FarBlock::heap_size(size_t used) {
    sim_big_memory(pad != 0);
    setenv("SHMEM_SYMMETRIC_SIZE", std::to_string(used + (pad ? pad + 65536 : 0)).c_str(), 1);
}
void FarBlock::take(int me) {
    if (!pad) return;
    blk[me] = call<void *>("shmem_malloc", pad);
    if (!blk[me]) fail("PE %d: shmem_malloc(%zu) failed with SHMEM_SYMMETRIC_SIZE=%s", me, pad, getenv("SHMEM_SYMMETRIC_SIZE"));
}
void FarBlock::give(int me) {
    if (pad) call("shmem_free", blk[me]);
}
string captured_output() {
    fflush(stdout);
    fflush(stderr);
    if (capfd < 0) return "";
    off_t n = lseek(capfd, 0, SEEK_END);
    string s(std::min<off_t>(n, 1 << 20), 0);
    ssize_t k = pread(capfd, &s[0], s.size(), 0);
    s.resize(k > 0 ? k : 0);
    return s;
}
// ---- threads of a PE that take turns
bool g_hop = false;
namespace {
struct Hop {
    int pct = 0, n = 0;
    uint64_t rs = 0;
    bool ready = false, quit = false;
    int who = 0; // the thread whose turn it is
    std::vector<int> ids;
    const std::function<void()> *job = nullptr;
    uint32_t rnd(uint32_t k) {
        rs ^= rs << 13, rs ^= rs >> 7, rs ^= rs << 17;
        return (uint32_t)((rs >> 11) % k);
    }
} hops[MAXPE];
}
void hop(const std::function<void()> &f) {
    int me = sim_me();
    Hop &h = hops[me];
    if (!h.ready || sim_thread() != me || (int)h.rnd(100) >= h.pct) {
        f();
        return;
    }
    int w = 1 + h.rnd(h.n);
    while ((int)h.ids.size() < w) {
        int t = (int)h.ids.size() + 1;
        h.ids.push_back(sim_spawn([&h, t] {
            for (;;) {
                sim_block("its turn", [&h, t] { return h.quit || h.who == t; });
                if (h.who != t) return;
                (*h.job)();
                h.who = 0;
            }
        }));
    }
    h.job = &f;
    h.who = w;
    sim_block("a call of another thread", [&h] { return !h.who; });
}
void hop_end() { hops[sim_me()].ready = false; }
bool hop_init() {
    Hop &h = hops[sim_me()];
    if (!h.pct || h.ready || sim_thread() != sim_me()) return false;
    int prov = -1, me = sim_me();
    int rc = ((int (*)(int, int *))pe_sym(me, "shmem_init_thread"))(2, &prov);
    if (rc || prov < 2) fail("PE %d: shmem_init_thread(SHMEM_THREAD_SERIALIZED) returned %d, provided %d", me, rc, prov);
    h.ready = true;
    return true;
}
SimResult run_case(const SimParams &p, const std::function<void(int)> &body0) {
    g_hop = p.hop != 0;
    std::function<void(int)> hopping = [&](int me) {
        Hop &h = hops[me];
        h.pct = p.hop;
        h.rs = p.seed * 0x9e3779b97f4a7c15ull + me * 77 + 12345;
        h.n = 1 + h.rnd(2);
        if (!h.rnd(4)) h.pct = 0; // this PE has one thread
        body0(me);
        h.quit = true;
        for (int x : h.ids) sim_join(x);
    };
    const std::function<void(int)> &body = g_hop ? hopping : body0;
    SimResult r = run_raw(p, body);
    if (r.outcome == SIM_LIMIT) discard();
    if (r.outcome != SIM_OK) {
        static const char *n[] = {"ok", "deadlock", "hang", "abort", "MPI misuse"};
        string o = captured_output();
        if (o.size() > 1500) o = o.substr(o.size() - 1500);
        fail("%s: PE %d: %s\n%s", n[r.outcome], r.pe, r.msg.c_str(), o.c_str());
    }
    return r;
}
void compute(int n) {
    for (int i = 0; i < n; i++) {
        sim_progress_mark();
        sim_pause(1);
    }
}
void setenv_case(const char *k, const char *v) {
    setenv(k, v, 1);
    desc("env %s=%s", k, v);
}

// ---------------------------------------------------------------- one case
static double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}
static const Prop *prop;
static int cpu_limit = 20, wall_limit = 120;
static int g_verbose;

// runs one case in a child; the slot holds the outcome
static void exec_case(Slot *s, uint64_t seed, const vector<uint32_t> *replay) {
    s->status = 0;
    s->nontrivial = 0;
    s->hash = 0xcbf29ce484222325ull;
    s->steps = s->events = 0;
    s->nrec = 0;
    s->desclen = 0;
    s->desc[0] = s->msg[0] = 0;
    memset(s->cnt, 0, sizeof s->cnt);
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        slot = s;
        if (!g_verbose) {
            if (ftruncate(capfd, 0)) {}
            lseek(capfd, 0, SEEK_SET);
            dup2(capfd, 1);
            dup2(capfd, 2);
        }
        struct itimerval it = {{0, 0}, {cpu_limit, 0}};
        setitimer(ITIMER_PROF, &it, nullptr);
        it.it_value.tv_sec = wall_limit;
        setitimer(ITIMER_REAL, &it, nullptr);
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        ch.s = seed;
        ch.replay = replay;
        prop->fn();
        if (s->status == 0) s->status = 1;
        _exit(0);
    }
    if (pid < 0) {
        s->status = 3;
        usleep(10000);
        return;
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (s->status == 0 || WIFSIGNALED(st)) {
        string tail;
        {
            off_t n = lseek(capfd, 0, SEEK_END);
            off_t b = n > 1500 ? n - 1500 : 0;
            tail.resize(n - b);
            ssize_t k = tail.empty() ? 0 : pread(capfd, &tail[0], tail.size(), b);
            tail.resize(k > 0 ? k : 0);
        }
        if (WIFSIGNALED(st)) {
            int sg = WTERMSIG(st);
            if (sg == SIGKILL) { // killed from outside (memory): not a verdict
                s->status = 3;
                return;
            }
            snprintf(s->msg, MAXMSG, "%s (signal %d)\n%s", sg == SIGPROF || sg == SIGALRM ? "did not finish in time" : "crash", sg, tail.c_str());
        } else
            snprintf(s->msg, MAXMSG, "the process ended unexpectedly with status %d\n%s", WEXITSTATUS(st), tail.c_str());
        s->status = 2;
    }
}
static uint64_t mix(uint64_t a, uint64_t b) {
    Choices c;
    c.s = a * 0x9E3779B97F4A7C15ull + b;
    c.next();
    return c.next();
}
struct Shared {
    std::atomic<uint64_t> next, done, nontriv, discarded, steps, events;
    std::atomic<int> stop;
    std::atomic<uint64_t> fail_at; // lowest failing index + 1
    std::atomic<uint64_t> cnt[NCNT];
    std::atomic<uint32_t> nsamples;
    char samples[6][6000];
};
static void json_str(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; s++) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c == '\n') fputs("\\n", f);
        else if (c < 32 || c >= 127) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}
static vector<uint32_t> rec_of(Slot *s) { return vector<uint32_t>(s->rec, s->rec + s->nrec); }

// shrink: delete chunks, zero and lower single choices; keep any failing variant that is smaller
static vector<uint32_t> shrink(Slot *s, vector<uint32_t> best, double budget, uint64_t &execs) {
    double end = now() + budget;
    auto smaller = [](const vector<uint32_t> &a, const vector<uint32_t> &b) {
        if (a.size() != b.size()) return a.size() < b.size();
        return a < b;
    };
    auto try_ = [&](const vector<uint32_t> &c) {
        if (now() > end) return false;
        execs++;
        exec_case(s, 0, &c);
        if (s->status == 2) {
            vector<uint32_t> r = rec_of(s);
            while (!r.empty() && r.back() == 0) r.pop_back();
            if (smaller(r, best)) {
                best = r;
                return true;
            }
        }
        return false;
    };
    bool any = true;
    while (any && now() < end) {
        any = false;
        for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1 && now() < end; k = k > 8 ? k / 2 : k - 1) {
            size_t i = best.size() >= k ? best.size() - k : 0;
            for (;;) {
                if (i + k <= best.size()) {
                    vector<uint32_t> c = best;
                    c.erase(c.begin() + i, c.begin() + i + k);
                    if (try_(c)) any = true;
                }
                if (now() > end || i == 0) break;
                i = i >= std::max<size_t>(1, k / 2) ? i - std::max<size_t>(1, k / 2) : 0;
            }
            if (k == 1) break;
        }
        for (size_t i = 0; i < best.size() && now() < end; i++) {
            if (!best[i]) continue;
            vector<uint32_t> c = best;
            c[i] = 0;
            if (try_(c)) { any = true; continue; }
            uint32_t lo = 0, hi = best[i];
            for (int r = 0; r < 6 && hi - lo > 1; r++) {
                c = best;
                if (i >= c.size()) break;
                uint32_t m = lo + (hi - lo) / 2;
                c[i] = m;
                if (try_(c)) { hi = m; any = true; }
                else lo = m;
            }
        }
    }
    return best;
}

int main(int argc, char **argv) {
    if (!getenv("OSHV_REEXEC")) { // reproducible addresses if allowed
        setenv("OSHV_REEXEC", "1", 1);
        int p = personality(0xffffffff);
        if (p >= 0 && personality(p | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
    }
    string pid_, images, out, replayf;
    uint64_t seed = 1, ncases = 1000;
    double tlim = 60, shrink_budget = 60;
    int nw = 8;
    for (int i = 1; i < argc; i++) {
        string a = argv[i];
        auto v = [&] { return i + 1 < argc ? argv[++i] : (char *)""; };
        if (a == "--prop") pid_ = v();
        else if (a == "--images") images = v();
        else if (a == "--cfg") g_cfg = v();
        else if (a == "--seed") seed = strtoull(v(), 0, 10);
        else if (a == "--cases") ncases = strtoull(v(), 0, 10);
        else if (a == "--time") tlim = atof(v());
        else if (a == "--shrink") shrink_budget = atof(v());
        else if (a == "--out") out = v();
        else if (a == "--tier") g_tier = string(v()) == "thorough";
        else if (a == "--workers") nw = atoi(v());
        else if (a == "--replay") replayf = v();
        else if (a == "--verbose") g_verbose = 1;
        else if (a == "--cpu") cpu_limit = atoi(v());
        else if (a == "--list") {
            for (auto &p : props()) printf("%s\n", p.id);
            return 0;
        } else {
            fprintf(stderr, "unknown argument %s\n", a.c_str());
            return 3;
        }
    }
    for (auto &p : props())
        if (pid_ == p.id) prop = &p;
    if (!prop) {
        fprintf(stderr, "unknown property %s\n", pid_.c_str());
        return 3;
    }
    for (char **e = environ; e && *e;) { // nothing of the caller's settings reaches the library
        if (!strncmp(*e, "SHMEM_", 6) || !strncmp(*e, "OSHMPI_", 7) || !strncmp(*e, "SMA_", 4)) {
            string k(*e, strchr(*e, '=') - *e);
            unsetenv(k.c_str());
            e = environ;
        } else e++;
    }
    if (getenv("OSHV_DEBUG")) setenv("SHMEM_DEBUG", "1", 1);
    for (int i = 0; i < MAXPE; i++) {
        string f = images + fmt("/pe%d.so", i);
        dls[i] = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!dls[i]) {
            fprintf(stderr, "cannot load %s: %s\n", f.c_str(), dlerror());
            return 3;
        }
        struct link_map *lm;
        dlinfo(dls[i], RTLD_DI_LINKMAP, &lm);
        bases[i] = lm->l_addr;
        sim_attach_pe(i, dls[i]);
    }
    Slot *slots = (Slot *)mmap(nullptr, sizeof(Slot) * (nw + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto mkcap = [] { capfd = memfd_create("cap", 0); };
    mkcap();
    double t0 = now();
    if (!replayf.empty()) {
        FILE *f = fopen(replayf.c_str(), "r");
        if (!f) return 3;
        vector<uint32_t> r;
        unsigned long x;
        while (fscanf(f, "%lu", &x) == 1) r.push_back((uint32_t)x);
        fclose(f);
        exec_case(&slots[0], 0, &r);
        if (g_verbose) printf("--- program\n%s---\n", slots[0].desc);
        printf("%s\n%s\n", slots[0].status == 2 ? "FAIL" : slots[0].status == 1 ? "PASS" : "DISCARDED", slots[0].msg);
        return slots[0].status == 2;
    }
    // distinct cases: hash set shared as a table
    constexpr size_t HT = 1 << 22;
    auto *ht = (std::atomic<uint64_t> *)mmap(nullptr, HT * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    vector<pid_t> kids;
    fflush(stdout);
    for (int w = 0; w < nw; w++) {
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            mkcap();
            Slot *s = &slots[w];
            while (!sh->stop) {
                uint64_t i = sh->next++;
                if (i >= ncases || now() - t0 > tlim) break;
                exec_case(s, mix(seed, i), nullptr);
                if (s->status == 3) sh->discarded++;
                else {
                    sh->done++;
                    sh->steps += s->steps;
                    sh->events += s->events;
                    for (int k = 0; k < NCNT; k++)
                        if (s->cnt[k]) sh->cnt[k] += s->cnt[k];
                    if (s->nontrivial) {
                        uint64_t h = s->hash ? (uint64_t)s->hash : 1;
                        size_t k = h % HT;
                        bool fresh = true;
                        for (int tries = 0; tries < 64; tries++, k = (k + 1) % HT) {
                            uint64_t e = 0;
                            if (ht[k].compare_exchange_strong(e, h)) break;
                            if (e == h) { fresh = false; break; }
                        }
                        if (fresh) sh->nontriv++;
                        if (i < 200 || s->status == 2) {
                            uint32_t k2 = sh->nsamples++;
                            if (k2 < 6) strncpy(sh->samples[k2], s->desc, sizeof sh->samples[0] - 1);
                        }
                    }
                }
                if (s->status == 2) {
                    uint64_t e = sh->fail_at.load();
                    while ((e == 0 || i + 1 < e) && !sh->fail_at.compare_exchange_weak(e, i + 1)) {}
                    sh->stop = 1;
                }
            }
            _exit(0);
        }
        kids.push_back(p);
    }
    for (pid_t k : kids) {
        int st;
        while (waitpid(k, &st, 0) < 0 && errno == EINTR) {}
    }
    double t1 = now();
    bool violation = false;
    string vmsg, vdesc, note;
    vector<uint32_t> vrec;
    uint64_t shr = 0;
    if (sh->fail_at.load()) {
        uint64_t i = sh->fail_at.load() - 1;
        Slot *s = &slots[nw];
        int repro = 0;
        vector<uint32_t> best;
        for (int k = 0; k < 4; k++) {
            exec_case(s, mix(seed, i), nullptr);
            if (s->status == 2) {
                repro++;
                best = rec_of(s);
                vmsg = s->msg;
                vdesc = s->desc;
                break;
            }
        }
        if (repro) {
            violation = true;
            if (best.size() < MAXREC) {
                while (!best.empty() && best.back() == 0) best.pop_back();
                best = shrink(s, best, shrink_budget, shr);
                for (int k = 0; k < 3; k++) {
                    exec_case(s, 0, &best);
                    if (s->status == 2) {
                        vmsg = s->msg;
                        vdesc = s->desc;
                        break;
                    }
                }
            }
            vrec = best;
        } else note = fmt("case %llu failed once but not when repeated; not reported", (unsigned long long)i);
    }
    FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
    if (!f) return 3;
    fprintf(f, "{\"prop\":\"%s\",\"cfg\":\"%s\",\"seed\":%llu,\"evaluations\":%llu,\"distinct_nontrivial\":%llu,\"discarded\":%llu,\"steps\":%llu,\"events\":%llu,"
               "\"search_s\":%.2f,\"total_s\":%.2f,\"shrink_execs\":%llu,\"violation\":%s,\"rule\":",
            pid_.c_str(), g_cfg.c_str(), (unsigned long long)seed, (unsigned long long)sh->done, (unsigned long long)sh->nontriv, (unsigned long long)sh->discarded,
            (unsigned long long)sh->steps, (unsigned long long)sh->events, t1 - t0, now() - t0, (unsigned long long)shr, violation ? "true" : "false");
    json_str(f, prop->rule);
    fprintf(f, ",\"note\":");
    json_str(f, note.c_str());
    fprintf(f, ",\"counters\":{");
    for (size_t k = 0; k < prop->counters.size(); k++) {
        if (k) fputc(',', f);
        json_str(f, prop->counters[k].c_str());
        fprintf(f, ":%llu", (unsigned long long)sh->cnt[k]);
    }
    fprintf(f, "},\"samples\":[");
    for (uint32_t k = 0; k < std::min<uint32_t>(6, sh->nsamples); k++) {
        if (k) fputc(',', f);
        json_str(f, sh->samples[k]);
    }
    fprintf(f, "]");
    if (violation) {
        fprintf(f, ",\"message\":");
        json_str(f, vmsg.c_str());
        fprintf(f, ",\"program\":");
        json_str(f, vdesc.c_str());
        fprintf(f, ",\"choices\":[");
        for (size_t k = 0; k < vrec.size(); k++) fprintf(f, k ? ",%u" : "%u", vrec[k]);
        fprintf(f, "]");
    }
    fprintf(f, "}\n");
    fclose(f);
    return violation ? 1 : 0;
}
