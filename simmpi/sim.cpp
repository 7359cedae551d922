// simMPI: a deterministic MPI simulated inside one process.  Every simulated process (PE) is a fiber with its
// own copy of the code under test; each MPI call is a scheduling point; one-sided transfers and messages are
// applied later and out of order as far as the MPI standard allows.
#define SIM_NO_ANCHORS
#include <mpi.h>
#include "sim.hpp"
#include <algorithm>
#include <cassert>
#include <complex>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <cstddef>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#define SIM_ASAN 1
#else
#define SIM_ASAN 0
#endif

using std::deque;
using std::map;
using std::shared_ptr;
using std::string;
using std::vector;

namespace {
constexpr unsigned MAG_T = 0x51f0a001, MAG_O = 0x51f0a002, MAG_C = 0x51f0a003, MAG_G = 0x51f0a004, MAG_W = 0x51f0a005,
                   MAG_R = 0x51f0a006, MAG_I = 0x51f0a007, MAG_E = 0x51f0a008, MAG_M = 0x51f0a009, MAG_DEAD = 0xdeadbeef;
constexpr int MAXPE = 16;

struct Rng {
    uint64_t s = 1;
    uint64_t next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool pct(int p) { return (int)below(100) < p; }
};

struct TypeDesc {
    vector<std::pair<MPI_Aint, size_t>> segs; // byte ranges of one element, in type order
    MPI_Aint lb = 0, extent = 0;
    size_t size = 0;
    int basic = 0; // index of the basic type, -1 when mixed
    bool contig() const { return segs.size() == 1 && segs[0].first == 0 && (MPI_Aint)segs[0].second == extent; }
};
typedef shared_ptr<TypeDesc> TD;

struct CollState;
struct CommObj {
    int id;
    vector<int> members;      // world ranks
    vector<int> rank_of;      // world rank -> rank, -1
    vector<uint64_t> seq;     // per rank: next collective
    map<uint64_t, CollState *> colls;
};
struct Req;
struct Msg {
    CommObj *comm;
    int src, dst; // world
    int tag;
    vector<char> data;
    bool eager;
    const void *buf = nullptr; // rendezvous
    int count = 0;
    TD type;
    Req *sreq = nullptr;
    uint64_t birth;
    size_t bytes;
};
struct RmaOp;
enum ReqKind { RQ_SEND, RQ_RECV, RQ_COLL, RQ_RMA, RQ_GEN };
struct Req {
    ReqKind kind;
    int owner;
    bool done = false;
    bool persistent = false, active = true;
    bool freed = false;   // MPI_Request_free on an active request
    bool cancelled = false;
    MPI_Status st{};
    // recv
    void *buf = nullptr;
    int count = 0;
    TD type;
    int src = 0, tag = 0; // src: rank in comm
    CommObj *comm = nullptr;
    // persistent send
    bool psend = false;
    // collective / generic
    std::function<bool()> ready;
    std::function<void()> finish;
    sim_req_h *h = nullptr;
    int rma_left = 0;
};
struct WinPE {
    char *base = nullptr;
    MPI_Aint size = 0;
    int unit = 1;
    vector<std::pair<char *, MPI_Aint>> dyn;
    void *map = nullptr;
    size_t maplen = 0;
    bool locked_all = false;
    std::set<int> locked;
    int fence = 0;
    bool freed = false;
};
struct WinObj {
    int id;
    CommObj *comm;
    vector<WinPE> pe; // by rank in comm
    int flavor;
    bool ordered = true;
    int hint = 0; // 0 default(same_op_no_op as MPI default is same_op_no_op), 1 same_op, 2 no promise
};
enum RmaKind { RK_PUT, RK_GET, RK_ACC, RK_GACC, RK_CAS };
struct RmaOp {
    WinObj *w;
    int origin, target; // ranks in window comm
    RmaKind kind;
    int op = 0;
    uint64_t seq, birth;
    // origin side
    const char *obuf = nullptr;
    int ocount = 0;
    TD otype;
    bool snapped = false;
    vector<char> data;
    // result side
    char *rbuf = nullptr;
    int rcount = 0;
    TD rtype;
    vector<char> cmp;
    // target
    char *taddr = nullptr;
    int tcount = 0;
    TD ttype;
    Req *req = nullptr;
    // torn apply of an accumulate that violates the hint
    int phase = 0;
    vector<char> tmp;
};
struct Chan {
    deque<Msg *> q;
};
struct Fiber {
    ucontext_t ctx;
    char *stack = nullptr;
    size_t stacksz = 0;
    bool started = false, done = false;
    const char *incall = "";
    std::function<bool()> pred; // blocked while set and false
    bool blocked = false;
    uint64_t prio = 0;
    int pe = -1;                // the process it is a thread of
    bool inmpi = false;         // inside an MPI call
    uint64_t calls = 0;
    std::function<void()> body; // what a further thread runs
    bool library = false;      // created by the library
    int64_t fuel = 0;           // memory accesses until it may be preempted
#if SIM_ASAN
    void *fake = nullptr;
#endif
};
struct PEState {
    sim_type_h *types = nullptr;
    sim_op_h *ops = nullptr;
    sim_comm_h *cworld = nullptr, *cself = nullptr, *cnull = nullptr;
    sim_group_h *gnull = nullptr, *gempty = nullptr;
    sim_win_h *wnull = nullptr;
    sim_req_h *rnull = nullptr;
    sim_msg_h *mnull = nullptr;
    sim_info_h *inull = nullptr, *ienv = nullptr;
    sim_errh_h *enull = nullptr, *efatal = nullptr, *ereturn = nullptr;
    char *in_place = nullptr;
    MPI_Status *sti = nullptr, *stsi = nullptr;
    bool init = false, fini = false;
    int tlevel = 0;
    vector<Req *> posted;   // posted receives
    deque<Msg *> unexpected; // arrived messages
    uint64_t create_seq = 0;
    int nthreads = 1;       // threads that have not ended
    int main_thread = -1;   // the thread that initialised MPI
};
constexpr int MAXF = 64;

SimParams P;
PEState pe[MAXPE];
Fiber fib[MAXF];
int nfib;
int cur = -1;  // running PE
int curf = -1; // running thread
ucontext_t main_ctx;
Rng rs, rd;
uint64_t step_, clock_, last_progress, last_api, nevents, nswitch, opseq;
vector<RmaOp *> pend;
map<std::tuple<int, int, int>, Chan> chans;
vector<Chan *> chan_list;
size_t inflight;
int next_id;
vector<CommObj *> all_comms;
SimResult *result;
SimStats stats_;
bool running;
map<string, std::vector<std::pair<string, void *>>> dummy;
#if SIM_ASAN
void *main_fake;
const void *main_bottom;
size_t main_size;
#endif

int const tsize[SIM_NTYPES] = {0, 1, 1, 1, 1, sizeof(wchar_t), 2, 2, 4, 4, 8, 8, 8, 8, 4, 8, sizeof(long double), 1, 1, 2, 2, 4, 4,
                               8, 8, 1, 8, 16, 32, 1, 8, 8, 8, 8, 16, 16, 8, 8, 32};
constexpr int NT = 39;

struct StopRun {};
int exit_code;
[[noreturn]] void stop_run(int outcome, const char *fmt, ...) {
    char b[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (result->outcome == SIM_OK) {
        result->outcome = outcome;
        result->code = exit_code;
        result->pe = cur;
        result->msg = b;
    }
    running = false;
    // leave this fiber for good
    if (cur >= 0) {
#if SIM_ASAN
        __sanitizer_start_switch_fiber(&fib[curf].fake, main_bottom, main_size);
#endif
        cur = curf = -1;
        setcontext(&main_ctx);
    }
    throw StopRun();
}
#define MISUSE(...) stop_run(SIM_MISUSE, __VA_ARGS__)

void switch_to_main() {
#if SIM_ASAN
    int me = curf;
    __sanitizer_start_switch_fiber(&fib[me].fake, main_bottom, main_size);
    swapcontext(&fib[me].ctx, &main_ctx);
    __sanitizer_finish_switch_fiber(fib[me].fake, nullptr, nullptr);
#else
    swapcontext(&fib[curf].ctx, &main_ctx);
#endif
}

void progress() { last_progress = step_; }

// ---------------------------------------------------------------- datatypes
size_t total(const TD &t, int count) { return t->size * (size_t)count; }
void pack(const char *buf, int count, const TD &t, vector<char> &out) {
    out.resize(total(t, count));
    if (out.empty()) return;
    char *o = out.data();
    if (t->contig()) {
        memcpy(o, buf, out.size());
        return;
    }
    for (int i = 0; i < count; i++)
        for (auto &s : t->segs) {
            memcpy(o, buf + i * t->extent + s.first, s.second);
            o += s.second;
        }
}
// unpack bytes [from,to) of the packed representation
void unpack(const char *in, size_t n, char *buf, int count, const TD &t) {
    if (!n) return;
    if (t->contig()) {
        memcpy(buf, in, n);
        return;
    }
    size_t left = n;
    for (int i = 0; i < count && left; i++)
        for (auto &s : t->segs) {
            size_t k = std::min(left, s.second);
            memcpy(buf + i * t->extent + s.first, in, k);
            in += k;
            left -= k;
            if (!left) break;
        }
}
void span(const TD &t, int count, MPI_Aint &lo, MPI_Aint &hi) {
    lo = hi = 0;
    if (!count || t->segs.empty() || !t->size) return;
    MPI_Aint l = INTPTR_MAX, h = INTPTR_MIN;
    for (auto &s : t->segs) {
        l = std::min(l, s.first);
        h = std::max(h, s.first + (MPI_Aint)s.second);
    }
    MPI_Aint last = (MPI_Aint)(count - 1) * t->extent;
    lo = std::min(l, l + last);
    hi = std::max(h, h + last);
}
TD basic_td[SIM_NTYPES];
void init_types() {
    static const int second[] = {33, 34, 35, 36, 37, 38};
    (void)second;
    for (int i = 0; i < NT; i++) {
        TD t(new TypeDesc);
        t->size = tsize[i];
        t->extent = tsize[i];
        t->basic = i;
        if (t->size) t->segs.push_back({0, t->size});
        basic_td[i] = t;
    }
}
bool is_basic_handle(MPI_Datatype d, int &idx) {
    uintptr_t a = (uintptr_t)d, b = (uintptr_t)pe[cur].types;
    if (a >= b && a < b + sizeof(sim_type_h) * SIM_NTYPES) {
        idx = (int)((a - b) / sizeof(sim_type_h));
        return true;
    }
    return false;
}
bool foreign(const void *h) {
    for (int i = 0; i < P.npes; i++)
        if (i != cur) {
            uintptr_t a = (uintptr_t)h, b = (uintptr_t)pe[i].types;
            if (a >= b && a < b + sizeof(sim_type_h) * SIM_NTYPES) return true;
        }
    return false;
}
std::set<void *> live_handles[MAXPE]; // dynamically created handles
TD T(MPI_Datatype d, const char *fn) {
    int i;
    if (is_basic_handle(d, i)) {
        if (i == 0 || i >= NT) MISUSE("%s: invalid datatype (null)", fn);
        return basic_td[i];
    }
    if (foreign(d)) MISUSE("%s: datatype handle belongs to another process", fn);
    if (!live_handles[cur].count(d)) MISUSE("%s: invalid or freed datatype handle", fn);
    sim_type_h *h = d;
    return *(TD *)h->ext;
}
TD Tz(MPI_Datatype d, int count, const char *fn) { // datatype may be null when nothing is described
    int i;
    if (count == 0 && is_basic_handle(d, i) && i == 0) return basic_td[4];
    return T(d, fn);
}
MPI_Datatype new_type(TD t) {
    auto *h = new sim_type_h{MAG_T, -1, new TD(t)};
    live_handles[cur].insert(h);
    return h;
}

// ---------------------------------------------------------------- reduction operations
template <class X> void red_int(int op, X *a, const X *b, size_t n) {
    typedef typename std::make_unsigned<X>::type U;
    for (size_t i = 0; i < n; i++) switch (op) {
        case 1: a[i] = std::max(a[i], b[i]); break;
        case 2: a[i] = std::min(a[i], b[i]); break;
        case 3: a[i] = (X)((U)a[i] + (U)b[i]); break;
        case 4: a[i] = (X)((uint64_t)(U)a[i] * (uint64_t)(U)b[i]); break;
        case 5: a[i] = a[i] && b[i]; break;
        case 6: a[i] = a[i] & b[i]; break;
        case 7: a[i] = a[i] || b[i]; break;
        case 8: a[i] = a[i] | b[i]; break;
        case 9: a[i] = !a[i] != !b[i]; break;
        case 10: a[i] = a[i] ^ b[i]; break;
        case 13: a[i] = b[i]; break;
        case 14: break;
        default: MISUSE("reduction operation %d not defined for an integer type", op);
        }
}
template <class X> void red_flt(int op, X *a, const X *b, size_t n) {
    for (size_t i = 0; i < n; i++) switch (op) {
        case 1: a[i] = a[i] < b[i] ? b[i] : a[i]; break;
        case 2: a[i] = b[i] < a[i] ? b[i] : a[i]; break;
        case 3: a[i] = a[i] + b[i]; break;
        case 4: a[i] = a[i] * b[i]; break;
        case 13: a[i] = b[i]; break;
        case 14: break;
        default: MISUSE("reduction operation %d not defined for a floating type", op);
        }
}
template <class X> void red_cpx(int op, X *a, const X *b, size_t n) {
    for (size_t i = 0; i < n; i++) switch (op) {
        case 3: a[i] = a[i] + b[i]; break;
        case 4: a[i] = a[i] * b[i]; break;
        case 13: a[i] = b[i]; break;
        case 14: break;
        default: MISUSE("reduction operation %d not defined for a complex type", op);
        }
}
template <class X, class F> void via(void *a, const void *b, size_t n, F f) {
    // operands may be unaligned
    vector<X> x(n), y(n);
    if (!n) return;
    memcpy((void *)x.data(), a, n * sizeof(X));
    memcpy((void *)y.data(), b, n * sizeof(X));
    f(x.data(), y.data());
    memcpy(a, (const void *)x.data(), n * sizeof(X));
}
// a = a op b for n elements of basic type t
void reduce(int op, int t, char *a, const char *b, size_t n) {
    if (op == 13) {
        memcpy(a, b, n * tsize[t]);
        return;
    }
    if (op == 14) return;
#define RI(X) return via<X>(a, b, n, [&](X *p, X *q) { red_int<X>(op, p, q, n); })
#define RF(X) return via<X>(a, b, n, [&](X *p, X *q) { red_flt<X>(op, p, q, n); })
#define RC(X) return via<X>(a, b, n, [&](X *p, X *q) { red_cpx<X>(op, p, q, n); })
    switch (t) {
    case 1: RI(char); // not defined by the standard, but every implementation has it
    case 2: case 17: RI(int8_t);
    case 3: case 18: RI(uint8_t);
    case 25:
        if (op != 5 && op != 7 && op != 9) MISUSE("reduction operation %d not defined for a logical type", op);
        RI(uint8_t);
    case 4:
        if (op != 6 && op != 8 && op != 10) MISUSE("reduction operation %d not defined for MPI_BYTE", op);
        RI(uint8_t);
    case 6: case 19: RI(int16_t);
    case 7: case 20: RI(uint16_t);
    case 8: case 21: RI(int32_t);
    case 9: case 22: RI(uint32_t);
    case 10: case 12: case 23: case 30: case 31: case 32: RI(int64_t);
    case 11: case 13: case 24: RI(uint64_t);
    case 14: RF(float);
    case 15: RF(double);
    case 16: RF(long double);
    case 26: RC(std::complex<float>);
    case 27: RC(std::complex<double>);
    case 28: RC(std::complex<long double>);
    default: MISUSE("reduction not defined for basic datatype %d", t);
    }
}
int O(MPI_Op o, const char *fn) {
    uintptr_t a = (uintptr_t)o, b = (uintptr_t)pe[cur].ops;
    if (a < b || a >= b + sizeof(sim_op_h) * SIM_NOPS) MISUSE("%s: invalid reduction operation handle", fn);
    int i = (int)((a - b) / sizeof(sim_op_h));
    if (i == 0 || i > 14) MISUSE("%s: invalid reduction operation", fn);
    return i;
}

// ---------------------------------------------------------------- handles
CommObj *new_comm(const vector<int> &m) {
    auto *c = new CommObj;
    c->id = next_id++;
    c->members = m;
    c->rank_of.assign(MAXPE, -1);
    for (size_t i = 0; i < m.size(); i++) c->rank_of[m[i]] = (int)i;
    c->seq.assign(m.size(), 0);
    all_comms.push_back(c);
    return c;
}
MPI_Comm comm_handle(CommObj *c) {
    auto *h = new sim_comm_h{MAG_C, cur, c};
    live_handles[cur].insert(h);
    return h;
}
CommObj *selfcomm[MAXPE], *worldcomm;
CommObj *C(MPI_Comm h, const char *fn) {
    if (h == pe[cur].cworld) return worldcomm;
    if (h == pe[cur].cself) return selfcomm[cur];
    if (h == pe[cur].cnull) MISUSE("%s: MPI_COMM_NULL", fn);
    if (!live_handles[cur].count(h)) MISUSE("%s: invalid or freed communicator handle", fn);
    return (CommObj *)h->obj;
}
int myrank(CommObj *c) { return c->rank_of[cur]; }
typedef vector<int> GroupObj;
GroupObj *G(MPI_Group h, const char *fn) {
    static GroupObj empty;
    if (h == pe[cur].gempty) return &empty;
    if (h == pe[cur].gnull) MISUSE("%s: MPI_GROUP_NULL", fn);
    if (!live_handles[cur].count(h)) MISUSE("%s: invalid or freed group handle", fn);
    return (GroupObj *)h->obj;
}
MPI_Group group_handle(const GroupObj &g) {
    if (g.empty()) return pe[cur].gempty;
    auto *h = new sim_group_h{MAG_G, cur, new GroupObj(g)};
    live_handles[cur].insert(h);
    return h;
}
WinObj *W(MPI_Win h, const char *fn) {
    if (h == pe[cur].wnull) MISUSE("%s: MPI_WIN_NULL", fn);
    if (!live_handles[cur].count(h)) MISUSE("%s: invalid or freed window handle", fn);
    return (WinObj *)h->obj;
}
typedef map<string, string> InfoObj;
InfoObj *I(MPI_Info h, const char *fn) {
    static InfoObj none;
    if (h == pe[cur].inull || h == pe[cur].ienv) {
        none.clear();
        return &none;
    }
    if (!live_handles[cur].count(h)) MISUSE("%s: invalid or freed info handle", fn);
    return (InfoObj *)h->obj;
}
Req *new_req(ReqKind k) {
    auto *r = new Req;
    r->kind = k;
    r->owner = cur;
    r->st.MPI_SOURCE = MPI_ANY_SOURCE;
    r->st.MPI_TAG = MPI_ANY_TAG;
    return r;
}
MPI_Request req_handle(Req *r) {
    auto *h = new sim_req_h{MAG_R, cur, r};
    r->h = h;
    live_handles[cur].insert(h);
    return h;
}
Req *R(MPI_Request h, const char *fn) {
    if (h == pe[cur].rnull) return nullptr;
    if (!live_handles[cur].count(h)) MISUSE("%s: invalid or already completed request handle", fn);
    return (Req *)h->obj;
}
void drop_req(MPI_Request *h) {
    Req *r = (Req *)(*h)->obj;
    live_handles[cur].erase(*h);
    (*h)->magic = MAG_DEAD;
    delete *h;
    *h = pe[cur].rnull;
    r->h = nullptr;
    if (r->kind != RQ_RMA || r->done) delete r;
    else r->freed = true;
}

// ---------------------------------------------------------------- pending events
bool same_ok(WinObj *w, int a, int b) {
    if (!P.strict_hints) return true;
    if (a == b) return true;
    if (w->hint == 1) return false;
    if (w->hint == 0) return a == 14 || b == 14;
    return true;
}
void snap(RmaOp *o) {
    if (o->snapped) return;
    o->snapped = true;
    if (o->obuf) pack(o->obuf, o->ocount, o->otype, o->data);
    o->obuf = nullptr;
}
void rma_done(RmaOp *o) {
    if (o->req) {
        if (--o->req->rma_left == 0) {
            o->req->done = true;
            if (o->req->freed) delete o->req;
        }
    }
    delete o;
}
bool overlaps(RmaOp *a, RmaOp *b) {
    MPI_Aint al, ah, bl, bh;
    span(a->ttype, a->tcount, al, ah);
    span(b->ttype, b->tcount, bl, bh);
    return a->taddr + al < b->taddr + bh && b->taddr + bl < a->taddr + ah;
}
// apply; returns false when the operation stays pending (second half of a torn accumulate)
bool apply(RmaOp *o, bool force) {
    nevents++;
    snap(o);
    vector<char> old;
    bool changed = false;
    switch (o->kind) {
    case RK_PUT:
        pack(o->taddr, o->tcount, o->ttype, old);
        changed = old != o->data;
        unpack(o->data.data(), o->data.size(), o->taddr, o->tcount, o->ttype);
        break;
    case RK_GET:
        pack(o->taddr, o->tcount, o->ttype, old);
        unpack(old.data(), old.size(), o->rbuf, o->rcount, o->rtype);
        break;
    case RK_ACC:
    case RK_GACC:
    case RK_CAS: {
        if (o->phase == 0 && !force && P.strict_hints) {
            // another accumulate that the hint forbids is pending on the same location: no atomicity
            bool clash = false;
            for (auto *q : pend)
                if (q != o && q->w == o->w && q->target == o->target && q->kind >= RK_ACC && overlaps(o, q)) {
                    int a = o->kind == RK_CAS ? 100 : o->op, b = q->kind == RK_CAS ? 100 : q->op;
                    if (!same_ok(o->w, a, b)) clash = true;
                }
            if (clash && !(o->op == 14 && o->kind != RK_CAS)) {
                pack(o->taddr, o->tcount, o->ttype, o->tmp);
                o->phase = 1;
                return false;
            }
        }
        if (o->phase == 1) old = o->tmp;
        else pack(o->taddr, o->tcount, o->ttype, old);
        vector<char> nw = old;
        if (o->kind == RK_CAS) {
            if (old == o->cmp) nw = o->data;
        } else
            reduce(o->op, o->ttype->basic, nw.data(), o->op == 14 ? nw.data() : o->data.data(),
                   nw.size() / std::max<size_t>(1, tsize[o->ttype->basic]));
        changed = nw != old;
        if (o->op != 14 || o->kind == RK_CAS) unpack(nw.data(), nw.size(), o->taddr, o->tcount, o->ttype);
        if (o->rbuf) unpack(old.data(), old.size(), o->rbuf, o->rcount, o->rtype);
        break;
    }
    }
    if (changed) progress();
    return true;
}
bool eligible(RmaOp *o) {
    if (o->kind < RK_ACC || !o->w->ordered) return true;
    for (auto *q : pend)
        if (q != o && q->w == o->w && q->origin == o->origin && q->target == o->target && q->kind >= RK_ACC && q->seq < o->seq &&
            overlaps(o, q))
            return false;
    return true;
}
void apply_at(size_t i, bool force) {
    RmaOp *o = pend[i];
    if (!force && !eligible(o)) {
        // apply the oldest conflicting one instead
        size_t best = i;
        for (size_t k = 0; k < pend.size(); k++)
            if (pend[k]->w == o->w && pend[k]->origin == o->origin && pend[k]->target == o->target && pend[k]->kind >= RK_ACC &&
                pend[k]->seq < pend[best]->seq)
                best = k;
        i = best;
        o = pend[i];
    }
    if (apply(o, force)) {
        pend.erase(pend.begin() + i);
        rma_done(o);
    }
}

bool tag_match(int want, int tag) { return want == MPI_ANY_TAG ? true : want == tag; }
void finish_match(Msg *m, Req *r) {
    progress();
    if (m->bytes > total(r->type, r->count))
        MISUSE("message truncated: %zu bytes from rank %d tag %d into a receive of %zu bytes", m->bytes,
               m->comm->rank_of[m->src], m->tag, total(r->type, r->count));
    if (!m->eager) pack((const char *)m->buf, m->count, m->type, m->data);
    unpack(m->data.data(), m->data.size(), (char *)r->buf, r->count, r->type);
    r->st.MPI_SOURCE = m->comm->rank_of[m->src];
    r->st.MPI_TAG = m->tag;
    r->st.sim_bytes = m->bytes;
    r->done = true;
    if (m->sreq) {
        m->sreq->done = true;
        if (m->sreq->freed) delete m->sreq;
    }
    delete m;
}
void deliver(Msg *m) { // the message reaches its destination
    PEState &d = pe[m->dst];
    for (size_t i = 0; i < d.posted.size(); i++) {
        Req *r = d.posted[i];
        if (r->comm == m->comm && (r->src == MPI_ANY_SOURCE || r->src == m->comm->rank_of[m->src]) && tag_match(r->tag, m->tag)) {
            d.posted.erase(d.posted.begin() + i);
            finish_match(m, r);
            return;
        }
    }
    d.unexpected.push_back(m);
}
bool deliver_one(size_t k) {
    size_t n = chan_list.size();
    for (size_t i = 0; i < n; i++) {
        Chan *c = chan_list[(k + i) % n];
        if (!c->q.empty()) {
            Msg *m = c->q.front();
            c->q.pop_front();
            inflight--;
            nevents++;
            progress();
            deliver(m);
            return true;
        }
    }
    return false;
}
bool bg_step() {
    size_t n = pend.size() + inflight;
    if (!n) return false;
    // fairness: what has waited long goes first
    if (!pend.empty() && step_ - pend[0]->birth > 4000) {
        apply_at(0, false);
        return true;
    }
    size_t k = rd.below(n);
    if (k < pend.size()) apply_at(k, false);
    else deliver_one(rd.below(chan_list.size()));
    return true;
}

// ---------------------------------------------------------------- scheduling
uint64_t hang_limit() {
    static uint64_t k = getenv("OSHV_HANG") ? atoi(getenv("OSHV_HANG")) : 1;
    return 40000ull * std::max(nfib, 1) * k;
}
// no progress for a while: schedule fairly, so that only a livelock under fair scheduling counts as a hang
bool rescue() { return step_ - last_progress > hang_limit() / 2; }
int pick_fiber(const vector<int> &c) {
    switch (rescue() ? 0 : P.sched) {
    case 1: // bursty: stay
        if (curf >= 0 && rs.pct(85))
            for (int f : c)
                if (f == curf) return f;
        return c[rs.below(c.size())];
    case 2: { // starve one
        int victim = (int)(P.seed % nfib);
        vector<int> o;
        for (int f : c)
            if (f != victim) o.push_back(f);
        if (o.empty() || rs.below(60) == 0) return c[rs.below(c.size())];
        return o[rs.below(o.size())];
    }
    case 3: { // priorities, reshuffled now and then
        if (rs.below(50) == 0) fib[c[rs.below(c.size())]].prio = rs.next();
        int b = c[0];
        for (int f : c)
            if (fib[f].prio > fib[b].prio) b = f;
        if (rs.below(24) == 0) return c[rs.below(c.size())];
        return b;
    }
    default: return c[rs.below(c.size())];
    }
}
string where() {
    string s;
    for (int i = 0; i < nfib; i++) {
        s += " PE" + std::to_string(fib[i].pe);
        if (i >= P.npes) s += ".thread" + std::to_string(i);
        s += string(":") + (fib[i].done ? "finished" : fib[i].incall);
    }
    return s;
}
void hang_check() {
    if (step_ - last_progress > hang_limit()) {
        string s = where();
        stop_run(SIM_HANG, "no progress: PEs keep polling and nothing changes;%s", s.c_str());
    }
    if (step_ > 6000000) {
        // a livelock if no library call has returned for a long time; otherwise the case is merely too long
        if (step_ - last_api < 1500000) stop_run(SIM_LIMIT, "step limit reached");
        string s = where();
        stop_run(SIM_HANG, "step limit reached;%s", s.c_str());
    }
}
void yield_() {
    nswitch++;
    switch_to_main();
}
// every MPI call passes here
void enter(const char *name, bool need_init = true) {
    Fiber &f = fib[curf];
    f.incall = name;
    f.calls++;
    step_++;
    if (pe[cur].nthreads > 1 && pe[cur].init && pe[cur].tlevel < 3) {
        if (pe[cur].tlevel < 2 && pe[cur].main_thread != curf) MISUSE("%s called by a thread other than the main one below MPI_THREAD_SERIALIZED", name);
        for (int i = 0; i < nfib; i++)
            if (i != curf && fib[i].pe == cur && fib[i].inmpi)
                MISUSE("%s called while another thread is in %s below MPI_THREAD_MULTIPLE", name, fib[i].incall);
    }
    if (need_init && !pe[cur].init) MISUSE("%s called before MPI was initialised", name);
    if (need_init && pe[cur].fini) MISUSE("%s called after MPI was finalised", name);
    if ((step_ & 63) == 0) hang_check();
    bool r = rescue();
    if (rd.pct(r ? 50 : P.bg_pct)) bg_step();
    if (r || rs.pct(P.yield_pct)) {
        f.inmpi = true;
        yield_();
        f.inmpi = false;
    }
}
void block_until(const std::function<bool()> &p) {
    if (p()) return;
    Fiber &f = fib[curf];
    f.pred = p;
    f.blocked = true;
    f.inmpi = true;
    switch_to_main();
    f.inmpi = false;
    f.blocked = false;
    f.pred = nullptr;
    progress();
}
const std::function<void(int)> *body_;
void fiber_entry(int id) {
#if SIM_ASAN
    __sanitizer_finish_switch_fiber(nullptr, &main_bottom, &main_size);
#endif
    if (fib[id].body) fib[id].body();
    else (*body_)(id);
    fib[id].done = true;
    pe[fib[id].pe].nthreads--;
    fib[id].incall = "finished";
    progress();
#if SIM_ASAN
    __sanitizer_start_switch_fiber(nullptr, main_bottom, main_size);
#endif
    cur = curf = -1;
    setcontext(&main_ctx);
}
void entry_tramp(int id) { fiber_entry(id); }
void make_fiber(int i, int p) {
    Fiber &f = fib[i];
    f.pe = p;
    f.stacksz = 1 << 20;
    f.stack = (char *)mmap(nullptr, f.stacksz + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(f.stack, 4096, PROT_NONE);
    f.prio = rs.next();
    getcontext(&f.ctx);
    f.ctx.uc_stack.ss_sp = f.stack + 4096;
    f.ctx.uc_stack.ss_size = f.stacksz;
    f.ctx.uc_link = &main_ctx;
    makecontext(&f.ctx, (void (*)())entry_tramp, 1, i);
}
struct Mutex { int owner = -1; };
map<void *, Mutex> mutexes;
map<void *, uint64_t> conds; // signals so far
std::set<void *> dead_sync;       // destroyed mutexes and condition variables
int64_t next_fuel() { return P.preempt ? 1 + (int64_t)rs.below(2 * P.preempt) : INT64_MAX; }
} // namespace

// ---- further threads of a PE
int sim_spawn(const std::function<void()> &body) {
    if (nfib >= MAXF) stop_run(SIM_LIMIT, "too many threads");
    int i = nfib++;
    make_fiber(i, cur);
    fib[i].body = body;
    fib[i].fuel = next_fuel();
    if (fib[curf].fuel > INT32_MAX) fib[curf].fuel = next_fuel();
    pe[cur].nthreads++;
    return i;
}
void sim_join(int id) {
    Fiber &f = fib[curf];
    const char *w = f.incall;
    f.incall = "join";
    if (!fib[id].done) {
        f.pred = [id] { return fib[id].done; };
        f.blocked = true;
        switch_to_main();
        f.blocked = false;
        f.pred = nullptr;
    }
    f.incall = w;
}
int sim_thread() { return curf; }
// thread-local variables of the library: one copy per simulated thread, made from the image's initial data
static map<std::pair<unsigned long, int>, vector<std::max_align_t>> tls_copy;
extern "C" void *sim_tls(unsigned long module, unsigned long off) {
    int t = running && cur >= 0 && curf != cur ? curf : -1; // the first thread of the process is also the one that loaded it
    auto &v = tls_copy[{module, t}];
    if (v.empty()) {
        struct Q { unsigned long m; const char *init; size_t fsz, msz; } q = {module, nullptr, 0, 0};
        dl_iterate_phdr([](dl_phdr_info *i, size_t, void *a) {
            Q *x = (Q *)a;
            if (i->dlpi_tls_modid != x->m) return 0;
            for (int k = 0; k < i->dlpi_phnum; k++)
                if (i->dlpi_phdr[k].p_type == PT_TLS) {
                    x->init = (const char *)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
                    x->fsz = i->dlpi_phdr[k].p_filesz;
                    x->msz = i->dlpi_phdr[k].p_memsz;
                }
            return 1;
        }, &q);
        v.resize(q.msz / sizeof(std::max_align_t) + 8);
        memset(v.data(), 0, v.size() * sizeof(std::max_align_t));
        if (q.fsz) memcpy(v.data(), q.init, q.fsz);
    }
    return (char *)v.data() + off;
}
static void tblock(const char *w, const std::function<bool()> &p) {
    Fiber &f = fib[curf];
    const char *o = f.incall;
    f.incall = w;
    f.pred = p;
    f.blocked = true;
    switch_to_main();
    f.blocked = false;
    f.pred = nullptr;
    f.incall = o;
}
void sim_block(const char *w, const std::function<bool()> &p) {
    if (!p()) tblock(w, p);
}
extern "C" {
int sim_mutex_lock(void *m) {
    if (cur < 0) return 0;
    step_++;
    hang_check();
    if (P.preempt && pe[cur].nthreads > 1 && rs.pct(50)) yield_();
    if (dead_sync.count(m)) MISUSE("PE %d: a destroyed mutex is locked", cur);
    if (mutexes[m].owner == curf) stop_run(SIM_DEADLOCK, "PE %d: a thread locks a mutex it already holds", cur);
    if (mutexes[m].owner >= 0) tblock("pthread_mutex_lock", [m] { return mutexes[m].owner < 0; });
    mutexes[m].owner = curf;
    return 0;
}
int sim_mutex_trylock(void *m) {
    if (cur < 0) return 0;
    step_++;
    hang_check();
    if (dead_sync.count(m)) MISUSE("PE %d: a destroyed mutex is locked", cur);
    if (mutexes[m].owner >= 0) {
        if (pe[cur].nthreads > 1) yield_();
        return EBUSY;
    }
    mutexes[m].owner = curf;
    return 0;
}
int sim_mutex_unlock(void *m) {
    if (cur < 0) return 0;
    if (!mutexes.count(m) || mutexes[m].owner != curf) MISUSE("PE %d: a thread unlocks a mutex it does not hold", cur);
    mutexes[m].owner = -1;
    if (P.preempt && pe[cur].nthreads > 1 && rs.pct(50)) yield_();
    return 0;
}
int sim_mutex_init(void *m) {
    mutexes[m] = Mutex();
    dead_sync.erase(m);
    return 0;
}
int sim_mutex_destroy(void *m) {
    if (mutexes.count(m) && mutexes[m].owner >= 0) MISUSE("PE %d: a locked mutex is destroyed", cur);
    mutexes.erase(m);
    dead_sync.insert(m);
    return 0;
}
int sim_cond_init(void *c) {
    conds[c] = 0;
    dead_sync.erase(c);
    return 0;
}
int sim_cond_destroy(void *c) {
    conds.erase(c);
    dead_sync.insert(c);
    return 0;
}
int sim_cond_signal(void *c) {
    if (P.preempt && pe[cur].nthreads > 1 && rs.pct(50)) yield_();
    if (dead_sync.count(c)) MISUSE("PE %d: a destroyed condition variable is signalled", cur);
    conds[c]++;
    return 0;
}
int sim_cond_wait(void *c, void *m) {
    uint64_t k = conds[c];
    sim_mutex_unlock(m);
    if (!rs.pct(10)) tblock("pthread_cond_wait", [c, k] { return conds[c] > k; }); // else a spurious wake-up
    sim_mutex_lock(m);
    return 0;
}
int sim_thread_create(void *(*fn)(void *), void *arg) {
    int i = sim_spawn([fn, arg] { fn(arg); });
    fib[i].library = true;
    return i;
}
void sim_thread_join(int id) { sim_join(id); }
// a memory access of instrumented library code: the running thread may be preempted here
void sim_access() {
    if (curf < 0) return;
    Fiber &f = fib[curf];
    if (--f.fuel > 0) return;
    f.fuel = next_fuel();
    if (!P.preempt || pe[cur].nthreads < 2) return;
    step_++;
    yield_();
}
#define TSAN_RW(n)                                                                                                                                             \
    void __tsan_read##n(void *) { sim_access(); }                                                                                                              \
    void __tsan_write##n(void *) { sim_access(); }                                                                                                             \
    void __tsan_unaligned_read##n(void *) { sim_access(); }                                                                                                    \
    void __tsan_unaligned_write##n(void *) { sim_access(); }
TSAN_RW(1) TSAN_RW(2) TSAN_RW(4) TSAN_RW(8) TSAN_RW(16)
void __tsan_read_range(void *, size_t) { sim_access(); }
void __tsan_write_range(void *, size_t) { sim_access(); }
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define TSAN_AT(n, T)                                                                                                                                          \
    T __tsan_atomic##n##_load(const volatile T *p, int) { sim_access(); return *p; }                                                                           \
    void __tsan_atomic##n##_store(volatile T *p, T v, int) { sim_access(); *p = v; }                                                                           \
    T __tsan_atomic##n##_exchange(volatile T *p, T v, int) { sim_access(); T o = *p; *p = v; return o; }                                                       \
    T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int) { sim_access(); T o = *p; *p = o + v; return o; }                                                  \
    T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int) { sim_access(); T o = *p; *p = o - v; return o; }                                                  \
    T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int) { sim_access(); T o = *p; *p = o & v; return o; }                                                  \
    T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int) { sim_access(); T o = *p; *p = o | v; return o; }                                                   \
    T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int) { sim_access(); T o = *p; *p = o ^ v; return o; }                                                  \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) {                                                                       \
        sim_access();                                                                                                                                          \
        if (*p == *e) { *p = v; return 1; }                                                                                                                    \
        *e = *p;                                                                                                                                               \
        return 0;                                                                                                                                              \
    }                                                                                                                                                          \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T v, int a, int b) { return __tsan_atomic##n##_compare_exchange_strong(p, e, v, a, b); } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T e, T v, int a, int b) { __tsan_atomic##n##_compare_exchange_strong(p, &e, v, a, b); return e; }
TSAN_AT(8, uint8_t) TSAN_AT(16, uint16_t) TSAN_AT(32, uint32_t) TSAN_AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { sim_access(); }
void __tsan_atomic_signal_fence(int) {}
}

int sim_me() { return cur; }
uint64_t sim_calls(int p) {
    uint64_t n = 0;
    for (int i = 0; i < nfib; i++)
        if (fib[i].pe == p && !fib[i].library) n += fib[i].calls;
    return n;
}
uint64_t sim_now() { return ++clock_; }
const SimStats &sim_stats() { return stats_; }
bool sim_mpi_initialized(int p) { return pe[p].init; }
// live handles of a PE by kind: communicators, groups, windows, datatypes, requests, infos
std::vector<std::pair<char *, long>> sim_exposed(int p) {
    std::vector<std::pair<char *, long>> r;
    for (void *h : live_handles[p]) {
        if (*(unsigned *)h != MAG_W) continue;
        WinObj *w = (WinObj *)((sim_win_h *)h)->obj;
        WinPE &m = w->pe[w->comm->rank_of[p]];
        if (m.freed) continue;
        if (m.base && m.size) r.push_back({m.base, (long)m.size});
        for (auto &d : m.dyn) r.push_back({d.first, (long)d.second});
    }
    return r;
}
void sim_live(int p, int n[6]) {
    for (int i = 0; i < 6; i++) n[i] = 0;
    for (void *h : live_handles[p]) {
        unsigned m = *(unsigned *)h;
        if (m == MAG_C) n[0]++;
        if (m == MAG_G) n[1]++;
        if (m == MAG_W) n[2]++;
        if (m == MAG_T) n[3]++;
        if (m == MAG_R) n[4]++;
        if (m == MAG_I) n[5]++;
    }
}
bool sim_mpi_finalized(int p) { return pe[p].fini; }
void sim_progress_mark() { progress(); }
void sim_api_mark() { last_api = step_; }
void sim_pause(int n) {
    for (int i = 0; i < n; i++) {
        step_++;
        hang_check();
        if (rd.pct(rescue() ? 50 : P.bg_pct)) bg_step();
        yield_();
    }
}
void sim_attach_pe(int i, void *dl) {
    PEState &s = pe[i];
    auto get = [&](const char *n) {
        void *p = dlsym(dl, n);
        if (!p) {
            fprintf(stderr, "simMPI: symbol %s missing in PE image\n", n);
            exit(3);
        }
        return p;
    };
    s.types = (sim_type_h *)get("sim_types");
    s.ops = (sim_op_h *)get("sim_ops");
    s.cworld = (sim_comm_h *)get("sim_comm_world");
    s.cself = (sim_comm_h *)get("sim_comm_self");
    s.cnull = (sim_comm_h *)get("sim_comm_null");
    s.gnull = (sim_group_h *)get("sim_group_null");
    s.gempty = (sim_group_h *)get("sim_group_empty");
    s.wnull = (sim_win_h *)get("sim_win_null");
    s.rnull = (sim_req_h *)get("sim_req_null");
    s.mnull = (sim_msg_h *)get("sim_msg_null");
    s.inull = (sim_info_h *)get("sim_info_null");
    s.ienv = (sim_info_h *)get("sim_info_env");
    s.enull = (sim_errh_h *)get("sim_errh_null");
    s.efatal = (sim_errh_h *)get("sim_errh_fatal");
    s.ereturn = (sim_errh_h *)get("sim_errh_return");
    s.in_place = (char *)get("sim_in_place");
    s.sti = (MPI_Status *)get("sim_status_ignore");
    s.stsi = (MPI_Status *)get("sim_statuses_ignore");
}
SimResult sim_run(const SimParams &p, const std::function<void(int)> &body) {
    SimResult res;
    P = p;
    result = &res;
    body_ = &body;
    init_types();
    rs.s = p.seed * 2 + 1;
    rd.s = p.seed * 2 + 0x1234567;
    vector<int> all;
    for (int i = 0; i < p.npes; i++) all.push_back(i);
    nfib = p.npes;
    worldcomm = new_comm(all);
    for (int i = 0; i < p.npes; i++) {
        selfcomm[i] = new_comm({i});
        make_fiber(i, i);
        fib[i].fuel = INT64_MAX;
    }
    running = true;
    vector<int> cand;
    int prev = -1;
    while (running) {
        cand.clear();
        bool alive = false;
        for (int i = 0; i < nfib; i++) {
            if (fib[i].done) continue;
            alive = true;
            if (!fib[i].blocked || fib[i].pred()) cand.push_back(i);
        }
        if (!alive) break;
        if (cand.empty()) {
            step_++;
            bool moved = false;
            cur = curf = -1;
            try {
                moved = bg_step();
            } catch (StopRun &) {
                break;
            }
            if (!moved) {
                string s = where();
                res.outcome = SIM_DEADLOCK;
                res.msg = "deadlock:" + s;
                break;
            }
            continue;
        }
        bool anyrun = false;
        for (int c : cand) anyrun |= !fib[c].done;
        (void)anyrun;
        curf = prev;
        int f = pick_fiber(cand);
        prev = f;
        curf = f;
        cur = fib[f].pe;
#if SIM_ASAN
        __sanitizer_start_switch_fiber(&main_fake, fib[f].stack + 4096, fib[f].stacksz);
        // makecontext fibers finish the switch in fiber_entry or switch_to_main
        swapcontext(&main_ctx, &fib[f].ctx);
        __sanitizer_finish_switch_fiber(main_fake, nullptr, nullptr);
#else
        swapcontext(&main_ctx, &fib[f].ctx);
#endif
        cur = curf = -1;
    }
    cur = curf = -1;
    running = false;
    // what is still in flight when every PE is done lands now
    if (res.outcome == SIM_OK) {
        try {
            while (bg_step()) {}
        } catch (StopRun &) {
        }
    }
    res.steps = step_;
    res.events = nevents;
    res.switches = nswitch;
    result = nullptr;
    return res;
}

// ================================================================ MPI entry points
#define ENTER() enter(__func__)
extern "C" {
int MPI_Init_thread(int *, char ***, int req, int *prov) {
    enter(__func__, false);
    if (pe[cur].init) MISUSE("MPI initialised twice");
    pe[cur].init = true;
    pe[cur].main_thread = curf;
    pe[cur].tlevel = std::min(P.provided, std::max(req, 0));
    if (P.provided > req && (P.seed & 1)) pe[cur].tlevel = P.provided; // may provide more than asked for
    if (prov) *prov = pe[cur].tlevel;
    // collective: nobody leaves before all have joined is not required; a weak barrier is enough
    return 0;
}
int MPI_Init(int *a, char ***b) {
    int p;
    return MPI_Init_thread(a, b, 0, &p);
}
int MPI_Initialized(int *f) {
    *f = pe[cur].init;
    return 0;
}
int MPI_Finalized(int *f) {
    *f = pe[cur].fini;
    return 0;
}
int MPI_Query_thread(int *p) {
    ENTER();
    *p = pe[cur].tlevel;
    return 0;
}
int MPI_Is_thread_main(int *f) {
    *f = 1;
    return 0;
}
int MPI_Abort(MPI_Comm, int code) {
    if (cur < 0) abort();
    exit_code = code;
    stop_run(SIM_ABORT, "MPI_Abort(%d) called by PE %d", code, cur);
}
void sim_process_exit(int code) {
    if (cur < 0) abort();
    exit_code = code;
    stop_run(SIM_ABORT, "process of PE %d ended with exit(%d)", cur, code);
}
double MPI_Wtime(void) { return 1e-6 * (double)++clock_; }
double MPI_Wtick(void) { return 1e-6; }
int MPI_Get_processor_name(char *n, int *l) {
    strcpy(n, "sim");
    *l = 3;
    return 0;
}
int MPI_Get_version(int *a, int *b) {
    *a = 3;
    *b = 1;
    return 0;
}
int MPI_Get_library_version(char *s, int *l) {
    strcpy(s, "simMPI");
    *l = 6;
    return 0;
}
int MPI_Get_address(const void *p, MPI_Aint *a) {
    *a = (MPI_Aint)p;
    return 0;
}
int MPI_Address(void *p, MPI_Aint *a) {
    *a = (MPI_Aint)p;
    return 0;
}
MPI_Aint MPI_Aint_add(MPI_Aint a, MPI_Aint b) { return a + b; }
MPI_Aint MPI_Aint_diff(MPI_Aint a, MPI_Aint b) { return a - b; }
int MPI_Alloc_mem(MPI_Aint n, MPI_Info, void *p) {
    ENTER();
    *(void **)p = malloc(n ? n : 1);
    return 0;
}
int MPI_Free_mem(void *p) {
    ENTER();
    free(p);
    return 0;
}
int MPI_Error_string(int c, char *s, int *l) {
    *l = sprintf(s, "error %d", c);
    return 0;
}
int MPI_Error_class(int c, int *k) {
    *k = c;
    return 0;
}
int MPI_Pcontrol(const int, ...) { return 0; }

// ---- info
int MPI_Info_create(MPI_Info *i) {
    ENTER();
    auto *h = new sim_info_h{MAG_I, cur, new InfoObj};
    live_handles[cur].insert(h);
    *i = h;
    return 0;
}
int MPI_Info_dup(MPI_Info i, MPI_Info *o) {
    ENTER();
    auto *h = new sim_info_h{MAG_I, cur, new InfoObj(*I(i, __func__))};
    live_handles[cur].insert(h);
    *o = h;
    return 0;
}
int MPI_Info_set(MPI_Info i, const char *k, const char *v) {
    ENTER();
    if (i == pe[cur].inull) MISUSE("MPI_Info_set on MPI_INFO_NULL");
    if (strlen(k) >= MPI_MAX_INFO_KEY || strlen(v) >= MPI_MAX_INFO_VAL) MISUSE("info key or value too long");
    (*I(i, __func__))[k] = v;
    return 0;
}
int MPI_Info_get(MPI_Info i, const char *k, int n, char *v, int *f) {
    ENTER();
    auto *o = I(i, __func__);
    auto it = o->find(k);
    *f = it != o->end();
    if (*f) {
        strncpy(v, it->second.c_str(), n);
        v[n] = 0;
    }
    return 0;
}
int MPI_Info_get_valuelen(MPI_Info i, const char *k, int *n, int *f) {
    ENTER();
    auto *o = I(i, __func__);
    auto it = o->find(k);
    *f = it != o->end();
    if (*f) *n = (int)it->second.size();
    return 0;
}
int MPI_Info_get_nkeys(MPI_Info i, int *n) {
    ENTER();
    *n = (int)I(i, __func__)->size();
    return 0;
}
int MPI_Info_get_nthkey(MPI_Info i, int n, char *k) {
    ENTER();
    auto *o = I(i, __func__);
    auto it = o->begin();
    std::advance(it, n);
    strcpy(k, it->first.c_str());
    return 0;
}
int MPI_Info_delete(MPI_Info i, const char *k) {
    ENTER();
    I(i, __func__)->erase(k);
    return 0;
}
int MPI_Info_free(MPI_Info *i) {
    ENTER();
    I(*i, __func__);
    live_handles[cur].erase(*i);
    *i = pe[cur].inull;
    return 0;
}

// ---- collectives machinery
} // extern "C"
namespace {
struct CollState {
    string name;
    int root = -1;
    int arrived = 0;
    int left = 0;
    vector<char> here;
    vector<vector<char>> data;            // contribution of each rank (packed)
    vector<vector<size_t>> offs;          // per destination offsets into data (v-variants)
    vector<size_t> nbytes;                // per rank figure used for consistency checks
    int op = 0, basic = 0;
    std::shared_ptr<void> obj;            // created object
    vector<long> ival;                    // per-rank integers
    uint64_t key = 0;
};
// state for the next collective of the calling rank on c
CollState *coll_join(CommObj *c, const char *name, int root, uint64_t *seqout = nullptr) {
    int r = myrank(c);
    if (r < 0) MISUSE("%s: caller is not in the communicator", name);
    uint64_t s = c->seq[r]++;
    CollState *&st = c->colls[s];
    if (!st) {
        st = new CollState;
        st->name = name;
        st->root = root;
        size_t n = c->members.size();
        st->here.assign(n, 0);
        st->data.resize(n);
        st->offs.resize(n);
        st->nbytes.assign(n, 0);
        st->ival.assign(n, 0);
        st->key = s;
    }
    string a = st->name, b = name;
    auto canon = [](string x) {
        if (x.compare(0, 5, "MPI_I") == 0 && islower(x[5])) {
            x = "MPI_" + x.substr(5);
            x[4] = toupper(x[4]);
        }
        return x;
    };
    if (a != b) MISUSE("collective mismatch on one communicator: %s and %s%s", a.c_str(), b.c_str(),
                       canon(a) == canon(b) ? " (blocking and nonblocking calls do not match)" : "");
    if (st->root != root) MISUSE("%s: different roots %d and %d", name, st->root, root);
    stats_.colls++;
    if (seqout) *seqout = s;
    return st;
}
void coll_arrive(CollState *s, int r) {
    s->here[r] = 1;
    s->arrived++;
    progress();
}
bool coll_all(CommObj *c, CollState *s) { return s->arrived == (int)c->members.size(); }
void coll_leave(CommObj *c, CollState *s) {
    if (++s->left == (int)c->members.size()) {
        c->colls.erase(s->key);
        delete s;
    }
}
struct CollOp {
    CommObj *c;
    CollState *s;
    std::function<bool()> ready;
    std::function<void()> finish;
};
int run_coll(CollOp op, MPI_Request *req) {
    CommObj *c = op.c;
    CollState *s = op.s;
    std::function<bool()> rdy = op.ready;
    if (P.coll_sync) rdy = [c, s]() { return coll_all(c, s); };
    auto fin = op.finish;
    auto finish = [c, s, fin]() {
        fin();
        progress();
        coll_leave(c, s);
    };
    if (!req) {
        block_until(rdy);
        finish();
        return 0;
    }
    Req *r = new_req(RQ_COLL);
    r->ready = rdy;
    r->finish = finish;
    *req = req_handle(r);
    return 0;
}
bool inplace(const void *p) { return p == pe[cur].in_place; }

int do_barrier(const char *fn, MPI_Comm ch, MPI_Request *q) {
    CommObj *c = C(ch, fn);
    CollState *s = coll_join(c, fn, -1);
    coll_arrive(s, myrank(c));
    return run_coll({c, s, [=] { return coll_all(c, s); }, [] {}}, q);
}
int do_bcast(const char *fn, void *buf, int n, MPI_Datatype d, int root, MPI_Comm ch, MPI_Request *q) {
    CommObj *c = C(ch, fn);
    if (root < 0 || root >= (int)c->members.size()) MISUSE("%s: invalid root %d in a communicator of size %zu", fn, root, c->members.size());
    if (n < 0) MISUSE("%s: negative count", fn);
    TD t = Tz(d, n, fn);
    CollState *s = coll_join(c, fn, root);
    int r = myrank(c);
    if (r == root) pack((char *)buf, n, t, s->data[r]);
    coll_arrive(s, r);
    return run_coll({c, s, [=] { return (bool)s->here[root]; },
                     [=] {
                         if (r == root) return;
                         if (s->data[root].size() != total(t, n))
                             MISUSE("%s: root sends %zu bytes, rank %d receives %zu", fn, s->data[root].size(), r, total(t, n));
                         unpack(s->data[root].data(), s->data[root].size(), (char *)buf, n, t);
                     }},
                    q);
}
void reduce_all(CollState *s, vector<char> &out, size_t upto) {
    out = s->data[0];
    for (size_t i = 1; i < upto; i++) reduce(s->op, s->basic, out.data(), s->data[i].data(), out.size() / tsize[s->basic]);
}
// kind 0 allreduce, 1 reduce, 2 scan, 3 exscan, 4 reduce_scatter_block
int do_reduce(const char *fn, int kind, const void *sb, void *rb, int n, MPI_Datatype d, MPI_Op oh, int root, MPI_Comm ch, MPI_Request *q) {
    CommObj *c = C(ch, fn);
    if (n < 0) MISUSE("%s: negative count", fn);
    TD t = Tz(d, n, fn);
    int op = O(oh, fn);
    if (op >= 13) MISUSE("%s: MPI_REPLACE/MPI_NO_OP are not reduction operations for collectives", fn);
    if (t->basic < 0) MISUSE("%s: mixed datatype in a reduction", fn);
    CollState *s = coll_join(c, fn, root);
    int r = myrank(c), N = (int)c->members.size();
    if (s->arrived && (s->op != op || s->basic != t->basic)) MISUSE("%s: ranks disagree on operation or datatype", fn);
    s->op = op;
    s->basic = t->basic;
    int cnt = kind == 4 ? n * N : n;
    if (!inplace(sb) && rb && n > 0 && (kind != 1 || r == root)) {
        MPI_Aint l, h;
        span(t, cnt, l, h);
        const char *a = (const char *)sb, *b = (const char *)rb;
        if (a + l < b + h && b + l < a + h) MISUSE("%s: send and receive buffers alias", fn);
    }
    pack((const char *)(inplace(sb) ? rb : sb), cnt, t, s->data[r]);
    for (int i = 0; i < N; i++)
        if (s->here[i] && s->data[i].size() != s->data[r].size()) MISUSE("%s: ranks disagree on the count", fn);
    coll_arrive(s, r);
    auto ready = [=] {
        if (kind == 1 && r != root) return true;
        if (kind == 2 || kind == 3) {
            for (int i = 0; i < r; i++)
                if (!s->here[i]) return false;
            return true;
        }
        return coll_all(c, s);
    };
    auto fin = [=] {
        vector<char> out;
        if (kind == 1 && r != root) return;
        if (kind == 3 && r == 0) return;
        reduce_all(s, out, kind == 2 ? r + 1 : kind == 3 ? r : N);
        if (kind == 4) {
            size_t b = total(t, n);
            unpack(out.data() + b * r, b, (char *)rb, n, t);
        } else
            unpack(out.data(), out.size(), (char *)rb, n, t);
    };
    return run_coll({c, s, ready, fin}, q);
}
// gather-like: kind 0 allgather, 1 gather
int do_gather(const char *fn, int kind, const void *sb, int sn, MPI_Datatype sd, void *rb, int rn, const int *rns, const int *disp,
              MPI_Datatype rd_, int root, MPI_Comm ch, MPI_Request *q) {
    CommObj *c = C(ch, fn);
    int r = myrank(c), N = (int)c->members.size();
    bool recv = kind == 0 || r == root;
    if (sn < 0 || rn < 0) MISUSE("%s: negative count", fn);
    CollState *s = coll_join(c, fn, root);
    TD rt = recv ? Tz(rd_, rns ? 1 : rn, fn) : basic_td[4];
    vector<int> cn(N), dp(N);
    if (recv)
        for (int i = 0; i < N; i++) {
            cn[i] = rns ? rns[i] : rn;
            dp[i] = rns ? disp[i] : i * rn;
            if (cn[i] < 0) MISUSE("%s: negative count", fn);
        }
    if (inplace(sb)) pack((char *)rb + (MPI_Aint)dp[r] * rt->extent, cn[r], rt, s->data[r]);
    else pack((const char *)sb, sn, Tz(sd, sn, fn), s->data[r]);
    coll_arrive(s, r);
    auto ready = [=] { return recv ? coll_all(c, s) : true; };
    auto fin = [=] {
        if (!recv) return;
        for (int i = 0; i < N; i++) {
            if (s->data[i].size() != total(rt, cn[i]))
                MISUSE("%s: rank %d sends %zu bytes, rank %d expects %zu", fn, i, s->data[i].size(), r, total(rt, cn[i]));
            unpack(s->data[i].data(), s->data[i].size(), (char *)rb + (MPI_Aint)dp[i] * rt->extent, cn[i], rt);
        }
    };
    return run_coll({c, s, ready, fin}, q);
}
int do_scatter(const char *fn, const void *sb, int sn, const int *sns, const int *disp, MPI_Datatype sd, void *rb, int rn, MPI_Datatype rd_,
               int root, MPI_Comm ch, MPI_Request *q) {
    CommObj *c = C(ch, fn);
    int r = myrank(c), N = (int)c->members.size();
    CollState *s = coll_join(c, fn, root);
    if (r == root) {
        TD st = Tz(sd, sns ? 1 : sn, fn);
        s->offs[r].push_back(0);
        for (int i = 0; i < N; i++) {
            vector<char> x;
            int cn = sns ? sns[i] : sn, d = sns ? disp[i] : i * sn;
            pack((const char *)sb + (MPI_Aint)d * st->extent, cn, st, x);
            s->data[r].insert(s->data[r].end(), x.begin(), x.end());
            s->offs[r].push_back(s->data[r].size());
        }
    }
    coll_arrive(s, r);
    bool skip = inplace(rb);
    TD rt = skip ? basic_td[4] : Tz(rd_, rn, fn);
    return run_coll({c, s, [=] { return (bool)s->here[root]; },
                     [=] {
                         if (skip) return;
                         size_t b = s->offs[root][r + 1] - s->offs[root][r];
                         if (b != total(rt, rn)) MISUSE("%s: count mismatch", fn);
                         unpack(s->data[root].data() + s->offs[root][r], b, (char *)rb, rn, rt);
                     }},
                    q);
}
int do_alltoall(const char *fn, const void *sb, int sn, const int *sns, const int *sdp, MPI_Datatype sd, void *rb, int rn, const int *rns,
                const int *rdp, MPI_Datatype rd_, MPI_Comm ch, MPI_Request *q) {
    CommObj *c = C(ch, fn);
    int r = myrank(c), N = (int)c->members.size();
    CollState *s = coll_join(c, fn, -1);
    TD rt = Tz(rd_, rns ? 1 : rn, fn);
    bool ip = inplace(sb);
    TD st = ip ? rt : Tz(sd, sns ? 1 : sn, fn);
    const char *src = (const char *)(ip ? rb : sb);
    if (ip) {
        sn = rn;
        sns = rns;
        sdp = rdp;
    }
    s->offs[r].push_back(0);
    for (int i = 0; i < N; i++) {
        vector<char> x;
        int cn = sns ? sns[i] : sn, d = sns ? sdp[i] : i * sn;
        if (cn < 0) MISUSE("%s: negative count", fn);
        pack(src + (MPI_Aint)d * st->extent, cn, st, x);
        s->data[r].insert(s->data[r].end(), x.begin(), x.end());
        s->offs[r].push_back(s->data[r].size());
    }
    vector<int> cn(N), dp(N);
    for (int i = 0; i < N; i++) {
        cn[i] = rns ? rns[i] : rn;
        dp[i] = rns ? rdp[i] : i * rn;
    }
    coll_arrive(s, r);
    return run_coll({c, s, [=] { return coll_all(c, s); },
                     [=] {
                         for (int i = 0; i < N; i++) {
                             size_t o = s->offs[i][r], b = s->offs[i][r + 1] - o;
                             if (b != total(rt, cn[i]))
                                 MISUSE("%s: rank %d sends %zu bytes, rank %d expects %zu", fn, i, b, r, total(rt, cn[i]));
                             unpack(s->data[i].data() + o, b, (char *)rb + (MPI_Aint)dp[i] * rt->extent, cn[i], rt);
                         }
                     }},
                    q);
}
// collective creation of an object on communicator c
template <class X> X *collective_create(CommObj *c, const char *fn, const std::function<X *(CollState *)> &make, const std::function<void(CollState *)> &add) {
    CollState *s = coll_join(c, fn, -1);
    int r = myrank(c);
    add(s);
    coll_arrive(s, r);
    block_until([=] { return coll_all(c, s); });
    if (!s->obj) s->obj = std::shared_ptr<void>((void *)make(s), [](void *) {});
    X *x = (X *)s->obj.get();
    coll_leave(c, s);
    progress();
    return x;
}
} // namespace

extern "C" {
int MPI_Finalize(void) {
    ENTER();
    CollState *s = coll_join(worldcomm, "MPI_Finalize", -1);
    coll_arrive(s, myrank(worldcomm));
    block_until([=] { return coll_all(worldcomm, s); });
    coll_leave(worldcomm, s);
    if (!pe[cur].unexpected.empty()) MISUSE("MPI_Finalize: a message of PE %d was never received", pe[cur].unexpected.front()->src);
    for (auto &c : chans)
        for (Msg *m : c.second.q)
            if (m->dst == cur) MISUSE("MPI_Finalize: a message of PE %d was never received", m->src);
    pe[cur].fini = true;
    return 0;
}
int MPI_Barrier(MPI_Comm c) { ENTER(); return do_barrier(__func__, c, nullptr); }
int MPI_Ibarrier(MPI_Comm c, MPI_Request *q) { ENTER(); return do_barrier(__func__, c, q); }
int MPI_Bcast(void *b, int n, MPI_Datatype d, int r, MPI_Comm c) { ENTER(); return do_bcast(__func__, b, n, d, r, c, nullptr); }
int MPI_Ibcast(void *b, int n, MPI_Datatype d, int r, MPI_Comm c, MPI_Request *q) { ENTER(); return do_bcast(__func__, b, n, d, r, c, q); }
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op o, int root, MPI_Comm c) { ENTER(); return do_reduce(__func__, 1, s, r, n, d, o, root, c, nullptr); }
int MPI_Ireduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op o, int root, MPI_Comm c, MPI_Request *q) { ENTER(); return do_reduce(__func__, 1, s, r, n, d, o, root, c, q); }
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op o, MPI_Comm c) { ENTER(); return do_reduce(__func__, 0, s, r, n, d, o, -1, c, nullptr); }
int MPI_Iallreduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op o, MPI_Comm c, MPI_Request *q) { ENTER(); return do_reduce(__func__, 0, s, r, n, d, o, -1, c, q); }
int MPI_Scan(const void *s, void *r, int n, MPI_Datatype d, MPI_Op o, MPI_Comm c) { ENTER(); return do_reduce(__func__, 2, s, r, n, d, o, -1, c, nullptr); }
int MPI_Exscan(const void *s, void *r, int n, MPI_Datatype d, MPI_Op o, MPI_Comm c) { ENTER(); return do_reduce(__func__, 3, s, r, n, d, o, -1, c, nullptr); }
int MPI_Reduce_scatter_block(const void *s, void *r, int n, MPI_Datatype d, MPI_Op o, MPI_Comm c) { ENTER(); return do_reduce(__func__, 4, s, r, n, d, o, -1, c, nullptr); }
int MPI_Allgather(const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rdt, MPI_Comm c) { ENTER(); return do_gather(__func__, 0, s, sn, sd, r, rn, nullptr, nullptr, rdt, -1, c, nullptr); }
int MPI_Iallgather(const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rdt, MPI_Comm c, MPI_Request *q) { ENTER(); return do_gather(__func__, 0, s, sn, sd, r, rn, nullptr, nullptr, rdt, -1, c, q); }
int MPI_Allgatherv(const void *s, int sn, MPI_Datatype sd, void *r, const int *rn, const int *dp, MPI_Datatype rdt, MPI_Comm c) { ENTER(); return do_gather(__func__, 0, s, sn, sd, r, 0, rn, dp, rdt, -1, c, nullptr); }
int MPI_Iallgatherv(const void *s, int sn, MPI_Datatype sd, void *r, const int *rn, const int *dp, MPI_Datatype rdt, MPI_Comm c, MPI_Request *q) { ENTER(); return do_gather(__func__, 0, s, sn, sd, r, 0, rn, dp, rdt, -1, c, q); }
int MPI_Gather(const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rdt, int root, MPI_Comm c) { ENTER(); return do_gather(__func__, 1, s, sn, sd, r, rn, nullptr, nullptr, rdt, root, c, nullptr); }
int MPI_Igather(const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rdt, int root, MPI_Comm c, MPI_Request *q) { ENTER(); return do_gather(__func__, 1, s, sn, sd, r, rn, nullptr, nullptr, rdt, root, c, q); }
int MPI_Gatherv(const void *s, int sn, MPI_Datatype sd, void *r, const int *rn, const int *dp, MPI_Datatype rdt, int root, MPI_Comm c) { ENTER(); return do_gather(__func__, 1, s, sn, sd, r, 0, rn, dp, rdt, root, c, nullptr); }
int MPI_Igatherv(const void *s, int sn, MPI_Datatype sd, void *r, const int *rn, const int *dp, MPI_Datatype rdt, int root, MPI_Comm c, MPI_Request *q) { ENTER(); return do_gather(__func__, 1, s, sn, sd, r, 0, rn, dp, rdt, root, c, q); }
int MPI_Scatter(const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rdt, int root, MPI_Comm c) { ENTER(); return do_scatter(__func__, s, sn, nullptr, nullptr, sd, r, rn, rdt, root, c, nullptr); }
int MPI_Iscatter(const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rdt, int root, MPI_Comm c, MPI_Request *q) { ENTER(); return do_scatter(__func__, s, sn, nullptr, nullptr, sd, r, rn, rdt, root, c, q); }
int MPI_Scatterv(const void *s, const int *sn, const int *dp, MPI_Datatype sd, void *r, int rn, MPI_Datatype rdt, int root, MPI_Comm c) { ENTER(); return do_scatter(__func__, s, 0, sn, dp, sd, r, rn, rdt, root, c, nullptr); }
int MPI_Alltoall(const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rdt, MPI_Comm c) { ENTER(); return do_alltoall(__func__, s, sn, nullptr, nullptr, sd, r, rn, nullptr, nullptr, rdt, c, nullptr); }
int MPI_Ialltoall(const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rdt, MPI_Comm c, MPI_Request *q) { ENTER(); return do_alltoall(__func__, s, sn, nullptr, nullptr, sd, r, rn, nullptr, nullptr, rdt, c, q); }
int MPI_Alltoallv(const void *s, const int *sn, const int *sp, MPI_Datatype sd, void *r, const int *rn, const int *rp, MPI_Datatype rdt, MPI_Comm c) { ENTER(); return do_alltoall(__func__, s, 0, sn, sp, sd, r, 0, rn, rp, rdt, c, nullptr); }
int MPI_Ialltoallv(const void *s, const int *sn, const int *sp, MPI_Datatype sd, void *r, const int *rn, const int *rp, MPI_Datatype rdt, MPI_Comm c, MPI_Request *q) { ENTER(); return do_alltoall(__func__, s, 0, sn, sp, sd, r, 0, rn, rp, rdt, c, q); }

// ---- groups and communicators
int MPI_Comm_size(MPI_Comm c, int *n) { ENTER(); *n = (int)C(c, __func__)->members.size(); return 0; }
int MPI_Comm_rank(MPI_Comm c, int *n) { ENTER(); *n = myrank(C(c, __func__)); return 0; }
int MPI_Comm_dup(MPI_Comm ch, MPI_Comm *o) {
    ENTER();
    CommObj *c = C(ch, __func__);
    CommObj *n = collective_create<CommObj>(c, __func__, [=](CollState *) { return new_comm(c->members); }, [](CollState *) {});
    *o = comm_handle(n);
    return 0;
}
int MPI_Comm_dup_with_info(MPI_Comm c, MPI_Info, MPI_Comm *o) { return MPI_Comm_dup(c, o); }
int MPI_Comm_idup(MPI_Comm c, MPI_Comm *o, MPI_Request *q) {
    *q = pe[cur].rnull;
    return MPI_Comm_dup(c, o);
}
static int comm_split(const char *fn, MPI_Comm ch, int color, int key, MPI_Comm *o) {
    CommObj *c = C(ch, fn);
    if (color < 0 && color != MPI_UNDEFINED) MISUSE("%s: invalid color %d", fn, color);
    struct SplitRes { map<long, CommObj *> by; vector<long> col; };
    int r = myrank(c);
    auto *res = collective_create<SplitRes>(
        c, fn,
        [=](CollState *s) {
            auto *x = new SplitRes;
            std::map<long, vector<std::tuple<long, int>>> g;
            for (size_t i = 0; i < c->members.size(); i++) {
                long col = s->ival[i];
                x->col.push_back(col);
                if (col != MPI_UNDEFINED) g[col].push_back({(long)s->nbytes[i], (int)i});
            }
            for (auto &kv : g) {
                std::sort(kv.second.begin(), kv.second.end());
                vector<int> m;
                for (auto &t : kv.second) m.push_back(c->members[std::get<1>(t)]);
                x->by[kv.first] = new_comm(m);
            }
            return x;
        },
        [=](CollState *s) {
            s->ival[r] = color;
            s->nbytes[r] = (size_t)((long)key + (1L << 32));
        });
    *o = color == MPI_UNDEFINED ? pe[cur].cnull : comm_handle(res->by[color]);
    return 0;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *o) { ENTER(); return comm_split(__func__, c, color, key, o); }
int MPI_Comm_split_type(MPI_Comm c, int type, int key, MPI_Info, MPI_Comm *o) {
    ENTER();
    return comm_split(__func__, c, type == MPI_UNDEFINED ? MPI_UNDEFINED : P.node[cur], key, o);
}
int MPI_Comm_create(MPI_Comm ch, MPI_Group g, MPI_Comm *o) {
    ENTER();
    CommObj *c = C(ch, __func__);
    GroupObj m = *G(g, __func__);
    struct CR { map<GroupObj, CommObj *> by; };
    auto *res = collective_create<CR>(c, __func__, [=](CollState *) { return new CR; }, [](CollState *) {});
    if (std::find(m.begin(), m.end(), cur) == m.end()) {
        *o = pe[cur].cnull;
        return 0;
    }
    if (!res->by[m]) res->by[m] = new_comm(m);
    *o = comm_handle(res->by[m]);
    return 0;
}
struct CgState { int arrived = 0; CommObj *comm = nullptr; };
static map<std::pair<string, uint64_t>, CgState> cg_states;
static map<std::pair<string, int>, uint64_t> cg_seq;
int MPI_Comm_create_group(MPI_Comm ch, MPI_Group g, int tag, MPI_Comm *o) {
    ENTER();
    CommObj *c = C(ch, __func__);
    GroupObj m = *G(g, __func__);
    if (tag < 0 || tag > P.tag_ub) MISUSE("%s: invalid tag %d", __func__, tag);
    if (m.empty() || std::find(m.begin(), m.end(), cur) == m.end()) MISUSE("MPI_Comm_create_group called by a process outside the group");
    string key = std::to_string(c->id) + "/" + std::to_string(tag);
    for (int x : m) {
        if (c->rank_of[x] < 0) MISUSE("MPI_Comm_create_group: group member not in the communicator");
        key += "," + std::to_string(x);
    }
    uint64_t q = cg_seq[{key, cur}]++;
    CgState *s = &cg_states[{key, q}];
    s->arrived++;
    progress();
    size_t n = m.size();
    block_until([=] { return s->arrived == (int)n; });
    if (!s->comm) s->comm = new_comm(m);
    *o = comm_handle(s->comm);
    return 0;
}
int MPI_Comm_free(MPI_Comm *c) {
    ENTER();
    C(*c, __func__);
    if (*c == pe[cur].cworld || *c == pe[cur].cself) MISUSE("MPI_Comm_free on a predefined communicator");
    live_handles[cur].erase(*c);
    *c = pe[cur].cnull;
    return 0;
}
int MPI_Comm_disconnect(MPI_Comm *c) { return MPI_Comm_free(c); }
int MPI_Comm_group(MPI_Comm c, MPI_Group *g) { ENTER(); *g = group_handle(C(c, __func__)->members); return 0; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r) {
    ENTER();
    CommObj *x = C(a, __func__), *y = C(b, __func__);
    if (x == y) *r = MPI_IDENT;
    else if (x->members == y->members) *r = MPI_CONGRUENT;
    else {
        auto p = x->members, q = y->members;
        std::sort(p.begin(), p.end());
        std::sort(q.begin(), q.end());
        *r = p == q ? MPI_SIMILAR : MPI_UNEQUAL;
    }
    return 0;
}
static int attr_tag_ub[MAXPE], attr_misc[MAXPE];
int MPI_Comm_get_attr(MPI_Comm c, int k, void *v, int *f) {
    ENTER();
    C(c, __func__);
    *f = 1;
    attr_tag_ub[cur] = P.tag_ub;
    attr_misc[cur] = 0;
    if (k == MPI_TAG_UB) *(int **)v = &attr_tag_ub[cur];
    else if (k == MPI_UNIVERSE_SIZE || k == MPI_HOST || k == MPI_IO || k == MPI_WTIME_IS_GLOBAL || k == MPI_APPNUM || k == MPI_LASTUSEDCODE)
        *(int **)v = &attr_misc[cur];
    else *f = 0;
    return 0;
}
int MPI_Comm_set_attr(MPI_Comm, int, void *) { ENTER(); return 0; }
int MPI_Comm_create_keyval(MPI_Comm_copy_attr_function *, MPI_Comm_delete_attr_function *, int *k, void *) { ENTER(); *k = 5000; return 0; }
int MPI_Comm_free_keyval(int *k) { ENTER(); *k = MPI_KEYVAL_INVALID; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler) { ENTER(); C(c, __func__); return 0; }
int MPI_Comm_get_errhandler(MPI_Comm, MPI_Errhandler *e) { ENTER(); *e = pe[cur].efatal; return 0; }
int MPI_Comm_set_name(MPI_Comm, const char *) { ENTER(); return 0; }
int MPI_Comm_get_name(MPI_Comm, char *n, int *l) { ENTER(); n[0] = 0; *l = 0; return 0; }
int MPI_Comm_set_info(MPI_Comm, MPI_Info) { ENTER(); return 0; }
int MPI_Comm_get_info(MPI_Comm, MPI_Info *i) { return MPI_Info_create(i); }
int MPI_Comm_test_inter(MPI_Comm, int *f) { *f = 0; return 0; }
int MPI_Errhandler_free(MPI_Errhandler *e) { *e = pe[cur].enull; return 0; }
int MPI_Group_size(MPI_Group g, int *n) { ENTER(); *n = (int)G(g, __func__)->size(); return 0; }
int MPI_Group_rank(MPI_Group g, int *n) {
    ENTER();
    GroupObj *o = G(g, __func__);
    *n = MPI_UNDEFINED;
    for (size_t i = 0; i < o->size(); i++)
        if ((*o)[i] == cur) *n = (int)i;
    return 0;
}
int MPI_Group_incl(MPI_Group g, int n, const int *r, MPI_Group *out) {
    ENTER();
    GroupObj *o = G(g, __func__);
    GroupObj x;
    std::set<int> seen;
    for (int i = 0; i < n; i++) {
        if (r[i] < 0 || r[i] >= (int)o->size()) MISUSE("MPI_Group_incl: rank %d out of a group of size %zu", r[i], o->size());
        if (!seen.insert(r[i]).second) MISUSE("MPI_Group_incl: rank %d listed twice", r[i]);
        x.push_back((*o)[r[i]]);
    }
    *out = group_handle(x);
    return 0;
}
int MPI_Group_excl(MPI_Group g, int n, const int *r, MPI_Group *out) {
    ENTER();
    GroupObj *o = G(g, __func__);
    std::set<int> bad(r, r + n);
    GroupObj x;
    for (size_t i = 0; i < o->size(); i++)
        if (!bad.count((int)i)) x.push_back((*o)[i]);
    *out = group_handle(x);
    return 0;
}
int MPI_Group_range_incl(MPI_Group g, int n, int (*rg)[3], MPI_Group *out) {
    ENTER();
    GroupObj *o = G(g, __func__);
    GroupObj x;
    for (int i = 0; i < n; i++) {
        if (rg[i][2] == 0) MISUSE("MPI_Group_range_incl: zero stride");
        for (int k = rg[i][0]; rg[i][2] > 0 ? k <= rg[i][1] : k >= rg[i][1]; k += rg[i][2]) {
            if (k < 0 || k >= (int)o->size()) MISUSE("MPI_Group_range_incl: rank out of range");
            x.push_back((*o)[k]);
        }
    }
    *out = group_handle(x);
    return 0;
}
int MPI_Group_range_excl(MPI_Group g, int n, int (*rg)[3], MPI_Group *out) {
    ENTER();
    GroupObj *o = G(g, __func__);
    std::set<int> bad;
    for (int i = 0; i < n; i++)
        for (int k = rg[i][0]; rg[i][2] > 0 ? k <= rg[i][1] : k >= rg[i][1]; k += rg[i][2]) bad.insert(k);
    GroupObj x;
    for (size_t i = 0; i < o->size(); i++)
        if (!bad.count((int)i)) x.push_back((*o)[i]);
    *out = group_handle(x);
    return 0;
}
int MPI_Group_union(MPI_Group a, MPI_Group b, MPI_Group *o) {
    ENTER();
    GroupObj x = *G(a, __func__);
    for (int v : *G(b, __func__))
        if (std::find(x.begin(), x.end(), v) == x.end()) x.push_back(v);
    *o = group_handle(x);
    return 0;
}
int MPI_Group_intersection(MPI_Group a, MPI_Group b, MPI_Group *o) {
    ENTER();
    GroupObj *y = G(b, __func__), x;
    for (int v : *G(a, __func__))
        if (std::find(y->begin(), y->end(), v) != y->end()) x.push_back(v);
    *o = group_handle(x);
    return 0;
}
int MPI_Group_difference(MPI_Group a, MPI_Group b, MPI_Group *o) {
    ENTER();
    GroupObj *y = G(b, __func__), x;
    for (int v : *G(a, __func__))
        if (std::find(y->begin(), y->end(), v) == y->end()) x.push_back(v);
    *o = group_handle(x);
    return 0;
}
int MPI_Group_translate_ranks(MPI_Group a, int n, const int *r, MPI_Group b, int *out) {
    ENTER();
    GroupObj *x = G(a, __func__), *y = G(b, __func__);
    for (int i = 0; i < n; i++) {
        if (r[i] == MPI_PROC_NULL) {
            out[i] = MPI_PROC_NULL;
            continue;
        }
        if (r[i] < 0 || r[i] >= (int)x->size()) MISUSE("MPI_Group_translate_ranks: rank %d out of a group of size %zu", r[i], x->size());
        out[i] = MPI_UNDEFINED;
        for (size_t k = 0; k < y->size(); k++)
            if ((*y)[k] == (*x)[r[i]]) out[i] = (int)k;
    }
    return 0;
}
int MPI_Group_compare(MPI_Group a, MPI_Group b, int *r) {
    ENTER();
    GroupObj x = *G(a, __func__), y = *G(b, __func__);
    if (x == y) *r = MPI_IDENT;
    else {
        std::sort(x.begin(), x.end());
        std::sort(y.begin(), y.end());
        *r = x == y ? MPI_SIMILAR : MPI_UNEQUAL;
    }
    return 0;
}
int MPI_Group_free(MPI_Group *g) {
    ENTER();
    G(*g, __func__);
    live_handles[cur].erase(*g);
    *g = pe[cur].gnull;
    return 0;
}

// ---- datatypes
int MPI_Type_size(MPI_Datatype d, int *n) { ENTER(); *n = (int)T(d, __func__)->size; return 0; }
int MPI_Type_size_x(MPI_Datatype d, MPI_Count *n) { ENTER(); *n = (MPI_Count)T(d, __func__)->size; return 0; }
int MPI_Type_get_extent(MPI_Datatype d, MPI_Aint *lb, MPI_Aint *e) {
    ENTER();
    TD t = T(d, __func__);
    *lb = t->lb;
    *e = t->extent;
    return 0;
}
int MPI_Type_get_true_extent(MPI_Datatype d, MPI_Aint *lb, MPI_Aint *e) {
    ENTER();
    TD t = T(d, __func__);
    MPI_Aint l, h;
    span(t, 1, l, h);
    *lb = l;
    *e = h - l;
    return 0;
}
static TD compose(const vector<std::pair<MPI_Aint, TD>> &parts) {
    TD n(new TypeDesc);
    MPI_Aint lb = INTPTR_MAX, ub = INTPTR_MIN;
    n->basic = parts.empty() ? 4 : parts[0].second->basic;
    for (auto &p : parts) {
        for (auto &s : p.second->segs) {
            MPI_Aint o = p.first + s.first;
            if (!n->segs.empty() && n->segs.back().first + (MPI_Aint)n->segs.back().second == o) n->segs.back().second += s.second;
            else n->segs.push_back({o, s.second});
            n->size += s.second;
        }
        if (p.second->basic != n->basic) n->basic = -1;
        lb = std::min(lb, p.first + p.second->lb);
        ub = std::max(ub, p.first + p.second->lb + p.second->extent);
    }
    if (parts.empty()) lb = ub = 0;
    n->lb = lb;
    n->extent = ub - lb;
    return n;
}
int MPI_Type_contiguous(int c, MPI_Datatype d, MPI_Datatype *o) {
    ENTER();
    TD t = T(d, __func__);
    vector<std::pair<MPI_Aint, TD>> p;
    for (int i = 0; i < c; i++) p.push_back({i * t->extent, t});
    *o = new_type(compose(p));
    return 0;
}
int MPI_Type_create_hvector(int c, int b, MPI_Aint st, MPI_Datatype d, MPI_Datatype *o) {
    ENTER();
    if (c < 0 || b < 0) MISUSE("MPI_Type_vector: negative count or block length");
    TD t = T(d, __func__);
    vector<std::pair<MPI_Aint, TD>> p;
    for (int i = 0; i < c; i++)
        for (int k = 0; k < b; k++) p.push_back({i * st + k * t->extent, t});
    *o = new_type(compose(p));
    return 0;
}
int MPI_Type_vector(int c, int b, int st, MPI_Datatype d, MPI_Datatype *o) { return MPI_Type_create_hvector(c, b, st * T(d, __func__)->extent, d, o); }
int MPI_Type_create_hindexed(int c, const int *b, const MPI_Aint *dp, MPI_Datatype d, MPI_Datatype *o) {
    ENTER();
    TD t = T(d, __func__);
    vector<std::pair<MPI_Aint, TD>> p;
    for (int i = 0; i < c; i++)
        for (int k = 0; k < b[i]; k++) p.push_back({dp[i] + k * t->extent, t});
    *o = new_type(compose(p));
    return 0;
}
int MPI_Type_indexed(int c, const int *b, const int *dp, MPI_Datatype d, MPI_Datatype *o) {
    TD t = T(d, __func__);
    vector<MPI_Aint> x;
    for (int i = 0; i < c; i++) x.push_back(dp[i] * t->extent);
    return MPI_Type_create_hindexed(c, b, x.data(), d, o);
}
int MPI_Type_create_hindexed_block(int c, int b, const MPI_Aint *dp, MPI_Datatype d, MPI_Datatype *o) {
    vector<int> bl(c, b);
    return MPI_Type_create_hindexed(c, bl.data(), dp, d, o);
}
int MPI_Type_create_indexed_block(int c, int b, const int *dp, MPI_Datatype d, MPI_Datatype *o) {
    vector<int> bl(c, b);
    return MPI_Type_indexed(c, bl.data(), dp, d, o);
}
int MPI_Type_create_struct(int c, const int *b, const MPI_Aint *dp, const MPI_Datatype *d, MPI_Datatype *o) {
    ENTER();
    vector<std::pair<MPI_Aint, TD>> p;
    for (int i = 0; i < c; i++) {
        TD t = T(d[i], __func__);
        for (int k = 0; k < b[i]; k++) p.push_back({dp[i] + k * t->extent, t});
    }
    *o = new_type(compose(p));
    return 0;
}
int MPI_Type_create_resized(MPI_Datatype d, MPI_Aint lb, MPI_Aint e, MPI_Datatype *o) {
    ENTER();
    TD n(new TypeDesc(*T(d, __func__)));
    n->lb = lb;
    n->extent = e;
    *o = new_type(n);
    return 0;
}
int MPI_Type_dup(MPI_Datatype d, MPI_Datatype *o) { ENTER(); *o = new_type(T(d, __func__)); return 0; }
int MPI_Type_commit(MPI_Datatype *d) { ENTER(); T(*d, __func__); return 0; }
int MPI_Type_free(MPI_Datatype *d) {
    ENTER();
    int i;
    if (is_basic_handle(*d, i)) MISUSE("MPI_Type_free on a predefined datatype");
    T(*d, __func__);
    live_handles[cur].erase(*d);
    *d = &pe[cur].types[0];
    return 0;
}
int MPI_Op_create(MPI_User_function *, int, MPI_Op *) { MISUSE("MPI_Op_create is not simulated"); }
int MPI_Op_free(MPI_Op *) { MISUSE("MPI_Op_free is not simulated"); }
int MPI_Reduce_local(const void *a, void *b, int n, MPI_Datatype d, MPI_Op o) {
    ENTER();
    TD t = T(d, __func__);
    vector<char> x, y;
    pack((const char *)a, n, t, x);
    pack((const char *)b, n, t, y);
    reduce(O(o, __func__), t->basic, x.data(), y.data(), x.size() / tsize[t->basic]);
    unpack(x.data(), x.size(), (char *)b, n, t);
    return 0;
}
int MPI_Pack(const void *b, int n, MPI_Datatype d, void *o, int, int *pos, MPI_Comm) {
    ENTER();
    vector<char> x;
    pack((const char *)b, n, T(d, __func__), x);
    memcpy((char *)o + *pos, x.data(), x.size());
    *pos += (int)x.size();
    return 0;
}
int MPI_Unpack(const void *b, int, int *pos, void *o, int n, MPI_Datatype d, MPI_Comm) {
    ENTER();
    TD t = T(d, __func__);
    unpack((const char *)b + *pos, total(t, n), (char *)o, n, t);
    *pos += (int)total(t, n);
    return 0;
}
int MPI_Pack_size(int n, MPI_Datatype d, MPI_Comm, int *s) { ENTER(); *s = (int)total(T(d, __func__), n); return 0; }
} // extern "C"

// ---- point to point
namespace {
void start_send(const char *fn, const void *b, int n, MPI_Datatype d, int dst, int tag, CommObj *c, Req *r, bool sync, bool buffered) {
    if (n < 0) MISUSE("%s: negative count", fn);
    TD t = Tz(d, n, fn);
    if (dst == MPI_PROC_NULL) {
        r->done = true;
        return;
    }
    if (dst < 0 || dst >= (int)c->members.size()) MISUSE("%s: invalid destination rank %d", fn, dst);
    if (tag < 0 || tag > P.tag_ub) MISUSE("%s: invalid tag %d (MPI_TAG_UB is %d)", fn, tag, P.tag_ub);
    stats_.sends++;
    stats_.maxtag = std::max(stats_.maxtag, (uint64_t)tag);
    auto *m = new Msg;
    m->comm = c;
    m->src = cur;
    m->dst = c->members[dst];
    m->tag = tag;
    m->bytes = total(t, n);
    m->birth = step_;
    m->eager = buffered || (!sync && (int)m->bytes <= P.eager);
    if (m->eager) pack((const char *)b, n, t, m->data);
    else {
        m->buf = b;
        m->count = n;
        m->type = t;
    }
    if (m->eager && !sync) r->done = true;
    else m->sreq = r;
    auto key = std::make_tuple(c->id, m->src, m->dst);
    auto it = chans.find(key);
    if (it == chans.end()) {
        it = chans.emplace(key, Chan()).first;
        chan_list.push_back(&it->second);
    }
    it->second.q.push_back(m);
    inflight++;
}
void start_recv(const char *fn, void *b, int n, MPI_Datatype d, int src, int tag, CommObj *c, Req *r) {
    if (n < 0) MISUSE("%s: negative count", fn);
    r->buf = b;
    r->count = n;
    r->type = Tz(d, n, fn);
    r->src = src;
    r->tag = tag;
    r->comm = c;
    stats_.recvs++;
    if (src == MPI_PROC_NULL) {
        r->done = true;
        r->st.MPI_SOURCE = MPI_PROC_NULL;
        return;
    }
    if (src != MPI_ANY_SOURCE && (src < 0 || src >= (int)c->members.size())) MISUSE("%s: invalid source rank %d", fn, src);
    if (tag != MPI_ANY_TAG && (tag < 0 || tag > P.tag_ub)) MISUSE("%s: invalid tag %d (MPI_TAG_UB is %d)", fn, tag, P.tag_ub);
    auto &u = pe[cur].unexpected;
    for (size_t i = 0; i < u.size(); i++) {
        Msg *m = u[i];
        if (m->comm == c && (src == MPI_ANY_SOURCE || src == c->rank_of[m->src]) && tag_match(tag, m->tag)) {
            u.erase(u.begin() + i);
            finish_match(m, r);
            return;
        }
    }
    pe[cur].posted.push_back(r);
}
bool req_ready(Req *r) {
    if (!r || !r->active) return true;
    if (r->kind == RQ_COLL && !r->done && r->ready()) {
        r->finish();
        r->done = true;
    }
    return r->done;
}
void put_status(MPI_Status *st, const MPI_Status &v) {
    if (st && st != pe[cur].sti && st != pe[cur].stsi) {
        int e = st->MPI_ERROR;
        *st = v;
        st->MPI_ERROR = e;
    }
}
MPI_Status empty_status() {
    MPI_Status s{};
    s.MPI_SOURCE = MPI_ANY_SOURCE;
    s.MPI_TAG = MPI_ANY_TAG;
    return s;
}
void complete(MPI_Request *h, MPI_Status *st) {
    Req *r = (Req *)(*h)->obj;
    put_status(st, r->active ? r->st : empty_status());
    if (r->persistent) {
        r->active = false;
        r->done = false;
    } else
        drop_req(h);
}
bool spurious() { return rd.pct(P.spurious_pct); }
} // namespace
extern "C" {
static int send_(const char *fn, const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm ch, bool sync, bool buf) {
    CommObj *c = C(ch, fn);
    Req *r = new_req(RQ_SEND);
    start_send(fn, b, n, d, dst, tag, c, r, sync, buf);
    block_until([r] { return r->done; });
    delete r;
    return 0;
}
int MPI_Send(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c) { ENTER(); return send_(__func__, b, n, d, dst, tag, c, false, false); }
int MPI_Ssend(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c) { ENTER(); return send_(__func__, b, n, d, dst, tag, c, true, false); }
int MPI_Bsend(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c) { ENTER(); return send_(__func__, b, n, d, dst, tag, c, false, true); }
int MPI_Rsend(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c) { ENTER(); return send_(__func__, b, n, d, dst, tag, c, false, false); }
static int isend_(const char *fn, const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm ch, MPI_Request *q, bool sync, bool buf) {
    CommObj *c = C(ch, fn);
    Req *r = new_req(RQ_SEND);
    start_send(fn, b, n, d, dst, tag, c, r, sync, buf);
    *q = req_handle(r);
    return 0;
}
int MPI_Isend(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c, MPI_Request *q) { ENTER(); return isend_(__func__, b, n, d, dst, tag, c, q, false, false); }
int MPI_Issend(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c, MPI_Request *q) { ENTER(); return isend_(__func__, b, n, d, dst, tag, c, q, true, false); }
int MPI_Ibsend(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c, MPI_Request *q) { ENTER(); return isend_(__func__, b, n, d, dst, tag, c, q, false, true); }
int MPI_Irsend(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c, MPI_Request *q) { ENTER(); return isend_(__func__, b, n, d, dst, tag, c, q, false, false); }
int MPI_Recv(void *b, int n, MPI_Datatype d, int src, int tag, MPI_Comm ch, MPI_Status *st) {
    ENTER();
    CommObj *c = C(ch, __func__);
    Req *r = new_req(RQ_RECV);
    start_recv(__func__, b, n, d, src, tag, c, r);
    block_until([r] { return r->done; });
    put_status(st, r->st);
    delete r;
    return 0;
}
int MPI_Irecv(void *b, int n, MPI_Datatype d, int src, int tag, MPI_Comm ch, MPI_Request *q) {
    ENTER();
    CommObj *c = C(ch, __func__);
    Req *r = new_req(RQ_RECV);
    start_recv(__func__, b, n, d, src, tag, c, r);
    *q = req_handle(r);
    return 0;
}
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype sd, int dst, int stag, void *rb, int rn, MPI_Datatype rdt, int src, int rtag, MPI_Comm ch, MPI_Status *st) {
    ENTER();
    CommObj *c = C(ch, __func__);
    Req *s = new_req(RQ_SEND), *r = new_req(RQ_RECV);
    start_recv(__func__, rb, rn, rdt, src, rtag, c, r);
    start_send(__func__, sb, sn, sd, dst, stag, c, s, false, false);
    block_until([=] { return r->done && s->done; });
    put_status(st, r->st);
    delete r;
    delete s;
    return 0;
}
static Msg *find_msg(int src, int tag, CommObj *c) {
    for (Msg *m : pe[cur].unexpected)
        if (m->comm == c && (src == MPI_ANY_SOURCE || src == c->rank_of[m->src]) && tag_match(tag, m->tag)) return m;
    return nullptr;
}
static void msg_status(Msg *m, MPI_Status *st) {
    MPI_Status s{};
    s.MPI_SOURCE = m->comm->rank_of[m->src];
    s.MPI_TAG = m->tag;
    s.sim_bytes = m->bytes;
    put_status(st, s);
}
int MPI_Probe(int src, int tag, MPI_Comm ch, MPI_Status *st) {
    ENTER();
    CommObj *c = C(ch, __func__);
    int me = cur;
    block_until([=] {
        for (Msg *m : pe[me].unexpected)
            if (m->comm == c && (src == MPI_ANY_SOURCE || src == c->rank_of[m->src]) && tag_match(tag, m->tag)) return true;
        return false;
    });
    msg_status(find_msg(src, tag, c), st);
    return 0;
}
int MPI_Iprobe(int src, int tag, MPI_Comm ch, int *f, MPI_Status *st) {
    ENTER();
    CommObj *c = C(ch, __func__);
    Msg *m = spurious() ? nullptr : find_msg(src, tag, c);
    *f = m != nullptr;
    if (m) msg_status(m, st);
    return 0;
}
static int take_msg(Msg *m, MPI_Message *o) {
    auto &u = pe[cur].unexpected;
    u.erase(std::find(u.begin(), u.end(), m));
    auto *h = new sim_msg_h{MAG_M, cur, m};
    live_handles[cur].insert(h);
    *o = h;
    return 0;
}
int MPI_Improbe(int src, int tag, MPI_Comm ch, int *f, MPI_Message *o, MPI_Status *st) {
    ENTER();
    CommObj *c = C(ch, __func__);
    Msg *m = spurious() ? nullptr : find_msg(src, tag, c);
    *f = m != nullptr;
    if (m) {
        msg_status(m, st);
        take_msg(m, o);
    }
    return 0;
}
int MPI_Mprobe(int src, int tag, MPI_Comm ch, MPI_Message *o, MPI_Status *st) {
    int f = 0;
    MPI_Probe(src, tag, ch, st);
    Msg *m = find_msg(src, tag, C(ch, __func__));
    (void)f;
    msg_status(m, st);
    return take_msg(m, o);
}
static Req *mrecv_(const char *fn, void *b, int n, MPI_Datatype d, MPI_Message *mh) {
    if (!live_handles[cur].count(*mh)) MISUSE("%s: invalid message handle", fn);
    Msg *m = (Msg *)(*mh)->obj;
    Req *r = new_req(RQ_RECV);
    r->buf = b;
    r->count = n;
    r->type = Tz(d, n, fn);
    r->comm = m->comm;
    finish_match(m, r);
    live_handles[cur].erase(*mh);
    *mh = pe[cur].mnull;
    return r;
}
int MPI_Mrecv(void *b, int n, MPI_Datatype d, MPI_Message *m, MPI_Status *st) {
    ENTER();
    Req *r = mrecv_(__func__, b, n, d, m);
    put_status(st, r->st);
    delete r;
    return 0;
}
int MPI_Imrecv(void *b, int n, MPI_Datatype d, MPI_Message *m, MPI_Request *q) {
    ENTER();
    *q = req_handle(mrecv_(__func__, b, n, d, m));
    return 0;
}
int MPI_Get_count(const MPI_Status *st, MPI_Datatype d, int *n) {
    TD t = T(d, __func__);
    *n = t->size == 0 ? 0 : st->sim_bytes % t->size ? MPI_UNDEFINED : (int)(st->sim_bytes / t->size);
    return 0;
}
int MPI_Get_elements(const MPI_Status *st, MPI_Datatype d, int *n) { return MPI_Get_count(st, d, n); }
int MPI_Test(MPI_Request *q, int *f, MPI_Status *st) {
    ENTER();
    Req *r = R(*q, __func__);
    if (!r) {
        *f = 1;
        put_status(st, empty_status());
        return 0;
    }
    *f = !spurious() && req_ready(r);
    if (*f) complete(q, st);
    return 0;
}
static MPI_Status *nth(MPI_Status *st, int i) { return !st || st == pe[cur].sti || st == pe[cur].stsi ? nullptr : st + i; }
int MPI_Testall(int n, MPI_Request *q, int *f, MPI_Status *st) {
    ENTER();
    *f = n == 0 || !spurious();
    for (int i = 0; i < n; i++) {
        Req *r = R(q[i], __func__);
        if (r && !req_ready(r)) *f = 0;
    }
    if (*f)
        for (int i = 0; i < n; i++) {
            if (q[i] == pe[cur].rnull) put_status(nth(st, i), empty_status());
            else complete(&q[i], nth(st, i));
        }
    return 0;
}
int MPI_Testany(int n, MPI_Request *q, int *idx, int *f, MPI_Status *st) {
    ENTER();
    bool any = false;
    *f = 0;
    *idx = MPI_UNDEFINED;
    if (n && spurious()) {
        for (int i = 0; i < n; i++) any |= q[i] != pe[cur].rnull;
        if (any) return 0;
    }
    any = false;
    for (int i = 0; i < n; i++) {
        Req *r = R(q[i], __func__);
        if (!r || !r->active) continue;
        any = true;
        if (req_ready(r)) {
            *f = 1;
            *idx = i;
            complete(&q[i], st);
            return 0;
        }
    }
    if (!any) {
        *f = 1;
        put_status(st, empty_status());
    }
    return 0;
}
int MPI_Testsome(int n, MPI_Request *q, int *out, int *idx, MPI_Status *st) {
    ENTER();
    bool any = false;
    *out = 0;
    bool sp = spurious();
    for (int i = 0; i < n; i++) {
        Req *r = R(q[i], __func__);
        if (!r || !r->active) continue;
        any = true;
        if (!sp && req_ready(r)) {
            idx[*out] = i;
            complete(&q[i], nth(st, *out));
            (*out)++;
        }
    }
    if (!any) *out = MPI_UNDEFINED;
    return 0;
}
int MPI_Wait(MPI_Request *q, MPI_Status *st) {
    ENTER();
    Req *r = R(*q, __func__);
    if (!r) {
        put_status(st, empty_status());
        return 0;
    }
    block_until([r] { return req_ready(r); });
    complete(q, st);
    return 0;
}
int MPI_Waitall(int n, MPI_Request *q, MPI_Status *st) {
    ENTER();
    vector<Req *> v;
    for (int i = 0; i < n; i++) {
        Req *r = R(q[i], __func__);
        if (r) v.push_back(r);
    }
    block_until([v] {
        bool all = true;
        for (Req *r : v)
            if (!req_ready(r)) all = false;
        return all;
    });
    for (int i = 0; i < n; i++) {
        if (q[i] == pe[cur].rnull) put_status(nth(st, i), empty_status());
        else complete(&q[i], nth(st, i));
    }
    return 0;
}
int MPI_Waitany(int n, MPI_Request *q, int *idx, MPI_Status *st) {
    ENTER();
    vector<Req *> v;
    for (int i = 0; i < n; i++) {
        Req *r = R(q[i], __func__);
        if (r && r->active) v.push_back(r);
    }
    *idx = MPI_UNDEFINED;
    if (v.empty()) {
        put_status(st, empty_status());
        return 0;
    }
    block_until([v] {
        for (Req *r : v)
            if (req_ready(r)) return true;
        return false;
    });
    int s0 = (int)rd.below(n);
    for (int k = 0; k < n; k++) {
        int i = (s0 + k) % n;
        Req *r = R(q[i], __func__);
        if (r && r->active && req_ready(r)) {
            *idx = i;
            complete(&q[i], st);
            return 0;
        }
    }
    return 0;
}
int MPI_Waitsome(int n, MPI_Request *q, int *out, int *idx, MPI_Status *st) {
    int i = 0;
    int rc = MPI_Waitany(n, q, &i, nth(st, 0));
    if (i == MPI_UNDEFINED) *out = MPI_UNDEFINED;
    else {
        *out = 1;
        idx[0] = i;
    }
    return rc;
}
int MPI_Request_free(MPI_Request *q) {
    ENTER();
    Req *r = R(*q, __func__);
    if (!r) MISUSE("MPI_Request_free on MPI_REQUEST_NULL");
    live_handles[cur].erase(*q);
    *q = pe[cur].rnull;
    r->freed = true;
    return 0;
}
int MPI_Request_get_status(MPI_Request q, int *f, MPI_Status *st) {
    ENTER();
    Req *r = R(q, __func__);
    *f = !r || (!spurious() && req_ready(r));
    if (*f) put_status(st, r ? r->st : empty_status());
    return 0;
}
int MPI_Cancel(MPI_Request *q) {
    ENTER();
    Req *r = R(*q, __func__);
    if (!r) MISUSE("MPI_Cancel on MPI_REQUEST_NULL");
    if (r->kind == RQ_RECV && !r->done) {
        auto &p = pe[cur].posted;
        p.erase(std::remove(p.begin(), p.end(), r), p.end());
        r->done = true;
        r->st.sim_cancelled = 1;
    }
    return 0;
}
int MPI_Test_cancelled(const MPI_Status *st, int *f) { *f = st->sim_cancelled; return 0; }
int MPI_Send_init(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm ch, MPI_Request *q) {
    ENTER();
    Req *r = new_req(RQ_SEND);
    r->persistent = true;
    r->active = false;
    CommObj *c = C(ch, __func__);
    T(d, __func__);
    r->ready = nullptr;
    r->finish = [=] { start_send("MPI_Start", b, n, d, dst, tag, c, r, false, false); };
    *q = req_handle(r);
    return 0;
}
int MPI_Recv_init(void *b, int n, MPI_Datatype d, int src, int tag, MPI_Comm ch, MPI_Request *q) {
    ENTER();
    Req *r = new_req(RQ_RECV);
    r->persistent = true;
    r->active = false;
    CommObj *c = C(ch, __func__);
    r->finish = [=] { start_recv("MPI_Start", b, n, d, src, tag, c, r); };
    *q = req_handle(r);
    return 0;
}
int MPI_Start(MPI_Request *q) {
    ENTER();
    Req *r = R(*q, __func__);
    if (!r || !r->persistent || r->active) MISUSE("MPI_Start: not an inactive persistent request");
    r->active = true;
    r->done = false;
    r->finish();
    return 0;
}
int MPI_Startall(int n, MPI_Request *q) {
    for (int i = 0; i < n; i++) MPI_Start(&q[i]);
    return 0;
}

// ---- one sided
static void win_info(WinObj *w, InfoObj *i) {
    auto it = i->find("accumulate_ordering");
    if (it != i->end() && it->second == "none") w->ordered = false;
    it = i->find("accumulate_ops");
    if (it != i->end()) w->hint = it->second == "same_op" ? 1 : it->second == "same_op_no_op" ? 0 : 2;
}
static MPI_Win win_handle(WinObj *w) {
    auto *h = new sim_win_h{MAG_W, cur, w};
    live_handles[cur].insert(h);
    stats_.wins++;
    return h;
}
static WinObj *make_win(const char *fn, MPI_Comm ch, MPI_Info info, int flavor, const std::function<void(WinPE &, int)> &fill) {
    CommObj *c = C(ch, fn);
    int r = myrank(c);
    WinPE mine;
    fill(mine, r);
    if (mine.size < 0) MISUSE("%s: negative size", fn);
    if (mine.unit <= 0) MISUSE("%s: displacement unit %d", fn, mine.unit);
    WinObj *w = collective_create<WinObj>(
        c, fn,
        [=](CollState *) {
            auto *x = new WinObj;
            x->id = next_id++;
            x->comm = c;
            x->pe.resize(c->members.size());
            x->flavor = flavor;
            return x;
        },
        [](CollState *) {});
    w->pe[r] = mine;
    win_info(w, I(info, fn));
    // nobody may use the window before every rank has filled in its part
    CollState *s = coll_join(c, fn, -1);
    coll_arrive(s, r);
    block_until([=] { return coll_all(c, s); });
    coll_leave(c, s);
    return w;
}
int MPI_Win_create(void *b, MPI_Aint n, int u, MPI_Info i, MPI_Comm c, MPI_Win *o) {
    ENTER();
    *o = win_handle(make_win(__func__, c, i, MPI_WIN_FLAVOR_CREATE, [&](WinPE &w, int) {
        w.base = (char *)b;
        w.size = n;
        w.unit = u;
    }));
    return 0;
}
static bool big_memory;
void sim_big_memory(bool on) { big_memory = on; }
static void win_alloc(WinPE &w, MPI_Aint n, int u) {
    size_t pg = 4096;
    if (n < 0 || n > ((MPI_Aint)1 << (big_memory ? 36 : 32))) { // the default error handler
        fprintf(stderr, "simMPI: PE %d: cannot allocate a window of %ld bytes: out of memory\n", cur, (long)n);
        exit_code = 15;
        stop_run(SIM_ABORT, "MPI error: a window of %ld bytes cannot be allocated", (long)n);
    }
    size_t len = ((size_t)n + pg - 1) & ~(pg - 1);
    // bases differ between PEs, also in their page number
    size_t lead = pg * (1 + rd.below(6));
    w.maplen = lead + len + pg;
    w.map = mmap(nullptr, w.maplen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (w.map == MAP_FAILED) MISUSE("window of %ld bytes cannot be allocated", (long)n);
    if (len) mprotect((char *)w.map + lead, len, PROT_READ | PROT_WRITE);
    w.base = (char *)w.map + lead;
    if (len && len <= (1u << 20)) memset(w.base, 0xA5, len); // MPI does not promise zeroed memory
    w.size = n;
    w.unit = u;
}
int MPI_Win_allocate(MPI_Aint n, int u, MPI_Info i, MPI_Comm c, void *base, MPI_Win *o) {
    ENTER();
    void *b = nullptr;
    *o = win_handle(make_win(__func__, c, i, MPI_WIN_FLAVOR_ALLOCATE, [&](WinPE &w, int) {
        win_alloc(w, n, u);
        b = w.base;
    }));
    *(void **)base = b;
    return 0;
}
int MPI_Win_allocate_shared(MPI_Aint n, int u, MPI_Info i, MPI_Comm c, void *base, MPI_Win *o) { return MPI_Win_allocate(n, u, i, c, base, o); }
int MPI_Win_shared_query(MPI_Win h, int r, MPI_Aint *n, int *u, void *b) {
    ENTER();
    WinObj *w = W(h, __func__);
    if (r == MPI_PROC_NULL) r = 0;
    *n = w->pe[r].size;
    *u = w->pe[r].unit;
    *(void **)b = w->pe[r].base;
    return 0;
}
int MPI_Win_create_dynamic(MPI_Info i, MPI_Comm c, MPI_Win *o) {
    ENTER();
    *o = win_handle(make_win(__func__, c, i, MPI_WIN_FLAVOR_DYNAMIC, [&](WinPE &, int) {}));
    return 0;
}
int MPI_Win_attach(MPI_Win h, void *b, MPI_Aint n) {
    ENTER();
    WinObj *w = W(h, __func__);
    if (w->flavor != MPI_WIN_FLAVOR_DYNAMIC) MISUSE("MPI_Win_attach on a window that is not dynamic");
    auto &d = w->pe[myrank(w->comm)].dyn;
    for (auto &x : d)
        if (n > 0 && (char *)b < x.first + x.second && x.first < (char *)b + n) MISUSE("MPI_Win_attach: memory already attached");
    d.push_back({(char *)b, n});
    return 0;
}
int MPI_Win_detach(MPI_Win h, const void *b) {
    ENTER();
    WinObj *w = W(h, __func__);
    auto &d = w->pe[myrank(w->comm)].dyn;
    for (size_t i = 0; i < d.size(); i++)
        if (d[i].first == b) {
            d.erase(d.begin() + i);
            return 0;
        }
    MISUSE("MPI_Win_detach: memory was not attached");
}
int MPI_Win_free(MPI_Win *h) {
    ENTER();
    WinObj *w = W(*h, __func__);
    CommObj *c = w->comm;
    int r = myrank(c);
    if (w->pe[r].locked_all || !w->pe[r].locked.empty()) MISUSE("MPI_Win_free inside an access epoch");
    CollState *s = coll_join(c, __func__, -1);
    coll_arrive(s, r);
    block_until([=] { return coll_all(c, s); });
    coll_leave(c, s);
    for (size_t i = 0; i < pend.size(); i++)
        if (pend[i]->w == w) MISUSE("MPI_Win_free with transfers pending");
    if (w->pe[r].map) munmap(w->pe[r].map, w->pe[r].maplen);
    w->pe[r].freed = true;
    live_handles[cur].erase(*h);
    *h = pe[cur].wnull;
    return 0;
}
int MPI_Win_get_group(MPI_Win h, MPI_Group *g) { ENTER(); *g = group_handle(W(h, __func__)->comm->members); return 0; }
int MPI_Win_get_attr(MPI_Win h, int k, void *v, int *f) {
    ENTER();
    WinObj *w = W(h, __func__);
    static MPI_Aint sz[MAXPE];
    static int un[MAXPE], fl[MAXPE], mo[MAXPE];
    WinPE &p = w->pe[myrank(w->comm)];
    *f = 1;
    if (k == MPI_WIN_BASE) *(void **)v = p.base;
    else if (k == MPI_WIN_SIZE) { sz[cur] = p.size; *(void **)v = &sz[cur]; }
    else if (k == MPI_WIN_DISP_UNIT) { un[cur] = p.unit; *(void **)v = &un[cur]; }
    else if (k == MPI_WIN_CREATE_FLAVOR) { fl[cur] = w->flavor; *(void **)v = &fl[cur]; }
    else if (k == MPI_WIN_MODEL) { mo[cur] = MPI_WIN_UNIFIED; *(void **)v = &mo[cur]; }
    else *f = 0;
    return 0;
}
int MPI_Win_set_info(MPI_Win h, MPI_Info i) { ENTER(); win_info(W(h, __func__), I(i, __func__)); return 0; }
int MPI_Win_get_info(MPI_Win, MPI_Info *i) { return MPI_Info_create(i); }
int MPI_Win_set_errhandler(MPI_Win h, MPI_Errhandler) { ENTER(); W(h, __func__); return 0; }
int MPI_Win_set_name(MPI_Win h, const char *) { ENTER(); W(h, __func__); return 0; }
} // extern "C"
namespace {
// complete operations of origin rank r (to target t, or all when -1)
void flush(WinObj *w, int r, int t) {
    for (;;) {
        vector<size_t> c;
        for (size_t i = 0; i < pend.size(); i++)
            if (pend[i]->w == w && pend[i]->origin == r && (t < 0 || pend[i]->target == t)) c.push_back(i);
        if (c.empty()) break;
        apply_at(c[rd.below(c.size())], false);
        // a flush takes time: others may run
        if (rs.pct(P.yield_pct / 4)) yield_();
    }
}
void flush_local(WinObj *w, int r, int t) {
    for (auto *o : pend)
        if (o->w == w && o->origin == r && (t < 0 || o->target == t) && !o->rbuf) snap(o);
    for (;;) {
        vector<size_t> c;
        for (size_t i = 0; i < pend.size(); i++)
            if (pend[i]->w == w && pend[i]->origin == r && (t < 0 || pend[i]->target == t) && pend[i]->rbuf) c.push_back(i);
        if (c.empty()) break;
        apply_at(c[rd.below(c.size())], false);
        if (rs.pct(P.yield_pct / 4)) yield_();
    }
}
void need_epoch(WinObj *w, int r, int t, const char *fn) {
    WinPE &p = w->pe[r];
    if (!p.locked_all && !p.fence && !(t >= 0 ? p.locked.count(t) : !p.locked.empty())) MISUSE("%s outside an access epoch", fn);
    if (t >= (int)w->pe.size() || t < -1) MISUSE("%s: invalid target rank %d", fn, t);
}
void issue(const char *fn, WinObj *w, RmaKind kind, int op, const void *ob, int on, MPI_Datatype od, void *rb, int rn, MPI_Datatype rdt,
           int target, MPI_Aint disp, int tn, MPI_Datatype tdt, const void *cmp, MPI_Request *q) {
    int r = myrank(w->comm);
    if (target == MPI_PROC_NULL) {
        if (q) {
            Req *x = new_req(RQ_GEN);
            x->done = true;
            *q = req_handle(x);
        }
        return;
    }
    if (target < 0) MISUSE("%s: invalid target rank %d", fn, target);
    need_epoch(w, r, target, fn);
    if (on < 0 || tn < 0 || rn < 0) MISUSE("%s: negative count", fn);
    TD tt = Tz(tdt, tn, fn);
    auto *o = new RmaOp;
    o->w = w;
    o->origin = r;
    o->target = target;
    o->kind = kind;
    o->op = op;
    o->seq = opseq++;
    o->birth = step_;
    o->tcount = tn;
    o->ttype = tt;
    WinPE &tp = w->pe[target];
    if (tp.freed) MISUSE("%s: the target has freed the window", fn);
    MPI_Aint lo, hi;
    span(tt, tn, lo, hi);
    if (w->flavor == MPI_WIN_FLAVOR_DYNAMIC) {
        o->taddr = (char *)disp;
        bool in = hi == lo;
        for (auto &d : tp.dyn)
            if (o->taddr + lo >= d.first && o->taddr + hi <= d.first + d.second) in = true;
        if (!in) MISUSE("%s: target range [%p,+%ld) of rank %d is not attached", fn, (void *)(o->taddr + lo), (long)(hi - lo), target);
    } else {
        o->taddr = tp.base + disp * tp.unit;
        if (hi > lo && (disp * tp.unit + lo < 0 || disp * tp.unit + hi > tp.size))
            MISUSE("%s: target range [%ld,%ld) of rank %d is outside the window of %ld bytes", fn, (long)(disp * tp.unit + lo),
                   (long)(disp * tp.unit + hi), target, (long)tp.size);
    }
    size_t tb = total(tt, tn);
    bool has_origin = kind == RK_PUT || kind == RK_ACC || kind == RK_CAS || (kind == RK_GACC && op != 14);
    if (has_origin) {
        o->obuf = (const char *)ob;
        o->ocount = on;
        o->otype = Tz(od, on, fn);
        if (total(o->otype, on) != tb) MISUSE("%s: origin describes %zu bytes, target %zu", fn, total(o->otype, on), tb);
        if (tb == 0) o->obuf = nullptr;
    } else
        o->snapped = true;
    if (kind >= RK_ACC) {
        if (tt->basic < 0) MISUSE("%s: datatype of an accumulate is not built from one basic type", fn);
        if (has_origin && o->otype->basic != tt->basic) MISUSE("%s: origin and target basic datatypes differ", fn);
        bool flt = tt->basic == 14 || tt->basic == 15 || tt->basic == 16 || tt->basic == 26 || tt->basic == 27 || tt->basic == 28;
        if (kind == RK_CAS && flt) MISUSE("%s: not defined for floating types", fn);
        if (flt && op >= 5 && op <= 10) MISUSE("%s: bitwise or logical operation on a floating type", fn);
        if (tt->basic == 4 && (op == 3 || op == 4 || op == 1 || op == 2)) MISUSE("%s: arithmetic on MPI_BYTE", fn);
        if (tt->size && tb && ((uintptr_t)o->taddr % std::min<size_t>(tsize[tt->basic], 8)) && P.strict_hints)
            ; // misaligned accumulates are legal in MPI
    }
    if (kind == RK_GET || kind == RK_GACC || kind == RK_CAS) {
        o->rbuf = (char *)rb;
        o->rcount = rn;
        o->rtype = Tz(rdt, rn, fn);
        if (total(o->rtype, rn) != tb) MISUSE("%s: result describes %zu bytes, target %zu", fn, total(o->rtype, rn), tb);
        if (tb == 0) o->rbuf = nullptr;
        // the result is undefined until completion
        if (tb && o->rbuf != o->obuf) {
            vector<char> junk(tb);
            for (auto &b : junk) b = (char)(0x5A ^ rd.next());
            if (!(w->flavor != MPI_WIN_FLAVOR_DYNAMIC && o->rbuf < o->taddr + hi && o->taddr + lo < o->rbuf + tb))
                unpack(junk.data(), tb, o->rbuf, rn, o->rtype);
        }
    }
    if (cmp) o->cmp.assign((const char *)cmp, (const char *)cmp + tb);
    if (kind == RK_CAS || kind == RK_GACC || !P.late_put || rd.pct(40)) snap(o);
    switch (kind) {
    case RK_PUT: stats_.puts++; break;
    case RK_GET: stats_.gets++; break;
    case RK_ACC: stats_.accs++; break;
    case RK_GACC: stats_.fops++; break;
    case RK_CAS: stats_.cass++; break;
    }
    Req *x = nullptr;
    if (q) {
        x = new_req(RQ_RMA);
        x->rma_left = 1;
        o->req = x;
        *q = req_handle(x);
    }
    if (tb == 0) {
        rma_done(o);
        return;
    }
    // a large contiguous put may land in two pieces
    if (kind == RK_PUT && P.split_puts && tb >= 32 && o->otype->contig() && tt->contig() && rd.pct(60)) {
        snap(o);
        size_t cut = (1 + rd.below(tb / 8 - 1)) * 8;
        auto *p2 = new RmaOp(*o);
        p2->data.assign(o->data.begin() + cut, o->data.end());
        p2->taddr = o->taddr + cut;
        p2->ttype = basic_td[4];
        p2->tcount = (int)(tb - cut);
        o->data.resize(cut);
        o->ttype = basic_td[4];
        o->tcount = (int)cut;
        p2->seq = opseq++;
        if (x) x->rma_left++;
        pend.push_back(p2);
    }
    pend.push_back(o);
}
} // namespace
extern "C" {
int MPI_Put(const void *b, int n, MPI_Datatype d, int t, MPI_Aint p, int tn, MPI_Datatype td, MPI_Win h) {
    ENTER();
    issue(__func__, W(h, __func__), RK_PUT, 0, b, n, d, nullptr, 0, nullptr, t, p, tn, td, nullptr, nullptr);
    return 0;
}
int MPI_Rput(const void *b, int n, MPI_Datatype d, int t, MPI_Aint p, int tn, MPI_Datatype td, MPI_Win h, MPI_Request *q) {
    ENTER();
    issue(__func__, W(h, __func__), RK_PUT, 0, b, n, d, nullptr, 0, nullptr, t, p, tn, td, nullptr, q);
    return 0;
}
int MPI_Get(void *b, int n, MPI_Datatype d, int t, MPI_Aint p, int tn, MPI_Datatype td, MPI_Win h) {
    ENTER();
    issue(__func__, W(h, __func__), RK_GET, 0, nullptr, 0, nullptr, b, n, d, t, p, tn, td, nullptr, nullptr);
    return 0;
}
int MPI_Rget(void *b, int n, MPI_Datatype d, int t, MPI_Aint p, int tn, MPI_Datatype td, MPI_Win h, MPI_Request *q) {
    ENTER();
    issue(__func__, W(h, __func__), RK_GET, 0, nullptr, 0, nullptr, b, n, d, t, p, tn, td, nullptr, q);
    return 0;
}
int MPI_Accumulate(const void *b, int n, MPI_Datatype d, int t, MPI_Aint p, int tn, MPI_Datatype td, MPI_Op o, MPI_Win h) {
    ENTER();
    int op = O(o, __func__);
    if (op == 14) MISUSE("MPI_Accumulate with MPI_NO_OP");
    issue(__func__, W(h, __func__), RK_ACC, op, b, n, d, nullptr, 0, nullptr, t, p, tn, td, nullptr, nullptr);
    return 0;
}
int MPI_Raccumulate(const void *b, int n, MPI_Datatype d, int t, MPI_Aint p, int tn, MPI_Datatype td, MPI_Op o, MPI_Win h, MPI_Request *q) {
    ENTER();
    int op = O(o, __func__);
    issue(__func__, W(h, __func__), RK_ACC, op, b, n, d, nullptr, 0, nullptr, t, p, tn, td, nullptr, q);
    return 0;
}
int MPI_Get_accumulate(const void *b, int n, MPI_Datatype d, void *r, int rn, MPI_Datatype rdt, int t, MPI_Aint p, int tn, MPI_Datatype td, MPI_Op o, MPI_Win h) {
    ENTER();
    issue(__func__, W(h, __func__), RK_GACC, O(o, __func__), b, n, d, r, rn, rdt, t, p, tn, td, nullptr, nullptr);
    return 0;
}
int MPI_Rget_accumulate(const void *b, int n, MPI_Datatype d, void *r, int rn, MPI_Datatype rdt, int t, MPI_Aint p, int tn, MPI_Datatype td, MPI_Op o, MPI_Win h, MPI_Request *q) {
    ENTER();
    issue(__func__, W(h, __func__), RK_GACC, O(o, __func__), b, n, d, r, rn, rdt, t, p, tn, td, nullptr, q);
    return 0;
}
int MPI_Fetch_and_op(const void *b, void *r, MPI_Datatype d, int t, MPI_Aint p, MPI_Op o, MPI_Win h) {
    ENTER();
    issue(__func__, W(h, __func__), RK_GACC, O(o, __func__), b, 1, d, r, 1, d, t, p, 1, d, nullptr, nullptr);
    return 0;
}
int MPI_Compare_and_swap(const void *b, const void *cmp, void *r, MPI_Datatype d, int t, MPI_Aint p, MPI_Win h) {
    ENTER();
    issue(__func__, W(h, __func__), RK_CAS, 100, b, 1, d, r, 1, d, t, p, 1, d, cmp, nullptr);
    return 0;
}
int MPI_Win_fence(int, MPI_Win h) {
    ENTER();
    WinObj *w = W(h, __func__);
    int r = myrank(w->comm);
    flush(w, r, -1);
    CollState *s = coll_join(w->comm, __func__, -1);
    coll_arrive(s, r);
    block_until([=] { return coll_all(w->comm, s); });
    coll_leave(w->comm, s);
    w->pe[r].fence = 1;
    return 0;
}
int MPI_Win_lock(int, int t, int, MPI_Win h) { ENTER(); WinObj *w = W(h, __func__); w->pe[myrank(w->comm)].locked.insert(t); return 0; }
int MPI_Win_unlock(int t, MPI_Win h) {
    ENTER();
    WinObj *w = W(h, __func__);
    int r = myrank(w->comm);
    if (!w->pe[r].locked.count(t)) MISUSE("MPI_Win_unlock without a lock");
    flush(w, r, t);
    w->pe[r].locked.erase(t);
    return 0;
}
int MPI_Win_lock_all(int, MPI_Win h) {
    ENTER();
    WinObj *w = W(h, __func__);
    auto &p = w->pe[myrank(w->comm)];
    if (p.locked_all) MISUSE("MPI_Win_lock_all inside an access epoch");
    p.locked_all = true;
    return 0;
}
int MPI_Win_unlock_all(MPI_Win h) {
    ENTER();
    WinObj *w = W(h, __func__);
    int r = myrank(w->comm);
    if (!w->pe[r].locked_all) MISUSE("MPI_Win_unlock_all outside an access epoch");
    flush(w, r, -1);
    w->pe[r].locked_all = false;
    return 0;
}
int MPI_Win_flush(int t, MPI_Win h) { ENTER(); WinObj *w = W(h, __func__); int r = myrank(w->comm); if (t == MPI_PROC_NULL) return 0; need_epoch(w, r, t, __func__); flush(w, r, t); return 0; }
int MPI_Win_flush_all(MPI_Win h) { ENTER(); WinObj *w = W(h, __func__); int r = myrank(w->comm); need_epoch(w, r, -1, __func__); flush(w, r, -1); return 0; }
int MPI_Win_flush_local(int t, MPI_Win h) { ENTER(); WinObj *w = W(h, __func__); int r = myrank(w->comm); if (t == MPI_PROC_NULL) return 0; need_epoch(w, r, t, __func__); flush_local(w, r, t); return 0; }
int MPI_Win_flush_local_all(MPI_Win h) { ENTER(); WinObj *w = W(h, __func__); int r = myrank(w->comm); need_epoch(w, r, -1, __func__); flush_local(w, r, -1); return 0; }
int MPI_Win_sync(MPI_Win h) { ENTER(); W(h, __func__); return 0; }

int MPI_T_init_thread(int, int *p) { if (p) *p = 0; return 0; }
int MPI_T_finalize(void) { return 0; }
int MPI_T_cvar_get_num(int *n) { *n = 0; return 0; }
int MPI_T_cvar_get_index(const char *, int *) { return MPI_T_ERR_INVALID_NAME; }
int MPI_T_cvar_handle_alloc(int, void *, MPI_T_cvar_handle *, int *) { return MPI_T_ERR_INVALID_INDEX; }
int MPI_T_cvar_handle_free(MPI_T_cvar_handle *) { return MPI_T_ERR_INVALID_HANDLE; }
int MPI_T_cvar_read(MPI_T_cvar_handle, void *) { return MPI_T_ERR_INVALID_HANDLE; }
int MPI_T_cvar_write(MPI_T_cvar_handle, const void *) { return MPI_T_ERR_INVALID_HANDLE; }
} // extern "C"
