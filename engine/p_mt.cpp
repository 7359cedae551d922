// C26: several threads per PE under SHMEM_THREAD_MULTIPLE.
#include "drf.hpp"
#include <algorithm>
#include <set>
using std::string;
using std::vector;
namespace {
constexpr int MAXT = 4, NMSG = 40, NCTR = 4, SL = 192;
enum { PUT, PUTNBI, IPUT, PVAL, GET, GETNBI, IGET, AADD, AFADD, ASWAP, ACSWAP, CADD, CFADD, CCSWAP, QUIET, FENCE, SEND, RECV, LOCK, COLL, PAUSE, TCOLL, CTXNEW, QUERY, NK };
const char *kn[] = {"put", "put_nbi", "iput", "p", "get", "get_nbi", "iget", "atomic_add", "atomic_fetch_add", "atomic_swap", "atomic_compare_swap", "shared add",
                    "shared fetch_add", "shared compare_swap", "quiet", "fence", "send", "receive", "lock section", "collective", "pause", "team collective", "context create/use/destroy", "query"};
struct Op {
    int k, q = 0, reg = 0, off = 0, n = 0, st1 = 1, st2 = 1, val = 0, id = 0, how = 0, ctx = 0, pre = 0;
};
enum { R_HEAP, R_DATA, R_BSS, R_SPACE, NREG };
const char *rn[] = {"heap", "sdata", "sbss", "space"};
int np;
int T[MAXPE];
bool use_space;
FarBlock far_blk;
char *heap[MAXPE], *spc[MAXPE];
void *ctxs[MAXPE][MAXT], *teams[MAXPE][MAXT], *space_h[MAXPE];
int nctx;
std::set<void *> live_ctx[MAXPE];

// layout of a region: [pe][thread] slices of SL bytes: 128 data, 8 own atomic cell, 8 alignment, the rest unused
constexpr size_t SLICES = (size_t)6 * MAXT * SL; // at most 6 PEs in this driver
char *base_of(int pe, int r) { return r == R_HEAP ? heap[pe] : r == R_SPACE ? spc[pe] : (char *)pe_sym(pe, r == R_DATA ? "oshv_sdata" : "oshv_sbss"); }
size_t slice(int p, int t) { return ((size_t)p * MAXT + t) * SL; }
// heap only, behind the slices
size_t off_ctr(int i) { return SLICES + 8 * i; }
size_t off_flag(int i) { return SLICES + 64 + 8 * i; }
size_t off_msg(int i) { return SLICES + 64 + 8 * NMSG + 48 * i; }
size_t off_lock(int t) { return SLICES + 64 + 56 * NMSG + 64 * t; } // lock, counter, data
size_t off_coll() { return SLICES + 64 + 56 * NMSG + 64 * MAXT; }
constexpr size_t COLLSZ = 2048;

struct Model { // what thread (p,t) has left in its slices
    unsigned char d[MAXPE][NREG][128];
    long cell[MAXPE][NREG];
    unsigned char mark[MAXPE][NREG][128]; // 1: put through the default context, 2: through its own, 4: being read
};
Model *mod[MAXPE][MAXT];
long ctr_total[MAXPE][NCTR];
vector<long> ctr_old[MAXPE][NCTR];
long lock_total[MAXT];
struct CollOp { int kind; int root; int n; };
vector<vector<vector<vector<Op>>>> prog; // [phase][pe][thread]
vector<CollOp> colls;
struct Msg_ { int p, t, q, u; int n, val, how, whow; } msgs[NMSG];
uint64_t nops, nquiet, nverified, nmsg, nwithin, ncoll, nlocks, nshared, nctxs;

unsigned char vb(int v, int i) { return (unsigned char)(v * 13 + i * 7 + 1); }
struct Local { // private buffers of one thread
    unsigned char src[24][128];
    unsigned char dst[24][128];
    int ns = 0;
    struct Pend { int b, n, st; unsigned char want[128]; };
    vector<Pend> pend;
};
string who(int p, int t) { return fmt("thread %d of PE %d", t, p); }
void verify(int p, int t, const char *when) {
    for (int q = 0; q < np; q++)
        for (int r = 0; r < NREG; r++) {
            if (r == R_SPACE && !use_space) continue;
            unsigned char *m = (unsigned char *)base_of(q, r) + slice(p, t);
            for (int i = 0; i < 128; i++)
                if (m[i] != mod[p][t]->d[q][r][i])
                    fail("%s after its %s: byte %d of its slice of %s on PE %d is %02x, it wrote %02x", who(p, t).c_str(), when, i, rn[r], q, m[i], mod[p][t]->d[q][r][i]);
            long c = *(volatile long *)(m + 128);
            if (c != mod[p][t]->cell[q][r])
                fail("%s after its %s: its cell in %s on PE %d is %ld, expected %ld", who(p, t).c_str(), when, rn[r], q, c, mod[p][t]->cell[q][r]);
            nverified += 136;
        }
}
void check_pend(int p, int t, Local &L) {
    for (auto &e : L.pend)
        for (int i = 0; i < e.n; i++)
            if (L.dst[e.b][i] != e.want[i]) fail("%s after its quiet: byte %d of a non-blocking get is %02x, expected %02x", who(p, t).c_str(), i, L.dst[e.b][i], e.want[i]);
    L.pend.clear();
    L.ns = 0;
}
void quiet(int p, int t, Local &L, void *ctx) {
    call("shmem_quiet");
    if (ctx) call("shmem_ctx_quiet", ctx);
    check_pend(p, t, L);
    memset(mod[p][t]->mark, 0, sizeof mod[p][t]->mark);
    verify(p, t, "quiet");
    nquiet++;
}
void collective(int me, int k) {
    const CollOp &c = colls[k];
    char *b = heap[me] + off_coll();
    long *ps = (long *)b;                  // pSync
    long *src = (long *)(b + 512), *dst = (long *)(b + 1024), *wrk = (long *)(b + 1536);
    switch (c.kind) {
    case 0: call("shmem_barrier_all"); break;
    case 1: call("shmem_sync_all"); break;
    case 2: {
        for (int i = 0; i < c.n; i++) { src[i] = (me + 1) * 1000 + i + k; dst[i] = -7; }
        call("shmem_barrier_all");
        call("shmem_broadcast64", (void *)dst, (const void *)src, (size_t)c.n, c.root, 0, 0, np, ps);
        for (int i = 0; i < c.n; i++) {
            long w = me == c.root ? -7 : (c.root + 1) * 1000 + i + k;
            if (dst[i] != w) fail("PE %d: broadcast element %d is %ld, expected %ld", me, i, dst[i], w);
        }
        call("shmem_barrier_all");
        break;
    }
    case 3: {
        for (int i = 0; i < c.n; i++) { src[i] = (me + 1) * 10 + i + k; dst[i] = -7; }
        call("shmem_barrier_all");
        call("shmem_long_sum_to_all", dst, (const long *)src, c.n, 0, 0, np, wrk, ps);
        for (int i = 0; i < c.n; i++) {
            long w = 0;
            for (int q = 0; q < np; q++) w += (q + 1) * 10 + i + k;
            if (dst[i] != w) fail("PE %d: sum_to_all element %d is %ld, expected %ld", me, i, dst[i], w);
        }
        call("shmem_barrier_all");
        break;
    }
    case 4: {
        void *m = call<void *>("shmem_malloc", (size_t)(c.n * 16));
        if (!m) fail("PE %d: shmem_malloc returned NULL", me);
        for (int q = 0; q < np; q++) { // same offset everywhere is checked by writing through it
            (void)q;
        }
        memset(m, 0, c.n * 16);
        call("shmem_barrier_all");
        call("shmem_long_p", (long *)m, (long)(me * 100 + k), (me + 1) % np);
        call("shmem_barrier_all");
        if (*(volatile long *)m != ((me + np - 1) % np) * 100 + k) fail("PE %d: value put into a new block is %ld", me, *(long *)m);
        call("shmem_free", m);
        break;
    }
    case 5: {
        for (int i = 0; i < c.n; i++) { src[i] = (me + 1) * 10 + i + k; dst[i] = -7; }
        call("shmem_barrier_all");
        int rc = call<int>("shmem_long_sum_reduce", O_TEAM_WORLD, dst, (const long *)src, (size_t)c.n);
        if (rc) fail("PE %d: team reduction returned %d", me, rc);
        for (int i = 0; i < c.n; i++) {
            long w = 0;
            for (int q = 0; q < np; q++) w += (q + 1) * 10 + i + k;
            if (dst[i] != w) fail("PE %d: team sum element %d is %ld, expected %ld", me, i, dst[i], w);
        }
        call("shmem_barrier_all");
        break;
    }
    case 6: {
        void *tm = nullptr;
        int rc = call<int>("shmem_team_split_strided", O_TEAM_WORLD, 0, 1, np, (const void *)nullptr, 0L, &tm);
        if (rc || !tm) fail("PE %d: team_split_strided failed", me);
        if (call<int>("shmem_team_my_pe", tm) != me) fail("PE %d: wrong number in the split team", me);
        call("shmem_team_sync", tm);
        call("shmem_team_destroy", tm);
        break;
    }
    case 7: { // a space comes and goes while the other threads work
        struct Cfg { size_t sheap_size; int num_contexts; int memkind; void *dev; long hints; };
        Cfg cf = {8192, c.n % 3, 0, nullptr, 0};
        void *sp = nullptr, *cx = nullptr;
        call("shmemx_space_create", cf, &sp);
        call("shmemx_space_attach", sp);
        long *m = call<long *>("shmemx_space_calloc", sp, (size_t)4, sizeof(long));
        if (!m) fail("PE %d: shmemx_space_calloc returned NULL", me);
        call("shmem_barrier_all");
        int q = (me + 1) % np;
        if (cf.num_contexts) {
            if (call<int>("shmemx_space_create_ctx", sp, 0L, &cx)) fail("PE %d: shmemx_space_create_ctx failed", me);
            call("shmem_ctx_long_p", cx, m, (long)(me * 100 + k), q);
            call("shmem_ctx_quiet", cx);
            call("shmem_ctx_destroy", cx);
        } else
            call("shmem_long_p", m, (long)(me * 100 + k), q);
        call("shmem_long_atomic_add", m + 1, 1L, q);
        call("shmem_barrier_all");
        if (m[0] != ((me + np - 1) % np) * 100 + k || m[1] != 1) fail("PE %d: the block of a new space holds %ld, %ld", me, m[0], m[1]);
        call("shmem_free", (void *)m);
        call("shmemx_space_detach", sp);
        call("shmemx_space_destroy", sp);
        break;
    }
    }
    ncoll++;
}
void team_collective(int me, int t, const Op &o) { // on the team of the threads numbered t
    char *b = heap[me] + off_coll() + COLLSZ + 1024 * t;
    long *src = (long *)b, *dst = (long *)(b + 512), n = o.n;
    void *tm = teams[me][t];
    auto in = [&](int q, int i) { return (q + 1) * 100L + i + o.val * 1000L + t; };
    for (int i = 0; i < 64; i++) { src[i] = in(me, i); dst[i] = -7; }
    int rc = call<int>("shmem_team_sync", tm);
    if (rc) fail("shmem_team_sync returned %d", rc);
    switch (o.how) {
    case 0: break;
    case 1: rc = call<int>("shmem_long_sum_reduce", tm, dst, (const long *)src, (size_t)n); break;
    case 2: rc = call<int>("shmem_long_max_reduce", tm, dst, (const long *)src, (size_t)n); break;
    case 3: { // split and destroy
        void *x = nullptr;
        rc = call<int>("shmem_team_split_strided", tm, 0, 1, np, (const void *)nullptr, 0L, &x);
        if (rc || !x) fail("%s: team_split_strided of its team failed", who(me, t).c_str());
        if (call<int>("shmem_team_n_pes", x) != np || call<int>("shmem_team_my_pe", x) != me) fail("%s: wrong size or number in the split team", who(me, t).c_str());
        rc = call<int>("shmem_team_sync", x);
        call("shmem_team_destroy", x);
        break;
    }
    }
    if (rc) fail("%s: team collective returned %d", who(me, t).c_str(), rc);
    if (o.how == 1 || o.how == 2)
        for (int i = 0; i < n; i++) {
            long w = 0;
            for (int q = 0; q < np; q++) w = o.how == 1 ? w + in(q, i) : std::max(w, in(q, i));
            if (dst[i] != w) fail("%s: element %d of the team %s is %ld, expected %ld", who(me, t).c_str(), i, o.how == 1 ? "sum" : "maximum", dst[i], w);
        }
    call<int>("shmem_team_sync", tm);
    ncoll++;
}
void run_ops(int me, int t, const vector<Op> &ops) {
    Local *Lp = new Local;
    Local &L = *Lp;
    Model &M = *mod[me][t];
    void *ctx = nctx > t && ctxs[me][t] ? ctxs[me][t] : nullptr;
    bool pending = false;
    for (auto &o : ops) {
        sim_progress_mark();
        if (o.pre) sim_pause(o.pre);
        nops++;
        bool c = o.ctx && ctx && o.reg == R_SPACE;
        char *ra = base_of(me, o.reg) + slice(me, t);
        if (L.ns >= 22) { quiet(me, t, L, ctx); pending = false; }
        unsigned char *mk = M.mark[o.q][o.reg];
        if (o.k == PUT || o.k == PUTNBI || o.k == PVAL || o.k == IPUT) { // order against earlier operations on the same bytes
            int len = o.k == PVAL ? 8 : o.k == IPUT ? ((o.n - 1) * o.st1 + 1) * 4 : o.n, bit = c ? 2 : 1, seen = 0;
            for (int i = 0; i < len; i++) seen |= mk[o.off + i];
            if (seen & ~bit || (seen && o.how == 0)) { quiet(me, t, L, ctx); pending = false; }
            else if (seen) {
                if (c) call("shmem_ctx_fence", ctx);
                else call("shmem_fence");
                for (auto &q : M.mark) for (auto &r : q) for (auto &x : r) x &= ~bit;
            }
            for (int i = 0; i < len; i++) mk[o.off + i] |= bit;
        }
        int b = L.ns;
        unsigned char *s = L.src[b], *d = L.dst[b];
        auto C = [&](const char *n, const char *cn) { return pe_sym(me, c ? cn : n); };
        switch (o.k) {
        case PUT:
        case PUTNBI: {
            for (int i = 0; i < o.n; i++) s[i] = M.d[o.q][o.reg][o.off + i] = vb(o.val, i);
            bool nbi = o.k == PUTNBI;
            void *f = C(nbi ? "shmem_putmem_nbi" : "shmem_putmem", nbi ? "shmem_ctx_putmem_nbi" : "shmem_ctx_putmem");
            if (c) callp(f, ctx, (void *)(ra + o.off), (const void *)s, (size_t)o.n, o.q);
            else callp(f, (void *)(ra + o.off), (const void *)s, (size_t)o.n, o.q);
            if (!nbi) memset(s, 0xee, o.n); // the origin may be reused at once
            L.ns++;
            pending = true;
            break;
        }
        case PVAL: {
            long v = 0;
            for (int i = 0; i < 8; i++) ((unsigned char *)&v)[i] = M.d[o.q][o.reg][o.off + i] = vb(o.val, i);
            void *f = C("shmem_long_p", "shmem_ctx_long_p");
            if (c) callp(f, ctx, (long *)(ra + o.off), v, o.q);
            else callp(f, (long *)(ra + o.off), v, o.q);
            pending = true;
            break;
        }
        case IPUT: {
            for (int i = 0; i < o.n; i++)
                for (int j = 0; j < 4; j++) s[(i * o.st2) * 4 + j] = M.d[o.q][o.reg][o.off + i * o.st1 * 4 + j] = vb(o.val, i * 4 + j);
            void *f = C("shmem_int_iput", "shmem_ctx_int_iput");
            if (c) callp(f, ctx, (int *)(ra + o.off), (const int *)s, (ptrdiff_t)o.st1, (ptrdiff_t)o.st2, (size_t)o.n, o.q);
            else callp(f, (int *)(ra + o.off), (const int *)s, (ptrdiff_t)o.st1, (ptrdiff_t)o.st2, (size_t)o.n, o.q);
            L.ns++;
            pending = true;
            break;
        }
        case GET:
        case GETNBI:
        case IGET: {
            if (pending) { quiet(me, t, L, ctx); pending = false; b = L.ns; s = L.src[b]; d = L.dst[b]; }
            unsigned char w[128];
            int bytes = o.n;
            memset(d, 0xdd, 128);
            if (o.k == IGET) {
                bytes = 128;
                memset(w, 0xdd, 128);
                for (int i = 0; i < o.n; i++)
                    for (int j = 0; j < 4; j++) w[i * o.st2 * 4 + j] = M.d[o.q][o.reg][o.off + i * o.st1 * 4 + j];
                void *f = C("shmem_int_iget", "shmem_ctx_int_iget");
                if (c) callp(f, ctx, (int *)d, (const int *)(ra + o.off), (ptrdiff_t)o.st2, (ptrdiff_t)o.st1, (size_t)o.n, o.q);
                else callp(f, (int *)d, (const int *)(ra + o.off), (ptrdiff_t)o.st2, (ptrdiff_t)o.st1, (size_t)o.n, o.q);
            } else {
                memcpy(w, &M.d[o.q][o.reg][o.off], o.n);
                bool nbi = o.k == GETNBI;
                void *f = C(nbi ? "shmem_getmem_nbi" : "shmem_getmem", nbi ? "shmem_ctx_getmem_nbi" : "shmem_ctx_getmem");
                if (c) callp(f, ctx, (void *)d, (const void *)(ra + o.off), (size_t)o.n, o.q);
                else callp(f, (void *)d, (const void *)(ra + o.off), (size_t)o.n, o.q);
            }
            if (o.k == GETNBI) {
                Local::Pend e{b, bytes, 1, {}};
                memcpy(e.want, w, bytes);
                L.pend.push_back(e);
                for (int i = 0; i < bytes; i++) mk[o.off + i] |= 4;
                L.ns++;
                pending = true; // a later put must not overtake it
            } else
                for (int i = 0; i < bytes; i++)
                    if (d[i] != w[i]) fail("%s: byte %d of %s from %s of PE %d is %02x, expected %02x", who(me, t).c_str(), i, kn[o.k], rn[o.reg], o.q, d[i], w[i]);
            break;
        }
        case AADD: {
            void *f = C("shmem_long_atomic_add", "shmem_ctx_long_atomic_add");
            M.cell[o.q][o.reg] += o.val;
            if (c) callp(f, ctx, (long *)(ra + 128), (long)o.val, o.q);
            else callp(f, (long *)(ra + 128), (long)o.val, o.q);
            pending = true;
            break;
        }
        case AFADD:
        case ASWAP:
        case ACSWAP: {
            if (pending) { quiet(me, t, L, ctx); pending = false; }
            long *a = (long *)(ra + 128), old, want = M.cell[o.q][o.reg];
            if (o.k == AFADD) {
                void *f = C("shmem_long_atomic_fetch_add", "shmem_ctx_long_atomic_fetch_add");
                old = c ? callp<long>(f, ctx, a, (long)o.val, o.q) : callp<long>(f, a, (long)o.val, o.q);
                M.cell[o.q][o.reg] += o.val;
            } else if (o.k == ASWAP) {
                void *f = C("shmem_long_atomic_swap", "shmem_ctx_long_atomic_swap");
                old = c ? callp<long>(f, ctx, a, (long)o.val, o.q) : callp<long>(f, a, (long)o.val, o.q);
                M.cell[o.q][o.reg] = o.val;
            } else {
                void *f = C("shmem_long_atomic_compare_swap", "shmem_ctx_long_atomic_compare_swap");
                long cond = o.how ? want : want + 1;
                old = c ? callp<long>(f, ctx, a, cond, (long)o.val, o.q) : callp<long>(f, a, cond, (long)o.val, o.q);
                if (o.how) M.cell[o.q][o.reg] = o.val;
            }
            if (old != want) fail("%s: %s on its own cell in %s of PE %d returned %ld, expected %ld", who(me, t).c_str(), kn[o.k], rn[o.reg], o.q, old, want);
            pending = true;
            break;
        }
        case CADD: call("shmem_long_atomic_add", (long *)(heap[me] + off_ctr(o.id)), (long)o.val, o.q); pending = true; nshared++; break;
        case CFADD: {
            long old = call<long>("shmem_long_atomic_fetch_add", (long *)(heap[me] + off_ctr(o.id)), (long)o.val, o.q);
            ctr_old[o.q][o.id].push_back(old);
            nshared++;
            break;
        }
        case CCSWAP: {
            long *a = (long *)(heap[me] + off_ctr(o.id));
            long seen = call<long>("shmem_long_atomic_fetch", (const long *)a, o.q);
            for (;;) {
                long old = call<long>("shmem_long_atomic_compare_swap", a, seen, seen + o.val, o.q);
                if (old == seen) break;
                seen = old;
            }
            ctr_old[o.q][o.id].push_back(seen);
            nshared++;
            break;
        }
        case QUIET: quiet(me, t, L, ctx); pending = false; break;
        case FENCE:
            call("shmem_fence");
            for (auto &q : M.mark) for (auto &r : q) for (auto &x : r) x &= ~1;
            break;
        case SEND: {
            Msg_ &m = msgs[o.id];
            unsigned char *x = L.src[b];
            for (int i = 0; i < m.n; i++) x[i] = vb(m.val, i);
            L.ns++;
            long *fl = (long *)(heap[me] + off_flag(o.id));
            if (m.how & 1) call("shmem_putmem_nbi", (void *)(heap[me] + off_msg(o.id)), (const void *)x, (size_t)m.n, m.q);
            else call("shmem_putmem", (void *)(heap[me] + off_msg(o.id)), (const void *)x, (size_t)m.n, m.q);
            if (m.how & 2) { quiet(me, t, L, ctx); pending = false; }
            else call("shmem_fence");
            if (m.how & 4) call("shmem_long_atomic_set", fl, (long)(o.id + 1), m.q);
            else call("shmem_long_p", fl, (long)(o.id + 1), m.q);
            pending = true;
            nmsg++;
            break;
        }
        case RECV: {
            Msg_ &m = msgs[o.id];
            long *fl = (long *)(heap[me] + off_flag(o.id));
            if (m.whow == 0) call("shmem_long_wait_until", fl, 0x100001, (long)(o.id + 1));
            else
                while (!call<int>("shmem_long_test", fl, 0x100001, (long)(o.id + 1))) sim_pause(1);
            unsigned char *x = (unsigned char *)heap[me] + off_msg(o.id);
            for (int i = 0; i < m.n; i++)
                if (x[i] != vb(m.val, i))
                    fail("%s saw flag %d of thread %d of PE %d before byte %d of the data ordered before it (%02x, expected %02x)", who(me, t).c_str(), o.id, m.t, m.p, i, x[i], vb(m.val, i));
            break;
        }
        case LOCK: {
            long *lk = (long *)(heap[me] + off_lock(t));
            call("shmem_set_lock", lk);
            long v = call<long>("shmem_long_g", (const long *)(lk + 1), o.q);
            sim_pause(o.how);
            call("shmem_long_p", lk + 1, v + 1, o.q);
            call("shmem_clear_lock", lk);
            nlocks++;
            break;
        }
        case COLL: collective(me, o.id); break;
        case TCOLL: team_collective(me, t, o); break;
        case CTXNEW: {
            if (pending) { quiet(me, t, L, ctx); pending = false; }
            void *x[2] = {nullptr, nullptr};
            int k = 1 + (o.how >> 1);
            char *sa = spc[me] + slice(me, t);
            for (int i = 0; i < k; i++) {
                int rc = call<int>("shmemx_space_create_ctx", space_h[me], 0L, &x[i]);
                if (rc || !x[i]) fail("%s: shmemx_space_create_ctx returned %d with free contexts", who(me, t).c_str(), rc);
                for (auto e : ctxs[me])
                    if (e == x[i]) fail("%s: shmemx_space_create_ctx returned a context that is in use", who(me, t).c_str());
                if (!live_ctx[me].insert(x[i]).second) fail("%s: shmemx_space_create_ctx returned a context that another thread has", who(me, t).c_str());
            }
            for (int i = 0; i < k; i++) {
                long v = o.val + i;
                for (int j = 0; j < 8; j++) M.d[o.q][R_SPACE][8 * i + j] = ((unsigned char *)&v)[j];
                call("shmem_ctx_long_p", x[i], (long *)sa + i, v, o.q);
                if (o.how & 1) call("shmem_ctx_quiet", x[i]);
                else call("shmem_quiet");
                long g = call<long>("shmem_long_g", (const long *)sa + i, o.q);
                if (g != v) fail("%s: a value put through a new context is read back as %ld, expected %ld", who(me, t).c_str(), g, v);
            }
            for (int i = 0; i < k; i++) {
                live_ctx[me].erase(x[i]);
                call("shmem_ctx_destroy", x[i]);
                nctxs++;
            }
            break;
        }
        case QUERY: {
            if (call<int>("shmem_my_pe") != me || call<int>("shmem_n_pes") != np) fail("%s: wrong shmem_my_pe or shmem_n_pes", who(me, t).c_str());
            int pv = -1;
            call("shmem_query_thread", &pv);
            if (pv != 3) fail("%s: shmem_query_thread gives %d", who(me, t).c_str(), pv);
            if (call<int>("shmem_addr_accessible", (const void *)ra, o.q) != 1) fail("%s: its slice of %s is not accessible", who(me, t).c_str(), rn[o.reg]);
            int z = 0;
            if (call<int>("shmem_addr_accessible", (const void *)&z, o.q) != 0) fail("%s: a private variable is accessible", who(me, t).c_str());
            break;
        }
        case PAUSE: sim_pause(o.n + 1); break;
        }
        sim_progress_mark();
    }
    quiet(me, t, L, ctx);
    delete Lp;
}
void c26() {
    np = range(1, 4);
    SimParams sp = draw_sim(np, 0);
    sp.preempt = pick({40, 8, 150, 600});
    sp.strict_hints = 0; // locks mix accumulate operations
    bool async = chance(35) && g_cfg != "mt"; // built without it
    use_space = chance(40);
    nctx = use_space && chance(60) ? 1 + draw(3) : 0;
    desc("%s preempt=%d async=%d space=%d contexts=%d", sim_str(sp).c_str(), sp.preempt, async, use_space, nctx);
    draw_env_modes(60, false, true);
    if (g_cfg != "mt") setenv_case("OSHMPI_ENABLE_ASYNC_THREAD", async ? "1" : "0");
    far_blk.draw(5, 65536, 2048);
    int maxt = 0, mint = MAXT;
    for (int p = 0; p < np; p++) {
        T[p] = p == 0 ? 1 + pickw({0, 5, 3, 1}) : 1 + pickw({2, 4, 2, 1});
        maxt = std::max(maxt, T[p]);
        mint = std::min(mint, T[p]);
        for (int t = 0; t < T[p]; t++) {
            mod[p][t] = new Model;
            memset(mod[p][t], 0, sizeof(Model));
        }
    }
    int nph = 1 + draw(3), nm = 0, total = 0;
    bool lurk = async && np > 1 && chance(40); // PE 0 only computes while the others work
    prog.resize(nph);
    int w = draw(4);
    for (int f = 0; f < nph; f++) {
        prog[f].resize(np);
        for (int p = 0; p < np; p++) prog[f][p].resize(T[p]);
        int n = 2 + draw(40);
        bool quietpe0 = lurk && f == nph - 1;
        for (int i = 0; i < n; i++) {
            Op o;
            int p = draw(np), t = draw(T[p]);
            if (quietpe0 && p == 0) continue;
            static const std::initializer_list<int> W[4] = {{8, 5, 3, 4, 4, 3, 2, 4, 4, 2, 2, 3, 3, 2, 6, 2, 3, 0, 1, 2, 1, 3, 2, 1},
                                                            {4, 2, 1, 2, 1, 0, 0, 8, 8, 2, 2, 6, 6, 3, 8, 1, 2, 0, 0, 1, 1, 1, 1, 1},
                                                            {6, 6, 3, 3, 1, 1, 0, 6, 0, 0, 0, 3, 0, 0, 12, 3, 4, 0, 0, 2, 1, 6, 1, 1},
                                                            {4, 3, 8, 2, 4, 3, 8, 2, 2, 1, 1, 2, 2, 1, 5, 1, 2, 0, 2, 3, 1, 2, 4, 1}};
            o.k = pickw(W[w]);
            o.q = draw(np);
            o.reg = draw(use_space ? 4 : 3);
            if (use_space && chance(30)) o.reg = R_SPACE;
            o.val = 1 + draw(200);
            o.pre = chance(20) ? 1 + (int)draw(20) : 0;
            o.ctx = chance(60);
            o.how = draw(4);
            switch (o.k) {
            case PUT: case PUTNBI: case GET: case GETNBI:
                o.off = draw(100);
                o.n = 1 + draw(128 - o.off < 60 ? 128 - o.off : 60);
                break;
            case PVAL: o.off = 8 * draw(16); break;
            case IPUT: case IGET:
                o.st1 = 1 + draw(3);
                o.st2 = 1 + draw(3);
                o.off = 4 * draw(8);
                o.n = 1 + draw(std::min((32 - o.off / 4 - 1) / o.st1, 31 / o.st2));
                break;
            case ACSWAP: o.how = draw(2); break;
            case CADD: case CFADD: case CCSWAP:
                o.id = draw(NCTR);
                o.val = 1 + draw(5);
                break;
            case SEND: {
                int q = draw(np), u = draw(T[q]);
                if (nm >= NMSG || (q == p && u == t) || (quietpe0 && q == 0)) { o.k = QUIET; break; }
                o.id = nm;
                msgs[nm] = {p, t, q, u, 1 + (int)draw(48), (int)draw(200), (int)draw(8), (int)draw(2)};
                Op r;
                r.k = RECV;
                r.id = nm;
                o.q = q;
                prog[f][p][t].push_back(o);
                desc("phase %d PE %d.%d: send message %d to PE %d.%d (%d bytes, %s, %s, %s)", f, p, t, nm, q, u, msgs[nm].n, msgs[nm].how & 1 ? "put_nbi" : "put",
                     msgs[nm].how & 2 ? "quiet" : "fence", msgs[nm].how & 4 ? "atomic_set" : "p");
                prog[f][q][u].push_back(r);
                desc("phase %d PE %d.%d: receive message %d (%s)", f, q, u, nm, msgs[nm].whow ? "test" : "wait_until");
                nm++;
                total += 2;
                continue;
            }
            case LOCK:
                o.q = 0;
                lock_total[t]++;
                break;
            case COLL: {
                if (quietpe0) { o.k = QUIET; break; }
                CollOp c{(int)draw(8), (int)draw(np), 1 + (int)draw(20)};
                o.id = colls.size();
                colls.push_back(c);
                static const char *cn[] = {"barrier_all", "sync_all", "broadcast", "sum_to_all", "malloc/free", "team sum", "team split", "space"};
                desc("phase %d thread 0 of every PE: %s n=%d root=%d", f, cn[c.kind], c.n, c.root);
                for (int x = 0; x < np; x++) prog[f][x][0].push_back(o);
                total += np;
                continue;
            }
            case TCOLL:
                if (mint < 2 || quietpe0) { o.k = QUIET; break; }
                o.how = draw(4);
                o.n = 1 + draw(60);
                t = 1 + draw(mint - 1);
                desc("phase %d thread %d of every PE: team %s n=%d", f, t, o.how == 0 ? "sync" : o.how == 1 ? "sum" : o.how == 2 ? "maximum" : "split", o.n);
                for (int x = 0; x < np; x++) prog[f][x][t].push_back(o);
                total += np;
                continue;
            case CTXNEW:
                if (!use_space) o.k = QUIET;
                o.reg = R_SPACE;
                break;
            case PAUSE: o.n = draw(40); break;
            }
            if (o.k == CADD || o.k == CFADD || o.k == CCSWAP) ctr_total[o.q][o.id] += o.val;
            desc("phase %d PE %d.%d: %s %s[%d] of PE %d n=%d strides %d,%d val=%d id=%d%s", f, p, t, kn[o.k], rn[o.reg], o.off, o.q, o.n, o.st1, o.st2, o.val, o.id,
                 o.ctx && o.reg == R_SPACE ? " (ctx)" : "");
            prog[f][p][t].push_back(o);
            total++;
        }
    }
    int busy = 0; // threads of the last phase that work while PE 0 computes
    for (int p = 1; p < np; p++) busy += T[p];
    int finished = 0;
    if (lurk) desc("in the last phase PE 0 makes no call until the others are done");
    run_case(sp, [&](int me) {
        int prov = -1;
        call<int>("shmem_init_thread", 3, &prov);
        if (prov != 3) fail("PE %d: shmem_init_thread(SHMEM_THREAD_MULTIPLE) provided %d", me, prov);
        far_blk.take(me);
        heap[me] = call<char *>("shmem_calloc", (size_t)1, off_coll() + COLLSZ + 1024 * MAXT);
        if (!heap[me]) fail("shmem_calloc failed");
        memset(base_of(me, R_DATA), 0, 16384);
        memset(base_of(me, R_BSS), 0, 16384);
        void *space = nullptr;
        if (use_space) {
            struct Cfg { size_t sheap_size; int num_contexts; int memkind; void *dev; long hints; };
            Cfg cf = {16384, nctx + 2 * MAXT, 0, nullptr, 0};
            call("shmemx_space_create", cf, &space);
            call("shmemx_space_attach", space);
            space_h[me] = space;
            spc[me] = call<char *>("shmemx_space_calloc", space, (size_t)1, (size_t)SLICES);
            if (!spc[me]) fail("shmemx_space_calloc failed");
            for (int i = 0; i < nctx && i < T[me]; i++) {
                void *c = nullptr;
                int rc = call<int>("shmemx_space_create_ctx", space, 0L, &c);
                if (rc) fail("shmemx_space_create_ctx returned %d", rc);
                ctxs[me][i] = c;
            }
        }
        for (int t = 1; t < mint; t++) {
            int rc = call<int>("shmem_team_split_strided", O_TEAM_WORLD, 0, 1, np, (const void *)nullptr, 0L, &teams[me][t]);
            if (rc || !teams[me][t]) fail("shmem_team_split_strided failed");
        }
        call("shmem_barrier_all");
        for (int f = 0; f < nph; f++) {
            bool q0 = lurk && f == nph - 1;
            vector<int> th;
            for (int t = 1; t < T[me]; t++)
                th.push_back(sim_spawn([me, t, f, q0, &finished] {
                    run_ops(me, t, prog[f][me][t]);
                    if (q0 && me) finished++;
                }));
            if (q0 && me == 0) {
                while (finished < busy) sim_pause(1); // no call, no progress by this thread
            } else {
                run_ops(me, 0, prog[f][me][0]);
                if (q0) finished++;
            }
            for (int x : th) sim_join(x);
            call("shmem_barrier_all");
            for (int t = 0; t < T[me]; t++) verify(me, t, "phase");
            call("shmem_barrier_all");
        }
        for (int i = 0; i < NCTR; i++) {
            long v = *(volatile long *)(heap[me] + off_ctr(i));
            if (v != ctr_total[me][i]) fail("PE %d: shared counter %d is %ld, the updates sum to %ld", me, i, v, ctr_total[me][i]);
            auto &o = ctr_old[me][i];
            std::sort(o.begin(), o.end());
            for (size_t k = 1; k < o.size(); k++)
                if (o[k] == o[k - 1]) fail("PE %d: two fetching updates of shared counter %d both returned %ld", me, i, o[k]);
        }
        if (me == 0)
            for (int t = 0; t < MAXT; t++) {
                long v = *(volatile long *)(heap[0] + off_lock(t) + 8);
                if (v != lock_total[t]) fail("counter of lock %d is %ld after %ld critical sections", t, v, lock_total[t]);
            }
        call("shmem_barrier_all");
        for (int t = 1; t < mint; t++) call("shmem_team_destroy", teams[me][t]);
        if (use_space) {
            for (int i = 0; i < nctx && i < T[me]; i++) call("shmem_ctx_destroy", ctxs[me][i]);
            call("shmem_free", (void *)spc[me]);
            call("shmemx_space_detach", space);
            call("shmemx_space_destroy", space);
        }
        call("shmem_free", (void *)heap[me]);
        far_blk.give(me);
        call("shmem_finalize");
    });
    count(0, nops);
    count(1, nquiet);
    count(2, nverified);
    count(3, nmsg);
    count(4, nshared);
    count(5, ncoll);
    count(6, nlocks);
    count(7, async);
    count(8, lurk);
    count(9, nctxs);
    if (total >= 6 && nquiet >= 3) nontrivial();
}
RegProp r26("C26", c26, "Random programs of several threads per PE (1-4 PEs, 1-4 threads each, own and shared objects, messages between threads, collectives by one thread, preemption at memory accesses); non-trivial: at least six operations and three quiets.",
            {"operations", "quiets with verification at the target", "bytes verified", "ordered messages between threads", "updates of shared counters", "collectives", "lock sections",
             "cases with the asynchronous progress thread", "cases in which a PE makes no calls", "contexts created, used and destroyed by a thread"});
} // namespace
