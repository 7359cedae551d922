// C21: every call returns. Programs in which PEs need each other's service while those are inside every kind of blocking call.
#include "drf.hpp"
#include <memory>
using std::string;
using std::vector;
namespace {
enum Ev { TRAFFIC, SIGNAL, WAIT, LOCK, PAUSE, BARSET, BCASTSET, COLL };
enum { T_FADD, T_ADD, T_FETCH, T_SWAP, T_CSWAP, T_GET, T_G, T_PUTQ, T_PQ, T_PUTNBI, T_GETNBI, T_IPUT, T_IGET, T_ADDNBI, T_SPACE, T_QUIET, T_FENCE, NT };
const char *TN[] = {"fetch_add", "add", "fetch", "swap", "compare_swap", "get", "g", "put quiet", "p quiet", "put_nbi", "get_nbi", "iput", "iget", "fetch_add_nbi", "space update", "quiet", "fence"};
enum { C_BARRIER, C_SYNC, C_BCAST, C_COLLECT, C_FCOLLECT, C_REDUCE, C_ALLTOALL, C_ALLTOALLS, C_TSYNC, C_TCOLL, C_SPLIT, C_SPLIT2D, C_MALLOC, C_CALLOC, C_ALIGN, C_REALLOC, C_FREE, C_SPCREATE, C_ATTACH, C_SPALLOC, C_SPFREE, C_DETACH, C_TDESTROY, NC };
const char *CN[] = {"barrier_all", "sync_all", "broadcast64", "collect32", "fcollect64", "int_sum_to_all", "alltoall64", "alltoalls32", "team_sync(WORLD)", "team collective", "team_split_strided", "team_split_2d", "malloc", "calloc", "align", "realloc", "free", "space_create", "space_attach", "space_malloc", "free of a space block", "detach and destroy the space", "team_destroy"};
struct Op {
    int kind, target, n, slot;
};
struct Event {
    int ev = 0, pe = 0, c = 0, kind = 0, how = 0, lock = 0, start = 0, ls = 0, size = 0, root = 0;
    uint64_t count = 0;
    size_t n = 0;
    vector<Op> ops;           // for the single PE
    vector<vector<Op>> all;   // per PE, issued before joining (COLL)
    vector<int> pause;        // per PE
};
int np;
vector<Event> evs;
char *heap[MAXPE];
constexpr size_t CELLS = 0, SIG = 256, LOCKS = 512, LCNT = 640, SLOTS = 1024, SLOT = 2048, BIG = SLOTS + MAXPE * SLOT, BIGN = 6000, CSRC = BIG + BIGN + 16, CDST = CSRC + 4096, SZ = CDST + 8192;
struct Cfg {
    size_t sheap_size;
    int num_contexts, memkind;
    void *memkind_info;
    long hints;
};
long total[MAXPE][8], sigs[MAXPE], lockcnt[3];
vector<void *> blk[MAXPE];
void *sp[MAXPE], *spb[MAXPE];
void *tm_[MAXPE][4];
int n_traffic, n_coll, n_wait, n_blocked, n_served, n_lock, lockowner[3];
long slotval[MAXPE][MAXPE];
vector<std::unique_ptr<char[]>> keep[MAXPE];
char *nbuf(int me, size_t n) {
    if (keep[me].size() > 400) {
        call("shmem_quiet");
        keep[me].clear();
    }
    keep[me].emplace_back(new char[n]);
    return keep[me].back().get();
}
int inside[MAXPE]; // the PE is inside a blocking call that needs others
void traffic(int me, const Op &o) {
    int q = o.target;
    long *cell = (long *)(heap[me] + CELLS) + o.slot % 8;
    char *slot_ = heap[me] + SLOTS + me * SLOT;
    n_traffic++;
    if (inside[q]) n_served++;
    switch (o.kind) {
    case T_FADD:
        total[q][o.slot % 8] += o.n;
        call<long>("shmem_long_atomic_fetch_add", cell, (long)o.n, q);
        break;
    case T_ADD:
        total[q][o.slot % 8] += o.n;
        call("shmem_long_atomic_add", cell, (long)o.n, q);
        break;
    case T_ADDNBI: {
        long *r = (long *)nbuf(me, 8);
        total[q][o.slot % 8] += o.n;
        if (pe_sym(me, "shmem_long_atomic_fetch_add_nbi", false)) call("shmem_long_atomic_fetch_add_nbi", r, cell, (long)o.n, q);
        else call("shmem_long_atomic_add", cell, (long)o.n, q);
        break;
    }
    case T_FETCH: call<long>("shmem_long_atomic_fetch", (const long *)cell, q); break;
    case T_SWAP:
        call<long>("shmem_long_atomic_swap", (long *)(slot_ + 8), (long)o.n, q);
        break;
    case T_CSWAP: call<long>("shmem_long_atomic_compare_swap", (long *)(slot_ + 16), 0L, (long)o.n, q); break;
    case T_GET: {
        vector<char> b(o.slot + 1);
        call("shmem_getmem", (void *)b.data(), (const void *)(heap[me] + BIG), b.size(), q);
        for (size_t i = 0; i < b.size(); i++)
            if (b[i] != (char)(i * 3 + q)) fail("PE %d: get from PE %d returned a wrong byte %zu", me, q, i);
        break;
    }
    case T_G: {
        char c = call<char>("shmem_char_g", (const char *)(heap[me] + BIG + o.slot), q);
        if (c != (char)(o.slot * 3 + q)) fail("PE %d: g from PE %d returned a wrong value", me, q);
        break;
    }
    case T_PUTQ: {
        vector<char> b(o.slot % 1900 + 8, (char)o.n);
        call("shmem_putmem", (void *)(slot_ + 32), (const void *)b.data(), b.size(), q);
        call("shmem_quiet");
        break;
    }
    case T_PQ:
        slotval[q][me] = o.n;
        call("shmem_long_p", (long *)slot_, (long)o.n, q);
        call("shmem_quiet");
        long v;
        call("shmem_getmem", (void *)&v, (const void *)slot_, sizeof v, q);
        if (v != o.n) fail("PE %d: reads back %ld from PE %d after p and quiet of %d", me, v, q, o.n);
        break;
    case T_PUTNBI: {
        size_t n = o.slot % 1900 + 8;
        char *b = nbuf(me, n);
        memset(b, o.n, n);
        call("shmem_putmem_nbi", (void *)(slot_ + 32), (const void *)b, n, q);
        break;
    }
    case T_GETNBI: {
        char *b = nbuf(me, o.slot + 1);
        call("shmem_getmem_nbi", (void *)b, (const void *)(heap[me] + BIG), (size_t)o.slot + 1, q);
        break;
    }
    case T_IPUT: {
        int v[64];
        for (int i = 0; i < 64; i++) v[i] = o.n + i;
        call("shmem_int_iput", (int *)(slot_ + 32), (const int *)v, (ptrdiff_t)(1 + o.n % 7), (ptrdiff_t)(1 + o.n % 4), (size_t)(1 + o.slot % 15), q);
        break;
    }
    case T_IGET: {
        int v[64];
        call("shmem_int_iget", v, (const int *)(heap[me] + BIG), (ptrdiff_t)(1 + o.n % 4), (ptrdiff_t)(1 + o.n % 7), (size_t)(1 + o.slot % 15), q);
        break;
    }
    case T_SPACE:
        if (spb[me]) {
            long *w = (long *)spb[me] + me;
            call("shmem_long_p", w, (long)o.n, q);
            call("shmem_quiet");
        }
        break;
    case T_QUIET: call("shmem_quiet"); break;
    case T_FENCE: call("shmem_fence"); break;
    }
}
Op draw_op(int me) {
    Op o;
    o.kind = pickw({8, 3, 4, 3, 3, 6, 3, 4, 4, 2, 2, 2, 2, 2, 2, 2, 1});
    o.target = draw(np);
    if (np > 1 && o.target == me && chance(70)) o.target = (me + 1 + draw(np - 1)) % np;
    o.n = 1 + draw(100);
    o.slot = pickw({4, 1}) ? draw(BIGN - 10) : draw(200);
    return o;
}
string show(const vector<Op> &v) {
    string s;
    for (auto &o : v) s += fmt(" %s->%d(%d,%d)", TN[o.kind], o.target, o.n, o.slot);
    return s;
}
struct Inside {
    int me;
    Inside(int m) : me(m) { inside[me]++; }
    ~Inside() { inside[me]--; }
};
void coll(int me, const Event &e) {
    for (auto &o : e.all[me]) traffic(me, o);
    compute(e.pause[me]);
    Inside in(me);
    long *ps = (long *)((char *)pe_sym(me, "oshv_sdata") + 12288);
    char *s = heap[me] + CSRC, *d = heap[me] + CDST;
    switch (e.c) {
    case C_BARRIER: call("shmem_barrier_all"); break;
    case C_SYNC: call("shmem_sync_all"); break;
    case C_BCAST: call("shmem_broadcast64", (void *)d, (const void *)s, e.n, e.root, 0, 0, np, ps); break;
    case C_COLLECT: call("shmem_collect32", (void *)d, (const void *)s, e.n, 0, 0, np, ps); break;
    case C_FCOLLECT: call("shmem_fcollect64", (void *)d, (const void *)s, e.n, 0, 0, np, ps); break;
    case C_REDUCE: {
        static int wrk[2000];
        call("shmem_int_sum_to_all", (int *)d, (const int *)s, (int)e.n, 0, 0, np, wrk, ps);
        break;
    }
    case C_ALLTOALL: call("shmem_alltoall64", (void *)d, (const void *)s, e.n, 0, 0, np, ps); break;
    case C_ALLTOALLS: call("shmem_alltoalls32", (void *)d, (const void *)s, (ptrdiff_t)1, (ptrdiff_t)1, e.n, 0, 0, np, ps); break;
    case C_TSYNC: call<int>("shmem_team_sync", e.n % 2 ? O_TEAM_SHARED : O_TEAM_WORLD); break;
    case C_TCOLL: call<int>("shmem_int_sum_reduce", tm_[me][0] ? O_TEAM_WORLD : O_TEAM_WORLD, (int *)d, (const int *)s, e.n); break;
    case C_SPLIT: {
        void *t = nullptr;
        int r = call<int>("shmem_team_split_strided", O_TEAM_WORLD, e.start, e.ls, e.size, (const void *)nullptr, 0L, &t);
        if (r) fail("PE %d: shmem_team_split_strided failed", me);
        if (t && e.n % 2) call<int>("shmem_team_sync", t);
        if (t) call("shmem_team_destroy", t);
        break;
    }
    case C_SPLIT2D: {
        void *x = nullptr, *y = nullptr;
        int r = call<int>("shmem_team_split_2d", O_TEAM_WORLD, e.size, (const void *)nullptr, 0L, &x, (const void *)nullptr, 0L, &y);
        if (r) fail("PE %d: shmem_team_split_2d failed", me);
        if (x) call("shmem_team_destroy", x);
        if (y) call("shmem_team_destroy", y);
        break;
    }
    case C_MALLOC: blk[me].push_back(call<void *>("shmem_malloc", (size_t)(1 + e.n * 3))); break;
    case C_CALLOC: blk[me].push_back(call<void *>("shmem_calloc", e.n, (size_t)8)); break;
    case C_ALIGN: blk[me].push_back(call<void *>("shmem_align", (size_t)64, (size_t)(1 + e.n))); break;
    case C_REALLOC:
        if (!blk[me].empty()) blk[me].back() = call<void *>("shmem_realloc", blk[me].back(), (size_t)(1 + e.n * 5));
        break;
    case C_FREE:
        if (!blk[me].empty()) {
            call("shmem_free", blk[me].back());
            blk[me].pop_back();
        }
        break;
    case C_SPCREATE:
        if (!sp[me]) {
            Cfg cf = {4096, 0, 0, nullptr, 0};
            call("shmemx_space_create", cf, &sp[me]);
            call("shmemx_space_attach", sp[me]);
            spb[me] = call<void *>("shmemx_space_malloc", sp[me], (size_t)256);
        }
        break;
    case C_SPFREE:
    case C_SPALLOC:
    case C_ATTACH:
    case C_DETACH:
        if (sp[me]) {
            if (spb[me]) call("shmem_free", spb[me]);
            spb[me] = nullptr;
            if (e.c == C_DETACH) {
                call("shmemx_space_detach", sp[me]);
                call("shmemx_space_destroy", sp[me]);
                sp[me] = nullptr;
            } else
                spb[me] = call<void *>(e.c == C_SPALLOC ? "shmemx_space_calloc" : "shmemx_space_malloc", sp[me], (size_t)256, (size_t)1);
        }
        break;
    default: call("shmem_barrier_all");
    }
}
void c21() {
    np = chance(5) ? 7 + draw(4) : 1 + pickw({1, 3, 4, 3, 2, 2});
    SimParams sp_ = draw_sim(np);
    sp_.strict_hints = 0;
    bool longrun = chance(12);
    int tags = 2;
    if (longrun) {
        tags = 1 + draw(40);
        sp_.tag_ub = 2003 + tags;
        desc("the transport has tags up to %d", sp_.tag_ub);
    }
    desc("%s", sim_str(sp_).c_str());
    draw_env_modes(50, false, true);
    setenv("SHMEM_SYMMETRIC_SIZE", "1000000", 1);
    int nev = 1 + draw(longrun ? 40 : chance(15) ? 60 : 18);
    vector<uint64_t> sent(np, 0);
    int last_sync = 0;
    for (int i = 0; i < nev; i++) {
        Event e;
        e.ev = pickw({4, 4, 5, 3, 2, 3, 2, 9});
        e.pe = draw(np);
        auto gen = [&](int pe, int mx) {
            vector<Op> v;
            for (int k = draw(mx + 1); k > 0; k--) v.push_back(draw_op(pe));
            return v;
        };
        switch (e.ev) {
        case TRAFFIC:
            e.ops = gen(e.pe, longrun ? 20 : 5);
            if (e.ops.empty()) continue;
            desc("PE %d:%s", e.pe, show(e.ops).c_str());
            break;
        case SIGNAL: {
            int q = draw(np);
            e.kind = q;
            e.how = draw(3);
            sent[q]++;
            desc("PE %d signals PE %d", e.pe, q);
            break;
        }
        case WAIT:
            if (!sent[e.pe]) continue;
            e.count = sent[e.pe];
            e.how = draw(3);
            desc("PE %d waits for its %d signal(s)%s", e.pe, (int)e.count, e.how == 2 ? " with test" : "");
            break;
        case LOCK:
            e.lock = draw(3);
            e.how = draw(2);
            e.ops = gen(e.pe, 3);
            desc("PE %d: %s lock %d,%s, clear", e.pe, e.how ? "test until held" : "set", e.lock, show(e.ops).c_str());
            break;
        case PAUSE:
            e.count = draw(chance(20) ? 2000 : 40);
            desc("PE %d computes %d", e.pe, (int)e.count);
            break;
        case BARSET:
        case BCASTSET: {
            e.start = draw(np);
            e.ls = draw(3);
            int mx = 1 + (np - 1 - e.start) / (1 << e.ls);
            e.size = 1 + draw(mx);
            e.root = draw(e.size);
            e.n = 1 + draw(200);
            e.how = draw(2);
            desc("%s on (%d,%d,%d)", e.ev == BARSET ? e.how ? "shmem_barrier" : "shmem_sync_aset" : "shmem_broadcast64", e.start, e.ls, e.size);
            break;
        }
        default:
            e.c = draw(NC);
            e.n = 1 + draw(chance(20) ? 80 : 12);
            e.root = draw(np);
            if (e.c == C_SPLIT) {
                e.start = draw(np);
                e.ls = 1 + draw(3);
                e.size = 1 + draw(1 + (np - 1 - e.start) / e.ls);
            }
            if (e.c == C_SPLIT2D) e.size = 1 + draw(np + 1);
            e.all.resize(np);
            string s;
            for (int p = 0; p < np; p++) {
                e.all[p] = gen(p, chance(50) ? 3 : 0);
                e.pause.push_back(draw(chance(15) ? 1000 : 12));
                if (!e.all[p].empty()) s += fmt(" [PE %d:%s]", p, show(e.all[p]).c_str());
            }
            desc("all: %s n %zu, before it%s", CN[e.c], e.n, s.empty() ? " nothing" : s.c_str());
            last_sync = i;
        }
        evs.push_back(e);
    }
    (void)last_sync;
    int fin = draw(2);
    auto res = [&](int me) {
        call("shmem_init");
        char *h = call<char *>("shmem_malloc", SZ);
        if (!h) fail("shmem_malloc failed");
        heap[me] = h;
        memset(h, 0, SZ);
        for (size_t i = 0; i < BIGN; i++) h[BIG + i] = (char)(i * 3 + me);
        call("shmem_barrier_all");
        for (auto &e : evs) {
            bool mine = e.pe == me;
            if (e.ev == BARSET || e.ev == BCASTSET) {
                int st = 1 << e.ls;
                mine = me >= e.start && (me - e.start) % st == 0 && (me - e.start) / st < e.size;
            } else if (e.ev == COLL)
                mine = true;
            if (!mine) continue;
            switch (e.ev) {
            case TRAFFIC:
                for (auto &o : e.ops) traffic(me, o);
                break;
            case SIGNAL: {
                long *f = (long *)(h + SIG);
                sigs[e.kind]++;
                if (e.how == 0) call("shmem_long_atomic_inc", f, e.kind);
                else if (e.how == 1) call<long>("shmem_long_atomic_fetch_inc", f, e.kind);
                else call("shmem_long_atomic_add", f, 1L, e.kind);
                break;
            }
            case WAIT: {
                n_wait++;
                long *f = (long *)(h + SIG);
                if (*(volatile long *)f < (long)e.count) n_blocked++;
                Inside in(me);
                if (e.how == 2)
                    while (!call<int>("shmem_long_test", f, 0x100004, (long)e.count)) sim_pause(3);
                else call("shmem_long_wait_until", f, 0x100004, (long)e.count);
                break;
            }
            case LOCK: {
                long *l = (long *)(h + LOCKS) + e.lock, *c = (long *)(h + LCNT) + e.lock;
                {
                    Inside in(me);
                    if (e.how)
                        while (call<int>("shmem_test_lock", l)) sim_pause(3);
                    else call("shmem_set_lock", l);
                }
                n_lock++;
                long v = call<long>("shmem_long_g", (const long *)c, 0);
                for (auto &o : e.ops) traffic(me, o);
                call("shmem_long_p", c, v + 1, 0);
                lockcnt[e.lock]++;
                call("shmem_clear_lock", l);
                break;
            }
            case PAUSE: compute((int)e.count); break;
            case BARSET: {
                Inside in(me);
                call(e.how ? "shmem_barrier" : "shmem_sync_aset", e.start, e.ls, e.size, (long *)((char *)pe_sym(me, "oshv_sdata") + 12288 + 64));
                break;
            }
            case BCASTSET: {
                Inside in(me);
                call("shmem_broadcast64", (void *)(h + CDST), (const void *)(h + CSRC), e.n, e.root, e.start, e.ls, e.size, (long *)((char *)pe_sym(me, "oshv_sdata") + 12288 + 128));
                break;
            }
            default:
                n_coll++;
                coll(me, e);
            }
            sim_progress_mark();
        }
        call("shmem_barrier_all");
        for (int c = 0; c < 8; c++)
            if (((volatile long *)(h + CELLS))[c] != total[me][c]) fail("PE %d: cell %d holds %ld after all the additions, expected %ld", me, c, ((long *)(h + CELLS))[c], total[me][c]);
        if (*(volatile long *)(h + SIG) != sigs[me]) fail("PE %d received %ld signals of %ld", me, *(long *)(h + SIG), sigs[me]);
        if (me == 0)
            for (int c = 0; c < 3; c++)
                if (((volatile long *)(h + LCNT))[c] != lockcnt[c]) fail("lock %d: counter %ld after %ld critical sections", c, ((long *)(h + LCNT))[c], lockcnt[c]);
        if (fin == 0) {
            call("shmem_barrier_all");
            call("shmem_free", (void *)h);
        }
        call("shmem_finalize");
    };
    run_case(sp_, res);
    count(0, n_traffic);
    count(1, n_served);
    count(2, n_coll);
    count(3, n_blocked);
    count(4, n_lock);
    if (longrun && (int)sim_stats().maxtag >= 2003 + tags - 1) count(5);
    if (n_served >= 1) nontrivial();
}
RegProp r21("C21", c21, "Random programs whose PEs issue gets, atomics, puts with quiet, non-blocking and space traffic to PEs that are inside waits, locks, collectives, allocation, team and space calls, computing or starved, with or without transport buffering and with few message tags; non-trivial: at least one operation targets a PE that is inside a blocking call.",
            {"one-sided operations", "operations on a PE inside a blocking call", "collective calls", "waits that had to block", "lock acquisitions", "runs using every message tag"});
} // namespace
