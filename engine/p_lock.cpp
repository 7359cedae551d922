// C12: locks.
#include "drf.hpp"
using std::vector;
namespace {
struct Step {
    int lock, method, nested, nmethod; // method: 0 set_lock, 1 test_lock loop, 2 single test_lock
    int rd, wr, p1, p2, p3;
};
struct L {
    int kind, home;
    size_t off;
    long cnt = 0;
    int owner = -1;
    int busy = 0;
    uint64_t changed = 0;
    bool waiting[MAXPE] = {};
    uint64_t c0[MAXPE] = {}, req[MAXPE] = {};
    size_t dn;
};
int np;
vector<L> lk;
vector<vector<vector<Step>>> ph; // [phase][pe]
FarBlock far_blk;
char *heap[MAXPE];
int acquired, contended, nested_n, tests_busy;
char *base_of(int pe, int kind) { return kind == 0 ? heap[pe] : (char *)pe_sym(pe, kind == 1 ? "oshv_sdata" : "oshv_sbss"); }
long *lockp(int pe, int l) { return (long *)(base_of(pe, lk[l].kind) + lk[l].off); }
char *cell(int pe, int l) { return heap[pe] + 256 + l * 1024; }
constexpr uint64_t SETTLED = 64; // own MPI calls after which a set_lock is known to be queued
bool acquire(int me, int l, int method, int pause) {
    L &k = lk[l];
    vector<std::pair<int, uint64_t>> ahead;
    auto note_ahead = [&] {
        ahead.clear();
        for (int q = 0; q < np; q++)
            if (q != me && k.waiting[q] && sim_calls(q) - k.c0[q] >= SETTLED) ahead.push_back({q, k.req[q]});
    };
    auto got = [&] {
        if (k.owner >= 0) fail("PE %d acquired lock %d while PE %d holds it", me, l, k.owner);
        for (auto &a : ahead)
            if (k.waiting[a.first] && k.req[a.first] == a.second)
                fail("PE %d acquired lock %d before PE %d, which had been waiting in shmem_set_lock since before the request", me, l, a.first);
        k.owner = me;
        acquired++;
    };
    if (method == 0) {
        note_ahead();
        k.busy++;
        k.changed = sim_now();
        if (k.owner >= 0) contended++;
        k.waiting[me] = true;
        k.c0[me] = sim_calls(me);
        k.req[me]++;
        call("shmem_set_lock", lockp(me, l));
        k.waiting[me] = false;
        got();
        return true;
    }
    for (;;) {
        note_ahead();
        int b0 = k.busy;
        int o0 = k.owner;
        uint64_t ch0 = k.changed;
        k.busy++;
        k.changed = sim_now();
        uint64_t ch1 = k.changed;
        int r = call<int>("shmem_test_lock", lockp(me, l));
        if (r != 0 && r != 1) fail("PE %d: shmem_test_lock returned %d", me, r);
        (void)ch0;
        if (r == 0) {
            got();
            return true;
        }
        if (b0 == 0 && k.changed == ch1) fail("PE %d: shmem_test_lock failed although no PE holds or requests lock %d", me, l);
        if (o0 >= 0) tests_busy++;
        k.busy--;
        k.changed = sim_now();
        if (method == 2) return false;
        sim_pause(1 + pause);
    }
}
void release(int me, int l) {
    L &k = lk[l];
    if (k.owner != me) fail("PE %d holds lock %d but PE %d became its owner meanwhile", me, l, k.owner);
    k.owner = -1;
    call("shmem_clear_lock", lockp(me, l));
    k.busy--;
    k.changed = sim_now();
}
void section(int me, int l, const Step &s) {
    L &k = lk[l];
    long *c = (long *)cell(k.home, l), *cm = (long *)cell(me, l);
    (void)c;
    long v = -1, want = k.cnt;
    switch (k.home == me && s.rd == 3 ? 3 : s.rd % 3) {
    case 0: v = call<long>("shmem_long_g", (const long *)cm, k.home); break;
    case 1: call("shmem_getmem", (void *)&v, (const void *)cm, (size_t)8, k.home); break;
    case 2: v = call<long>("shmem_long_atomic_fetch", (const long *)cm, k.home); break;
    case 3: v = *(volatile long *)cm; break;
    }
    if (v != want) fail("PE %d holds lock %d and reads counter %ld of PE %d; the previous holders left %ld", me, l, v, k.home, want);
    if (k.dn) {
        vector<unsigned char> d(k.dn);
        call("shmem_getmem", (void *)d.data(), (const void *)(cm + 1), k.dn, k.home);
        for (size_t i = 0; i < k.dn; i++)
            if (d[i] != (unsigned char)(want * 7 + i))
                fail("PE %d holds lock %d and reads stale data of PE %d at byte %zu (%02x, expected %02x)", me, l, k.home, i, d[i], (unsigned char)(want * 7 + i));
    }
    compute(s.p2);
    long nv = want + 1;
    static long nb[MAXPE][8];
    static int nbi[MAXPE];
    switch (k.home == me && s.wr == 4 ? 4 : s.wr % 4) {
    case 0: call("shmem_long_p", cm, nv, k.home); break;
    case 1:
        nbi[me] = (nbi[me] + 1) % 8;
        nb[me][nbi[me]] = nv;
        call("shmem_put64_nbi", (void *)cm, (const void *)&nb[me][nbi[me]], (size_t)1, k.home);
        break;
    case 2: call("shmem_long_atomic_add", cm, 1L, k.home); break;
    case 3: {
        long old = call<long>("shmem_long_atomic_fetch_add", cm, 1L, k.home);
        if (old != want) fail("PE %d holds lock %d: fetch_add on its counter returned %ld, expected %ld", me, l, old, want);
        break;
    }
    case 4: *(volatile long *)cm = nv; break;
    }
    k.cnt = nv;
    if (k.dn) {
        vector<unsigned char> d(k.dn);
        for (size_t i = 0; i < k.dn; i++) d[i] = (unsigned char)(nv * 7 + i);
        call("shmem_putmem", (void *)(cm + 1), (const void *)d.data(), k.dn, k.home);
    }
    compute(s.p3);
    if (k.owner != me) fail("PE %d holds lock %d but PE %d became its owner meanwhile", me, l, k.owner);
}
void c12() {
    np = chance(6) ? 7 + draw(4) : range(1, 6);
    SimParams sp = draw_sim(np);
    sp.strict_hints = 0; // the lock mixes accumulate operations, which MPI implementations keep atomic whatever the hint says
    desc("%s", sim_str(sp).c_str());
    draw_env_modes(30, false, true);
    far_blk.draw(5, 65536, 1024);
    int nl = 1 + draw(3);
    for (int i = 0; i < nl; i++) {
        L l;
        l.kind = draw(3);
        l.off = l.kind == 0 ? 8 * (i + draw(4)) + 64 * i : 64 * i + 8 * draw(8);
        l.home = draw(np);
        l.dn = chance(50) ? 0 : 1 + draw(chance(20) ? 900 : 40);
        lk.push_back(l);
        desc("lock %d in %s+%zu, data on PE %d (%zu bytes)", i, l.kind == 0 ? "heap" : l.kind == 1 ? "sdata" : "sbss", l.off, l.home, l.dn + 8);
    }
    int np_ = 1 + draw(2);
    ph.resize(np_);
    bool probe = chance(15);
    int probe_l = draw(nl), prober = draw(np);
    if (probe) desc("PE %d holds lock %d while the others test it", prober, probe_l);
    int total = 0;
    for (int f = 0; f < np_; f++) {
        ph[f].resize(np);
        for (int p = 0; p < np; p++) {
            int n = draw(chance(25) ? 12 : 6);
            for (int i = 0; i < n; i++) {
                Step s;
                s.lock = draw(nl);
                s.method = pickw({6, 3, 2});
                s.nested = s.lock + 1 < nl && chance(20) ? s.lock + 1 + (int)draw(nl - s.lock - 1) : -1;
                s.nmethod = pickw({3, 2, 1});
                s.rd = draw(4);
                s.wr = draw(5);
                s.p1 = draw(20);
                s.p2 = draw(chance(10) ? 300 : 8);
                s.p3 = draw(chance(10) ? 300 : 8);
                ph[f][p].push_back(s);
                total++;
                desc("phase %d PE %d: %s lock %d%s, read %d write %d pauses %d %d %d", f, p, s.method == 0 ? "set" : s.method == 1 ? "test until held" : "test once", s.lock,
                     s.nested >= 0 ? fmt(" then %s lock %d", s.nmethod == 0 ? "set" : s.nmethod == 1 ? "test until held" : "test once", s.nested).c_str() : "", s.rd, s.wr, s.p1, s.p2, s.p3);
            }
        }
    }
    run_case(sp, [&](int me) {
        call("shmem_init");
        far_blk.take(me);
        heap[me] = call<char *>("shmem_calloc", (size_t)1, (size_t)4096);
        if (!heap[me]) fail("shmem_calloc failed");
        for (int l = 0; l < nl; l++) {
            *lockp(me, l) = 0;
            memset(cell(me, l), 0, 1024);
            for (size_t i = 0; i < lk[l].dn; i++) cell(me, l)[8 + i] = (char)i;
        }
        call("shmem_barrier_all");
        if (probe) {
            if (me == prober) {
                acquire(me, probe_l, draw(2), 0);
            }
            call("shmem_barrier_all");
            if (me != prober && call<int>("shmem_test_lock", lockp(me, probe_l)) != 1) fail("PE %d: shmem_test_lock succeeded on a lock PE %d holds", me, prober);
            call("shmem_barrier_all");
            if (me == prober) release(me, probe_l);
            call("shmem_barrier_all");
        }
        for (int f = 0; f < np_; f++) {
            for (auto &s : ph[f][me]) {
                compute(s.p1);
                if (!acquire(me, s.lock, s.method, s.p1)) continue;
                sim_progress_mark();
                if (s.nested >= 0 && acquire(me, s.nested, s.nmethod, s.p1)) {
                    nested_n++;
                    Step t = s;
                    section(me, s.nested, t);
                    section(me, s.lock, s);
                    if (s.p1 & 1) {
                        release(me, s.nested);
                        release(me, s.lock);
                    } else {
                        release(me, s.lock);
                        release(me, s.nested);
                    }
                } else {
                    section(me, s.lock, s);
                    release(me, s.lock);
                }
                sim_progress_mark();
            }
            call("shmem_barrier_all");
            for (int l = 0; l < nl; l++)
                if (lk[l].home == me && *(volatile long *)cell(me, l) != lk[l].cnt) fail("PE %d: counter of lock %d is %ld after the barrier, expected %ld", me, l, *(long *)cell(me, l), lk[l].cnt);
            call("shmem_barrier_all");
        }
        call("shmem_free", (void *)heap[me]);
        far_blk.give(me);
        call("shmem_finalize");
    });
    count(0, acquired);
    count(1, contended);
    count(2, nested_n);
    count(3, tests_busy);
    if (contended + tests_busy >= 1 && acquired >= 3) nontrivial();
}
RegProp r12("C12", c12, "Random lock programs (1-6 PEs, 1-3 locks in heap or static data, set/test/single test, nesting, phases) with counters and data updated in the critical sections by every kind of access; non-trivial: at least three acquisitions and one attempt on a held lock.",
            {"acquisitions", "set_lock calls on a held lock", "nested acquisitions", "test_lock calls on a held lock"});
} // namespace
