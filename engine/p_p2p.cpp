// C11: point-to-point waits and tests.
#include "drf.hpp"
#include <algorithm>
#include <memory>
using std::string;
using std::vector;
namespace {
enum { EQ = 0x100001, NE, GT, GE, LT, LE };
const char *OPN[] = {"==", "!=", ">", ">=", "<", "<="};
struct Write {
    uint64_t v;
    int how, dn; // dn: payload bytes put before
    bool quiet;  // quiet (else fence) between payload and flag
    uint64_t issue = 0, done = ~0ull;
};
struct Flag {
    int kind, owner, writer, region; // writer -1: counter, incremented by anybody
    size_t off;
    vector<Write> w; // w[0] is the initial value
    char *pay[MAXPE];
    uint64_t init;
    vector<uint64_t> add_issue; // counters
    vector<uint64_t> add_val;
    uint64_t total = 0;
};
enum Ev { WR, ADD, WAIT, PROBE, PAUSE };
struct Event {
    int ev, pe, flag = 0, idx = 0, op = EQ, how = 0, n = 0;
    uint64_t cv = 0;
};
int np;
vector<Flag> F;
vector<Event> evs;
FarBlock far_blk;
char *heap[MAXPE];
int nwait, nblocked, ntest, nextreme, nfalse, npay;
char *base_of(int pe, int r) { return r == 0 ? heap[pe] : (char *)pe_sym(pe, r == 1 ? "oshv_sdata" : "oshv_sbss"); }
char *addr(int pe, const Flag &f) { return base_of(pe, f.region) + f.off; }
bool cmp(int k, int op, uint64_t a, uint64_t b) {
    return with_type(k, [&](auto t) {
        using T = decltype(t);
        T x = (T)a, y = (T)b;
        if constexpr (std::is_integral<T>::value) {
            x = (T)a;
            y = (T)b;
        }
        switch (op) {
        case EQ: return x == y;
        case NE: return x != y;
        case GT: return x > y;
        case GE: return x >= y;
        case LT: return x < y;
        default: return x <= y;
        }
    });
}
uint64_t trunc_to(int k, uint64_t v) {
    int s = tk_size[k];
    return s == 8 ? v : v & ((1ull << (8 * s)) - 1);
}
string show(int k, uint64_t v) {
    return with_type(k, [&](auto t) {
        using T = decltype(t);
        if (tk_signed[k]) return fmt("%lld", (long long)(T)v);
        return fmt("%llu", (unsigned long long)(T)v);
    });
}
uint64_t draw_val(int k) {
    uint64_t top = 1ull << (8 * tk_size[k] - 1);
    switch (pickw({4, 4, 2, 2})) {
    case 0: return draw(4);
    case 1: return trunc_to(k, pick<uint64_t>({0, top - 1, top, top + 1, ~0ull, ~0ull - 1, 1, 0x80, 0x7fff, 0x8000, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull}));
    case 2: return trunc_to(k, draw64());
    default: return trunc_to(k, (uint64_t)0 - draw(5));
    }
}
bool has_atomic(int k) { return std::count(T_AMO_STD.begin(), T_AMO_STD.end(), k); }
unsigned char pbyte(int f, int i, size_t j) { return (unsigned char)(f * 37 + i * 101 + j * 3 + 5); }
void do_write(int me, int fi, int i) {
    Flag &f = F[fi];
    Write &w = f.w[i];
    if (w.dn) {
        static vector<vector<unsigned char>> keep[MAXPE];
        keep[me].emplace_back(w.dn);
        auto &d = keep[me].back();
        for (int j = 0; j < w.dn; j++) d[j] = pbyte(fi, i, j);
        char *dst = f.pay[me] + 64 * i;
        if (w.how & 1) call("shmem_putmem_nbi", (void *)dst, (const void *)d.data(), (size_t)w.dn, f.owner);
        else call("shmem_putmem", (void *)dst, (const void *)d.data(), (size_t)w.dn, f.owner);
        npay++;
    }
    call(w.quiet ? "shmem_quiet" : "shmem_fence");
    w.issue = sim_now();
    void *a = addr(me, f);
    with_type(f.kind, [&](auto t) {
        using T = decltype(t);
        const char *n = tk_name[f.kind];
        T v = (T)w.v;
        int how = w.how % (has_atomic(f.kind) ? 6 : 4);
        if (me == f.owner && how == 3) { // local store by the owner itself
            *(volatile T *)a = v;
            return 0;
        }
        static vector<std::unique_ptr<char[]>> keep;
        switch (how) {
        case 0:
        case 3: call(fmt("shmem_%s_p", n).c_str(), (T *)a, v, f.owner); break;
        case 1: call(fmt("shmem_%s_put", n).c_str(), (T *)a, (const T *)&v, (size_t)1, f.owner); break;
        case 2:
            keep.emplace_back(new char[sizeof(T)]);
            memcpy(keep.back().get(), &v, sizeof(T));
            call("shmem_putmem_nbi", a, (const void *)keep.back().get(), sizeof(T), f.owner);
            break;
        case 4: call(fmt("shmem_%s_atomic_set", n).c_str(), (T *)a, v, f.owner); break;
        case 5: call<T>(fmt("shmem_%s_atomic_swap", n).c_str(), (T *)a, v, f.owner); break;
        }
        return 0;
    });
    if (w.how & 8) {
        call("shmem_quiet");
        w.done = sim_now();
        for (int j = 1; j < i; j++) f.w[j].done = std::min(f.w[j].done, w.done);
    }
}
// is there a moment in [t0,t1] at which the flag may have held a value with the wanted verdict?
bool possible(const Flag &f, const Event &e, uint64_t t0, uint64_t t1, bool want, int *first) {
    for (size_t i = 0; i < f.w.size(); i++) {
        if (i && (!f.w[i].issue || f.w[i].issue > t1)) break;
        bool gone = false;
        for (size_t j = i + 1; j < f.w.size(); j++)
            if (f.w[j].issue && f.w[j].done < t0) gone = true;
        if (gone) continue;
        if (cmp(f.kind, e.op, f.w[i].v, e.cv) == want) {
            *first = (int)i;
            return true;
        }
    }
    return false;
}
void do_wait(int me, const Event &e) {
    Flag &f = F[e.flag];
    void *a = addr(me, f);
    string n = tk_name[f.kind];
    string what = fmt("(flag %d %s %s)", e.flag, OPN[e.op - EQ], show(f.kind, e.cv).c_str());
    auto justify = [&](uint64_t t0, uint64_t t1, bool verdict, const char *name) {
        if (f.writer < 0) { // counter
            uint64_t s = f.init, smin = f.init;
            for (size_t i = 0; i < f.add_val.size(); i++)
                if (f.add_issue[i] && f.add_issue[i] <= t1) s += f.add_val[i];
            (void)smin;
            // values only grow, so a true verdict on >= needs enough increments issued
            if (verdict && (e.op == GE || e.op == GT || e.op == EQ) && (long)s < (long)e.cv + (e.op == GT)) fail("PE %d: %s %s succeeded although the increments issued so far only reach %ld", me, name, what.c_str(), (long)s);
            if (verdict && e.op == NE && s == e.cv) fail("PE %d: %s %s succeeded although no increment was issued", me, name, what.c_str());
            return;
        }
        int first = 0;
        if (!possible(f, e, t0, t1, verdict, &first)) fail("PE %d: %s %s %s although the object cannot have held a value that %s it", me, name, what.c_str(), verdict ? "succeeded" : "reported false", verdict ? "satisfies" : "violates");
        if (verdict)
            for (int i = 1; i <= first; i++)
                for (int j = 0; j < f.w[i].dn; j++)
                    if ((unsigned char)f.pay[me][64 * i + j] != pbyte(e.flag, i, j))
                        fail("PE %d: after %s %s byte %d of the data put before value %d is %02x, expected %02x", me, name, what.c_str(), j, i, (unsigned char)f.pay[me][64 * i + j], pbyte(e.flag, i, j));
    };
    with_type(f.kind, [&](auto t) {
        using T = decltype(t);
        T v = (T)e.cv;
        bool pre = true;
        {
            T cur;
            memcpy(&cur, a, sizeof cur);
            pre = cmp(f.kind, e.op, (uint64_t)cur, e.cv);
        }
        nwait++;
        if (!pre) nblocked++;
        if (e.how < 2) { // wait
            uint64_t t0 = sim_now();
            bool old = e.op == NE && e.how == 1;
            const char *nm = "wait_until";
            if (old && f.kind == K_SHORT) call("shmem_short_wait", (T *)a, v), nm = "short_wait";
            else if (old && f.kind == K_INT) call("shmem_int_wait", (T *)a, v), nm = "int_wait";
            else if (old && f.kind == K_LONGLONG) call("shmem_longlong_wait", (T *)a, v), nm = "longlong_wait";
            else if (old && f.kind == K_LONG) call(e.n && pe_sym(me, "shmem_wait", false) ? "shmem_wait" : "shmem_long_wait", (T *)a, v), nm = "long_wait";
            else if (e.how == 1 && f.kind == K_LONG && pe_sym(me, "shmem_wait_until", false)) call("shmem_wait_until", (T *)a, e.op, v);
            else call(fmt("shmem_%s_wait_until", n.c_str()).c_str(), (T *)a, e.op, v);
            justify(t0, sim_now(), true, nm);
            return 0;
        }
        for (;;) {
            uint64_t t0 = sim_now();
            int r = call<int>(fmt("shmem_%s_test", n.c_str()).c_str(), (T *)a, e.op, v);
            ntest++;
            if (r != 0 && r != 1) fail("PE %d: test returned %d", me, r);
            justify(t0, sim_now(), r, "test");
            if (r) break;
            nfalse++;
            sim_pause(1 + e.n);
        }
        return 0;
    });
}
void c11() {
    np = chance(6) ? 6 + draw(5) : 1 + pickw({1, 5, 4, 3, 2});
    SimParams sp = draw_sim(np);
    desc("%s", sim_str(sp).c_str());
    draw_env_modes(30, false, true);
    far_blk.draw(5, 131072, 1024);
    int nf = 1 + draw(4);
    size_t off[3] = {16, 16, 16};
    for (int i = 0; i < nf; i++) {
        Flag f;
        f.kind = pickv(T_P2P);
        f.owner = draw(np);
        f.writer = chance(25) ? -1 : (int)draw(np);
        if (f.writer < 0) f.kind = pick({(int)K_LONG, (int)K_INT, (int)K_LONGLONG, (int)K_INT64, (int)K_INT32, (int)K_PTRDIFF});
        f.region = draw(3);
        size_t s = tk_size[f.kind];
        f.off = (off[f.region] + s - 1) / s * s;
        if (chance(30)) f.off += s * draw(3);
        off[f.region] = f.off + s;
        f.init = f.writer < 0 ? draw(3) : draw_val(f.kind);
        Write w0{f.init, 0, 0, false};
        w0.issue = 1;
        w0.done = 0;
        f.w.push_back(w0);
        F.push_back(f);
        desc("flag %d: %s at %s+%zu of PE %d, initially %s, %s", i, tk_name[f.kind], f.region == 0 ? "heap" : f.region == 1 ? "sdata" : "sbss", f.off, f.owner, show(f.kind, f.init).c_str(),
             f.writer < 0 ? "incremented by all" : fmt("written by PE %d", f.writer).c_str());
    }
    int n = 4 + draw(chance(20) ? 50 : 20);
    for (int i = 0; i < n; i++) {
        Event e;
        int k = pickw({8, 7, 4, 3});
        e.flag = draw(nf);
        Flag &f = F[e.flag];
        if (k == 0) {
            if (f.writer < 0) {
                e.ev = ADD;
                e.pe = draw(np);
                e.cv = 1 + draw(3);
                e.how = draw(3);
                e.idx = (int)f.add_val.size();
                f.add_val.push_back(e.cv);
                f.add_issue.push_back(0);
                f.total += e.cv;
            } else {
                if (f.w.size() > 20) continue;
                e.ev = WR;
                e.pe = f.writer;
                Write w;
                w.v = draw_val(f.kind);
                w.how = draw(16);
                w.dn = chance(50) ? 0 : 1 + draw(60);
                w.quiet = chance(30);
                e.idx = (int)f.w.size();
                f.w.push_back(w);
            }
        } else if (k == 1) {
            e.ev = WAIT;
            e.pe = f.owner;
            e.how = draw(4);
            e.n = draw(5);
            e.idx = f.writer < 0 ? (int)f.add_val.size() : (int)f.w.size() - 1; // values known to come
        } else if (k == 2) {
            e.ev = PROBE;
            e.pe = draw(np);
            e.n = draw(np);
            e.how = draw(3);
        } else {
            e.ev = PAUSE;
            e.pe = draw(np);
            e.n = 1 + draw(chance(20) ? 200 : 20);
        }
        evs.push_back(e);
    }
    // conditions that hold for every value from the wait's position on
    for (auto &e : evs)
        if (e.ev == WAIT) {
            Flag &f = F[e.flag];
            bool ok = false;
            for (int t = 0; t < 24 && !ok; t++) {
                e.op = EQ + (int)draw(6);
                if (f.writer < 0) {
                    uint64_t now = f.init;
                    for (int i = 0; i < e.idx; i++) now += f.add_val[i];
                    if (e.op == LT || e.op == LE) continue;
                    if (e.op == EQ) {
                        if (e.idx != (int)f.add_val.size()) continue;
                        e.cv = now;
                    } else if (e.op == NE) {
                        if (now == f.init) continue;
                        e.cv = f.init;
                    } else {
                        e.cv = now - (now ? draw((uint32_t)std::min<uint64_t>(now, 3)) : 0);
                        if (e.op == GT) {
                            if (!e.cv) continue;
                            e.cv--;
                        }
                    }
                    ok = true;
                    continue;
                }
                e.cv = chance(50) ? draw_val(f.kind) : f.w[draw((uint32_t)f.w.size())].v;
                ok = true;
                for (size_t i = e.idx; i < f.w.size(); i++) ok = ok && cmp(f.kind, e.op, f.w[i].v, e.cv);
                // preferably not satisfied by the values before
                if (t < 16 && e.idx && (cmp(f.kind, e.op, f.w[0].v, e.cv) || cmp(f.kind, e.op, f.w[e.idx - 1].v, e.cv))) ok = false;
            }
            if (!ok) {
                e.op = GE;
                if (f.writer < 0) e.cv = f.init;
                else e.cv = tk_signed[f.kind] ? trunc_to(f.kind, 1ull << (8 * tk_size[f.kind] - 1)) : 0;
            }
            uint64_t top = 1ull << (8 * tk_size[f.kind] - 1);
            if (trunc_to(f.kind, e.cv) >= top - 1) nextreme++;
        }
    for (size_t i = 0; i < evs.size(); i++) {
        auto &e = evs[i];
        Flag &f = F[e.flag];
        switch (e.ev) {
        case WR: desc("%zu: PE %d writes %s to flag %d (kind %d%s%s)", i, e.pe, show(f.kind, f.w[e.idx].v).c_str(), e.flag, f.w[e.idx].how, f.w[e.idx].dn ? fmt(", after %d bytes of data", f.w[e.idx].dn).c_str() : "", f.w[e.idx].quiet ? ", quiet" : ", fence"); break;
        case ADD: desc("%zu: PE %d adds %lu to flag %d", i, e.pe, (unsigned long)e.cv, e.flag); break;
        case WAIT: desc("%zu: PE %d %s flag %d %s %s", i, e.pe, e.how < 2 ? "waits until" : "tests until", e.flag, OPN[e.op - EQ], show(f.kind, e.cv).c_str()); break;
        case PROBE: desc("%zu: PE %d reads from PE %d (kind %d)", i, e.pe, e.n, e.how); break;
        case PAUSE: desc("%zu: PE %d computes %d", i, e.pe, e.n); break;
        }
    }
    run_case(sp, [&](int me) {
        call("shmem_init");
        far_blk.take(me);
        heap[me] = call<char *>("shmem_calloc", (size_t)1, (size_t)(1024 + 64 * 22 * F.size()));
        if (!heap[me]) fail("shmem_calloc failed");
        for (size_t i = 0; i < F.size(); i++) {
            F[i].pay[me] = heap[me] + 1024 + 64 * 22 * i;
            with_type(F[i].kind, [&](auto t) {
                using T = decltype(t);
                T v = (T)F[i].init;
                memcpy(addr(me, F[i]), &v, sizeof v);
                return 0;
            });
        }
        long *scratch = (long *)(heap[me] + 960);
        *scratch = 100 + me;
        call("shmem_barrier_all");
        for (auto &e : evs) {
            if (e.pe != me) continue;
            switch (e.ev) {
            case WR: do_write(me, e.flag, e.idx); break;
            case ADD: {
                Flag &f = F[e.flag];
                f.add_issue[e.idx] = sim_now();
                with_type(f.kind, [&](auto t) {
                    using T = decltype(t);
                    T *a = (T *)addr(me, f);
                    const char *n = tk_name[f.kind];
                    if (e.cv == 1 && e.how == 1) call(fmt("shmem_%s_atomic_inc", n).c_str(), a, f.owner);
                    else if (e.how == 2) call<T>(fmt("shmem_%s_atomic_fetch_add", n).c_str(), a, (T)e.cv, f.owner);
                    else call(fmt("shmem_%s_atomic_add", n).c_str(), a, (T)e.cv, f.owner);
                    return 0;
                });
                break;
            }
            case WAIT: do_wait(me, e); break;
            case PROBE: {
                long v = 0;
                if (e.how == 0) v = call<long>("shmem_long_g", (const long *)scratch, e.n);
                else if (e.how == 1) v = call<long>("shmem_long_atomic_fetch", (const long *)scratch, e.n);
                else call("shmem_getmem", (void *)&v, (const void *)scratch, (size_t)8, e.n);
                if (v != 100 + e.n) fail("PE %d read %ld from PE %d", me, v, e.n);
                break;
            }
            case PAUSE: compute(e.n); break;
            }
            sim_progress_mark();
        }
        call("shmem_barrier_all");
        for (size_t i = 0; i < F.size(); i++) {
            Flag &f = F[i];
            uint64_t want = f.writer < 0 ? f.init + f.total : f.w.back().v;
            with_type(f.kind, [&](auto t) {
                using T = decltype(t);
                T v;
                memcpy(&v, addr(me, f), sizeof v);
                T w = me == f.owner ? (T)want : (T)f.init;
                if (v != w) fail("PE %d: flag %zu is %s after the final barrier, expected %s", me, i, show(f.kind, (uint64_t)v).c_str(), show(f.kind, (uint64_t)w).c_str());
                return 0;
            });
        }
        call("shmem_barrier_all");
        call("shmem_free", (void *)heap[me]);
        far_blk.give(me);
        call("shmem_finalize");
    });
    count(0, nwait);
    count(1, nblocked);
    count(2, ntest);
    count(3, nfalse);
    count(4, nextreme);
    count(5, npay);
    if (nblocked >= 1) nontrivial();
}
RegProp r11("C11", c11, "Random flag programs: values (including signed and unsigned extremes) written by put, atomic or store, waits and tests with every operator; verdicts must be explained by a value the object can have held meanwhile, and the data ordered before that value must be visible; non-trivial: at least one wait that starts before its condition holds.",
            {"waits", "waits that started before the condition held", "test calls", "tests that reported false", "comparisons with extreme values", "payloads ordered before a flag"});
} // namespace
