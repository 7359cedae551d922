// C25: every spelling of an operation does the same.
#include "drf.hpp"
#include <algorithm>
using std::string;
using std::vector;
namespace {
typedef vector<uint8_t> Bytes;
enum Cl { RMA, STD, EXT, BIT, P2P, COLL, RED, SYNC, MEM };
const char *RMAN[] = {"put", "get", "put_nbi", "get_nbi", "iput", "iget", "p", "g"};
const char *STDN[] = {"compare_swap", "fetch_inc", "inc", "fetch_add", "add", "compare_swap_nbi", "fetch_inc_nbi", "fetch_add_nbi"};
const char *EXTN[] = {"fetch", "set", "swap", "fetch_nbi", "swap_nbi"};
const char *BITN[] = {"and", "or", "xor", "fetch_and", "fetch_or", "fetch_xor", "fetch_and_nbi", "fetch_or_nbi", "fetch_xor_nbi"};
const char *COLLN[] = {"broadcast", "collect", "fcollect", "alltoall", "alltoalls"};
const char *REDN[] = {"max", "min", "sum", "prod", "and", "or", "xor"};
const char *FORMN[] = {"typed", "typed with context", "generic", "generic with context", "deprecated", "deprecated generic", "deprecated generic with context", "fixed width", "fixed width with context", "bytes", "bytes with context", "active set", "C++"};
constexpr size_t ZONE = 2560, DOFF = 0, SOFF = ZONE, WOFF = 2 * ZONE, POFF = 12288; // in oshv_sdata
struct Sp {
    int tk, form;
};
struct Event {
    int cl, op, actor, target, tk, esz;
    size_t n, doff, soff;
    ptrdiff_t dst, sst;
    int root, cmp, noise;
    uint64_t val[2], cval[2], init[2];
    vector<size_t> ns; // per PE (collect)
    vector<Bytes> d0, s0; // per PE
    vector<Sp> sp;
};
int np;
vector<Event> evs;
int n_sp, n_gen, n_dep, n_sized, n_cls[9];
void bval(int tk, uint64_t *v) { // a value of the type, at boundaries
    v[0] = v[1] = 0;
    if (tk == K_FLOAT || tk == K_DOUBLE || tk == K_LONGDOUBLE || tk == K_COMPLEXF || tk == K_COMPLEXD) {
        double x = (int)draw(2001) - 1000;
        if (chance(30)) x /= 64;
        if (chance(10)) x *= 1e9;
        if (tk == K_FLOAT || tk == K_COMPLEXF) {
            float f[2] = {(float)x, (float)(int)draw(9)};
            memcpy(v, f, tk == K_FLOAT ? 4 : 8);
        } else if (tk == K_LONGDOUBLE) {
            long double l = x;
            memcpy(v, &l, 10);
        } else {
            double d[2] = {x, (double)draw(9)};
            memcpy(v, d, tk == K_DOUBLE ? 8 : 16);
        }
        return;
    }
    switch (pickw({2, 4, 2, 3})) {
    case 0: v[0] = draw(4); break;
    case 1: {
        int b = tk_size[tk] * 8;
        uint64_t top = 1ull << (b - 1);
        v[0] = pick<uint64_t>({~0ull, top, top - 1, top + 1, ~0ull - 1, 0, b > 8 ? 1ull << (b / 2) : 16, b > 8 ? 1ull << (b / 2 - 1) : 8});
        break;
    }
    case 2: v[0] = 1ull << draw(tk_size[tk] * 8); break;
    default: v[0] = draw64();
    }
    if (tk_size[tk] < 8) v[0] &= (1ull << (8 * tk_size[tk])) - 1;
}
bool cmp_holds(int tk, int cmp, uint64_t a, uint64_t b) {
    return with_type(tk, [&](auto z) {
        decltype(z) x, y;
        memcpy(&x, &a, sizeof x);
        memcpy(&y, &b, sizeof y);
        switch (cmp) {
        case 0x100001: return x == y;
        case 0x100002: return x != y;
        case 0x100003: return x > y;
        case 0x100004: return x >= y;
        case 0x100005: return x < y;
        default: return x <= y;
        }
    });
}
bool has(const vector<int> &v, int k) { return std::find(v.begin(), v.end(), k) != v.end(); }
// all spellings of the event
vector<Sp> spellings(const Event &e) {
    vector<Sp> r;
    auto same = [&](const vector<int> &ts, auto f) {
        for (int k : ts)
            if (tk_size[k] == e.esz && (k == e.tk || (tk_float(k) == tk_float(e.tk) && (e.cl == RMA || e.cl == COLL || tk_signed[k] == tk_signed[e.tk])))) f(k);
    };
    switch (e.cl) {
    case RMA:
        same(T_RMA, [&](int k) { for (int f = 0; f < 4; f++) r.push_back({k, f}); });
        if (e.op < 6) r.push_back({e.tk, 7}), r.push_back({e.tk, 8}), r.push_back({e.tk, 7}), r.push_back({e.tk, 8});
        if (e.op < 4) r.push_back({e.tk, 9}), r.push_back({e.tk, 10}), r.push_back({e.tk, 9}), r.push_back({e.tk, 10});
        break;
    case STD: same(T_AMO_STD, [&](int k) { for (int f = 0; f < (e.op < 5 ? 7 : 4); f++) r.push_back({k, f}); }); break;
    case EXT: same(T_AMO_EXT, [&](int k) { for (int f = 0; f < (e.op < 3 ? 7 : 4); f++) r.push_back({k, f}); }); break;
    case BIT: same(T_AMO_BIT, [&](int k) { for (int f = 0; f < 4; f++) r.push_back({k, f}); }); break;
    case P2P:
        same(T_P2P, [&](int k) {
            r.push_back({k, 0});
            r.push_back({k, 2});
            if (e.op == 0 && e.cmp == 0x100002 && (k == K_SHORT || k == K_INT || k == K_LONG || k == K_LONGLONG)) r.push_back({k, 4}), r.push_back({k, 4});
        });
        if (e.op == 0 && e.esz == 8 && tk_signed[e.tk]) {
            r.push_back({K_LONG, 12});
            if (e.cmp == 0x100002) r.push_back({K_LONG, 11}); // shmem_wait
        }
        break;
    case COLL:
        same(T_RMA, [&](int k) { r.push_back({k, 0}); r.push_back({k, 2}); });
        if (e.op < 4 || e.esz == 1) r.push_back({e.tk, 9}), r.push_back({e.tk, 9});
        if (e.esz == 4 || e.esz == 8) r.push_back({e.tk, 11}), r.push_back({e.tk, 11}), r.push_back({e.tk, 11});
        break;
    case RED: {
        auto add = [&](const vector<int> &t, const vector<int> &a) {
            same(t, [&](int k) { r.push_back({k, 0}); r.push_back({k, 2}); });
            same(a, [&](int k) { r.push_back({k, 4}); r.push_back({k, 4}); });
        };
        if (e.op < 2) add(T_RED_MM_T, T_RED_MM_A);
        else if (e.op < 4) {
            for (int k : T_RED_SP_T)
                if (k == e.tk || (tk_size[k] == e.esz && !tk_float(e.tk) && !tk_float(k) && tk_signed[k] == tk_signed[e.tk])) r.push_back({k, 0}), r.push_back({k, 2});
            for (int k : T_RED_SP_A)
                if (k == e.tk || (tk_size[k] == e.esz && !tk_float(e.tk) && !tk_float(k) && tk_signed[k] == tk_signed[e.tk])) r.push_back({k, 4}), r.push_back({k, 4});
        } else // bitwise: signedness does not matter
            for (int pass = 0; pass < 2; pass++)
                for (int k : pass ? T_RED_BIT_A : T_RED_BIT_T)
                    if (tk_size[k] == e.esz) {
                        r.push_back({k, pass ? 4 : 0});
                        r.push_back({k, pass ? 4 : 2});
                    }
        break;
    }
    case SYNC: for (int f = 0; f < 8; f++) r.push_back({0, f}); break;
    case MEM: for (int f = 0; f < 8; f++) r.push_back({0, f}); break;
    }
    return r;
}
string ev_str(const Event &e) {
    switch (e.cl) {
    case RMA: return fmt("PE %d: %s of %s, %zu elements, PE %d, strides %td %td", e.actor, RMAN[e.op], tk_name[e.tk], e.n, e.target, e.dst, e.sst);
    case STD: return fmt("PE %d: atomic %s of %s on PE %d: old %llx value %llx cond %llx", e.actor, STDN[e.op], tk_name[e.tk], e.target, (unsigned long long)e.init[0], (unsigned long long)e.val[0], (unsigned long long)e.cval[0]);
    case EXT: return fmt("PE %d: atomic %s of %s on PE %d: old %llx value %llx", e.actor, EXTN[e.op], tk_name[e.tk], e.target, (unsigned long long)e.init[0], (unsigned long long)e.val[0]);
    case BIT: return fmt("PE %d: atomic %s of %s on PE %d: old %llx value %llx", e.actor, BITN[e.op], tk_name[e.tk], e.target, (unsigned long long)e.init[0], (unsigned long long)e.val[0]);
    case P2P: return fmt("PE %d: %s of %s, variable %llx, comparison %x with %llx", e.actor, e.op ? "test" : "wait_until", tk_name[e.tk], (unsigned long long)e.init[0], e.cmp, (unsigned long long)e.val[0]);
    case COLL: return fmt("%s of %s, %zu elements, root %d, strides %td %td", COLLN[e.op], tk_name[e.tk], e.n, e.root, e.dst, e.sst);
    case RED: return fmt("%s reduction of %s, %zu elements", REDN[e.op], tk_name[e.tk], e.n);
    case SYNC: return "synchronisation";
    default: return fmt("allocate %zu, resize to %zu, align %zu", e.n, e.doff, e.soff);
    }
}
void draw_event(Event &e) {
    e.cl = pickw({6, 4, 3, 3, 4, 3, 4, 1, 1});
    e.actor = draw(np);
    e.target = (e.actor + (np > 1 && chance(85) ? 1 + draw(np - 1) : 0)) % np;
    e.root = draw(np);
    e.noise = draw(4);
    e.dst = e.sst = 1;
    e.n = e.doff = e.soff = 0;
    e.cmp = 0;
    e.tk = K_INT;
    memset(e.init, 0, sizeof e.init);
    e.d0.assign(np, {});
    e.s0.assign(np, {});
    switch (e.cl) {
    case RMA: e.op = draw(8); e.tk = pickv(T_RMA); break;
    case STD: e.op = draw(8); e.tk = pickv(T_AMO_STD); break;
    case EXT: e.op = draw(5); e.tk = pickv(T_AMO_EXT); break;
    case BIT: e.op = draw(9); e.tk = pickv(T_AMO_BIT); break;
    case P2P: e.op = draw(2); e.tk = pickv(T_P2P); break;
    case COLL: e.op = draw(5); e.tk = pickv(T_RMA); break;
    case RED:
        e.op = draw(7);
        e.tk = e.op < 2 ? pickv(T_RED_MM_T) : e.op < 4 ? pickv(chance(20) ? vector<int>{K_COMPLEXD, K_COMPLEXF} : T_RED_SP_T) : chance(30) ? pickv(T_RED_BIT_A) : pickv(T_RED_BIT_T);
        break;
    default: e.op = 0;
    }
    e.esz = tk_size[e.tk];
    bval(e.tk, e.val);
    bval(e.tk, e.cval);
    bval(e.tk, e.init);
    if (e.cl == STD && chance(50)) memcpy(e.cval, e.init, 16);
    if (e.cl == P2P) {
        if (chance(40)) memcpy(e.val, e.init, 16);
        e.cmp = 0x100001 + draw(6);
        if (e.op == 0 && chance(30)) e.cmp = 0x100002;
        if (e.op == 0 && !cmp_holds(e.tk, e.cmp, e.init[0], e.val[0])) { // a satisfied comparison: the opposite one
            static const int inv[] = {0x100002, 0x100001, 0x100006, 0x100005, 0x100004, 0x100003};
            e.cmp = inv[e.cmp - 0x100001];
        }
    }
    bool bytes = e.cl == RMA || e.cl == COLL || e.cl == RED;
    if (bytes) {
        e.n = e.cl == RMA && e.op >= 6 ? 1 : draw(chance(10) ? 20 : 7);
        if (e.cl != RMA || e.op < 6) e.n = std::max<size_t>(e.n, chance(90) ? 1 : 0);
        if (e.cl == RMA && (e.op == 4 || e.op == 5)) e.dst = 1 + draw(4), e.sst = 1 + draw(4);
        if (e.cl == COLL && e.op == 4) e.dst = 1 + draw(3), e.sst = 1 + draw(3), e.n = std::min<size_t>(e.n, 6);
        if (e.cl == RED && e.n == 0) e.n = 1;
        e.doff = e.cl == RMA ? draw(4) * e.esz : draw(4) * 16;
        e.soff = e.cl == RMA ? draw(4) * e.esz : draw(4) * 16;
        if (e.cl == RMA && (e.op < 4) && e.esz < 4 && chance(30)) e.doff += draw(4) * e.esz;
        for (int p = 0; p < np; p++) {
            e.d0[p].resize(ZONE);
            e.s0[p].resize(ZONE);
            for (size_t i = 0; i < ZONE; i++) {
                e.d0[p][i] = (uint8_t)(i * 7 + p * 31 + 1);
                e.s0[p][i] = (uint8_t)(i * 13 + p * 57 + 101);
            }
            if (e.cl == RED || (e.cl == RMA && e.op >= 6))
                for (size_t i = 0; i < e.n; i++) {
                    uint64_t v[2];
                    bval(e.tk, v);
                    if (e.cl == RED && e.op >= 2 && e.op < 4) { // exact in any order
                        if (tk_float(e.tk)) {
                            double x = (int)draw(9) - 4, y = (int)draw(9) - 4;
                            v[0] = v[1] = 0;
                            if (e.tk == K_FLOAT) { float f = (float)x; memcpy(v, &f, 4); }
                            if (e.tk == K_DOUBLE) memcpy(v, &x, 8);
                            if (e.tk == K_LONGDOUBLE) { long double l = x; memcpy(v, &l, 10); }
                            if (e.tk == K_COMPLEXF) { float f[2] = {(float)x, (float)y}; memcpy(v, f, 8); }
                            if (e.tk == K_COMPLEXD) { double f[2] = {x, y}; memcpy(v, f, 16); }
                        } else if (tk_signed[e.tk]) {
                            int64_t x = (int)draw(5) - 2; // no signed overflow
                            v[0] = (uint64_t)x;
                        }
                    }
                    memcpy(&e.s0[p][e.soff + i * e.esz], v, e.esz);
                }
        }
        if (e.cl == RMA && e.op == 6) memcpy(&e.val, &e.s0[e.actor][e.soff], e.esz);
    }
    e.ns.assign(np, e.n);
    if (e.cl == COLL && e.op == 1)
        for (auto &n : e.ns) n = draw(5);
    if (e.cl == MEM) e.n = 1 + draw(3000), e.doff = 1 + draw(3000), e.soff = 8u << draw(6);
    auto all = spellings(e);
    int m = 2 + draw(3);
    for (int i = 0; i < m; i++) e.sp.push_back(pickv(all));
    desc("%s", ev_str(e).c_str());
    string s;
    for (auto &x : e.sp) s += fmt("%s%s %s", s.empty() ? "    as " : ", ", e.cl >= SYNC ? fmt("form %d", x.form).c_str() : FORMN[x.form], e.cl >= SYNC ? "" : tk_name[x.tk]);
    desc("%s", s.c_str());
}
string nm(const char *cat, const Sp &s) { return string("oshv_sp_") + tk_name[s.tk] + cat; }
void must(const Event &e, const Sp &s) {
    const char *err = (const char *)pe_sym(0, (string("oshv_sp_err_") + (e.cl == SYNC ? s.form < 2 ? "sync" : "cxx" : s.form == 12 || (s.form == 11 && e.cl == P2P) ? "cxx" : tk_name[s.tk])).c_str(), false);
    if (err) fail("a program that uses every declared spelling for this type does not compile: %s", err);
}
uint64_t mask(int esz) { return esz >= 8 ? ~0ull : (1ull << (8 * esz)) - 1; }
void run_rma(const Event &e, const Sp &s, int me, char *z) {
    // expected contents of all PEs
    vector<Bytes> D = e.d0;
    Bytes got(e.esz), want(e.esz);
    int esz = e.esz;
    bool isget = e.op == 1 || e.op == 3 || e.op == 5 || e.op == 7;
    int dp = isget ? e.actor : e.target, sp_ = isget ? e.target : e.actor;
    size_t vb = e.tk == K_LONGDOUBLE && e.op >= 6 ? 10 : esz; // bytes that carry the value
    if (e.op < 6)
        for (size_t i = 0; i < e.n; i++) memcpy(&D[dp][e.doff + i * e.dst * esz], &e.s0[sp_][e.soff + i * e.sst * esz], esz);
    if (e.op == 6) memcpy(&D[dp][e.doff], e.val, vb);
    if (me == e.actor) {
        char *d = z + DOFF + e.doff, *sr = z + SOFF + e.soff;
        uint64_t val[2] = {e.val[0], e.val[1]};
        if (e.op == 7) val[0] = val[1] = 0x5555555555555555ull;
        if (s.form < 4) {
            if (!call<int>(nm("_rma", s).c_str(), e.op, s.form, (void *)d, (void *)sr, e.dst, e.sst, e.n, e.target, (void *)val)) fail("harness: form");
        } else {
            bool ctx = s.form == 8 || s.form == 10;
            string base = e.op == 0 || e.op == 2 ? "put" : e.op == 1 || e.op == 3 ? "get" : RMAN[e.op];
            string f = string("shmem_") + (ctx ? "ctx_" : "") + base + (s.form >= 9 ? "mem" : std::to_string(esz * 8)) + (e.op == 2 || e.op == 3 ? "_nbi" : "");
            size_t n = s.form >= 9 ? e.n * esz : e.n;
            if (e.op < 4) {
                if (ctx) call(f.c_str(), O_CTX_DEFAULT, (void *)d, (const void *)sr, n, e.target);
                else call(f.c_str(), (void *)d, (const void *)sr, n, e.target);
            } else {
                if (ctx) call(f.c_str(), O_CTX_DEFAULT, (void *)d, (const void *)sr, e.dst, e.sst, n, e.target);
                else call(f.c_str(), (void *)d, (const void *)sr, e.dst, e.sst, n, e.target);
            }
        }
        call("shmem_quiet");
        if (e.op == 7 && memcmp(val, &e.s0[e.target][e.soff], vb)) fail("PE %d: %s as %s %s gave %s, expected %s", me, ev_str(e).c_str(), FORMN[s.form], tk_name[s.tk], hex(val, vb).c_str(), hex(&e.s0[e.target][e.soff], vb).c_str());
    }
    call("shmem_barrier_all");
    if (e.op == 6 && e.tk == K_LONGDOUBLE && me == dp) memcpy(&D[dp][e.doff + 10], z + DOFF + e.doff + 10, 6); // padding
    for (size_t i = 0; i < ZONE; i++) {
        if ((uint8_t)z[DOFF + i] != D[me][i]) fail("PE %d: %s as %s %s: byte %zu of the destination zone is %02x, expected %02x (destination starts at %zu)", me, ev_str(e).c_str(), FORMN[s.form], tk_name[s.tk], i, (uint8_t)z[DOFF + i], D[me][i], e.doff);
        if ((uint8_t)z[SOFF + i] != e.s0[me][i]) fail("PE %d: %s as %s %s changed its source", me, ev_str(e).c_str(), FORMN[s.form], tk_name[s.tk]);
    }
}
void run_amo(const Event &e, const Sp &s, int me, char *z) {
    if (me == e.actor) {
        uint64_t f[2] = {0x5a5a5a5a5a5a5a5aull, 0}, v[2] = {e.val[0], 0}, c[2] = {e.cval[0], 0};
        const char *cat = e.cl == STD ? "_std" : e.cl == EXT ? "_ext" : "_bit";
        if (!call<int>(nm(cat, s).c_str(), e.op, s.form, (void *)f, (void *)(z + DOFF + 16), (void *)v, (void *)c, e.target)) fail("harness: form");
        call("shmem_quiet");
        bool fetches = e.cl == STD ? e.op != 2 && e.op != 4 : e.cl == EXT ? e.op != 1 : e.op >= 3;
        uint64_t want = e.init[0];
        if (fetches && ((f[0] ^ want) & mask(e.esz))) fail("PE %d: %s as %s %s fetched %llx", me, ev_str(e).c_str(), FORMN[s.form], tk_name[s.tk], (unsigned long long)(f[0] & mask(e.esz)));
        if ((f[0] ^ 0x5a5a5a5a5a5a5a5aull) & ~mask(e.esz)) fail("PE %d: %s as %s %s wrote beyond its result", me, ev_str(e).c_str(), FORMN[s.form], tk_name[s.tk]);
    }
    call("shmem_barrier_all");
    if (me != e.target) return;
    uint64_t o = e.init[0], v = e.val[0], w = o, g;
    if (e.cl == STD) switch (e.op) {
        case 0: case 5: w = o == e.cval[0] ? v : o; break;
        case 1: case 2: case 6: w = o + 1; break;
        default: w = o + v;
        }
    else if (e.cl == EXT) w = e.op == 0 || e.op == 3 ? o : v;
    else switch (e.op % 3) {
        case 0: w = o & v; break;
        case 1: w = o | v; break;
        default: w = o ^ v;
        }
    memcpy(&g, z + DOFF + 16, 8);
    uint64_t full = 0xa5a5a5a5a5a5a5a5ull;
    memcpy(&full, &w, e.esz);
    if (g != full) fail("PE %d: after %s as %s %s the variable is %llx, expected %llx", me, ev_str(e).c_str(), FORMN[s.form], tk_name[s.tk], (unsigned long long)g, (unsigned long long)full);
}
void run_p2p(const Event &e, const Sp &s, int me, char *z) {
    if (me != e.actor) return;
    int res = -7;
    uint64_t v[2] = {e.val[0], 0};
    if (s.form >= 11) {
        long val;
        memcpy(&val, v, 8);
        if (!call<int>("oshv_cxx_wait", s.form == 12 ? 0 : 1, (long *)(z + DOFF + 16), e.cmp, val)) fail("harness: form");
    } else if (!call<int>(nm("_p2p", s).c_str(), e.op, s.form, (void *)(z + DOFF + 16), e.cmp, (void *)v, &res)) fail("harness: form");
    if (e.op == 1 && (res != 0) != cmp_holds(e.tk, e.cmp, e.init[0], e.val[0])) fail("PE %d: %s as %s %s returned %d", me, ev_str(e).c_str(), FORMN[s.form], tk_name[s.tk], res);
}
void run_coll(const Event &e, const Sp &s, int me, char *z) {
    size_t esz = e.esz;
    char *d = z + DOFF + e.doff, *sr = z + SOFF + e.soff;
    int res = 0;
    size_t n = e.ns[me];
    long *sync = (long *)(z + POFF);
    if (s.form == 0 || s.form == 2) {
        if (!call<int>(nm("_coll", s).c_str(), e.op, s.form, O_TEAM_WORLD, (void *)d, (void *)sr, e.dst, e.sst, n, e.root, &res)) fail("harness: form");
    } else if (s.form == 9) {
        string f = string("shmem_") + COLLN[e.op] + "mem";
        if (e.op == 0) res = call<int>(f.c_str(), O_TEAM_WORLD, (void *)d, (const void *)sr, n * esz, e.root);
        else if (e.op < 4) res = call<int>(f.c_str(), O_TEAM_WORLD, (void *)d, (const void *)sr, n * esz);
        else res = call<int>(f.c_str(), O_TEAM_WORLD, (void *)d, (const void *)sr, e.dst, e.sst, n * esz);
    } else {
        string f = string("shmem_") + COLLN[e.op] + std::to_string(esz * 8);
        if (e.op == 0) call(f.c_str(), (void *)d, (const void *)sr, n, e.root, 0, 0, np, sync);
        else if (e.op < 4) call(f.c_str(), (void *)d, (const void *)sr, n, 0, 0, np, sync);
        else call(f.c_str(), (void *)d, (const void *)sr, e.dst, e.sst, n, 0, 0, np, sync);
    }
    if (res != 0) fail("PE %d: %s as %s %s returned %d", me, ev_str(e).c_str(), FORMN[s.form], tk_name[s.tk], res);
    Bytes D = e.d0[me];
    auto cp = [&](size_t di, int q, size_t si, size_t k) { memcpy(&D[e.doff + di * esz], &e.s0[q][e.soff + si * esz], k * esz); };
    switch (e.op) {
    case 0:
        if (s.form != 11 || me != e.root) cp(0, e.root, 0, n);
        break;
    case 1:
    case 2: {
        size_t at = 0;
        for (int q = 0; q < np; q++) cp(at, q, 0, e.ns[q]), at += e.ns[q];
        break;
    }
    case 3:
        for (int q = 0; q < np; q++) cp(q * n, q, me * n, n);
        break;
    default:
        for (int q = 0; q < np; q++)
            for (size_t i = 0; i < n; i++) cp((q * n + i) * e.dst, q, (me * n + i) * e.sst, 1);
    }
    for (size_t i = 0; i < ZONE; i++)
        if ((uint8_t)z[DOFF + i] != D[i]) fail("PE %d: %s as %s %s: byte %zu of the destination zone is %02x, expected %02x (destination starts at %zu)", me, ev_str(e).c_str(), FORMN[s.form], tk_name[s.tk], i, (uint8_t)z[DOFF + i], D[i], e.doff);
    call("shmem_barrier_all");
}
Bytes redres[MAXPE];
void run_red(const Event &e, const Sp &s, int me, char *z, bool first) {
    char *d = z + DOFF + e.doff, *sr = z + SOFF + e.soff;
    int res = 0;
    if (!call<int>(nm("_red", s).c_str(), e.op, s.form, O_TEAM_WORLD, (void *)d, (void *)sr, e.n, np, (void *)(z + WOFF), (long *)(z + POFF), &res)) fail("harness: form");
    if (res != 0) fail("PE %d: %s as %s %s returned %d", me, ev_str(e).c_str(), FORMN[s.form], tk_name[s.tk], res);
    Bytes got(z + DOFF, z + DOFF + ZONE);
    for (size_t i = 0; i < ZONE; i++)
        if ((i < e.doff || i >= e.doff + e.n * e.esz) && got[i] != e.d0[me][i]) fail("PE %d: %s as %s %s changed byte %zu outside the result", me, ev_str(e).c_str(), FORMN[s.form], tk_name[s.tk], i);
    if (e.tk == K_LONGDOUBLE)
        for (size_t i = 0; i < e.n; i++) memset(&got[e.doff + i * 16 + 10], 0, 6);
    // integer results are also known absolutely
    if (!tk_float(e.tk))
        for (size_t i = 0; i < e.n; i++) {
            uint64_t a = 0, g = 0;
            for (int q = 0; q < np; q++) {
                uint64_t x = 0;
                memcpy(&x, &e.s0[q][e.soff + i * e.esz], e.esz);
                if (q == 0) { a = x; continue; }
                switch (e.op) {
                case 0: a = cmp_holds(e.tk, 0x100003, x, a) ? x : a; break;
                case 1: a = cmp_holds(e.tk, 0x100005, x, a) ? x : a; break;
                case 2: a += x; break;
                case 3: a *= x; break;
                case 4: a &= x; break;
                case 5: a |= x; break;
                default: a ^= x;
                }
            }
            memcpy(&g, &got[e.doff + i * e.esz], e.esz);
            if ((g ^ a) & mask(e.esz)) fail("PE %d: %s as %s %s: element %zu is %llx, expected %llx", me, ev_str(e).c_str(), FORMN[s.form], tk_name[s.tk], i, (unsigned long long)g, (unsigned long long)(a & mask(e.esz)));
        }
    if (first) redres[me] = got;
    else if (memcmp(&redres[me][e.doff], &got[e.doff], e.n * e.esz)) fail("PE %d: %s as %s %s gives %s, as %s %s %s", me, ev_str(e).c_str(), FORMN[s.form], tk_name[s.tk], hex(&got[e.doff], e.n * e.esz).c_str(), FORMN[e.sp[0].form], tk_name[e.sp[0].tk], hex(&redres[me][e.doff], e.n * e.esz).c_str());
    call("shmem_barrier_all");
}
vector<int> arrivals;
size_t next_arr[MAXPE];
void run_sync(const Sp &s, int me, char *z) {
    long *sync = (long *)(z + POFF);
    size_t k = next_arr[me]++;
    if (arrivals.size() <= k) arrivals.resize(k + 1);
    for (int i = (me * 3 + (int)k) % 4; i > 0; i--) sim_pause(1);
    arrivals[k]++;
    switch (s.form) {
    case 0: call("oshv_sync_aset", 0, 0, np, sync); break;
    case 1: if (call<int>("oshv_sync_team", k % 2 ? O_TEAM_SHARED : O_TEAM_WORLD)) fail("PE %d: generic sync of a team failed", me); break;
    case 2: call("oshv_cxx_sync", 0, 0, np, sync); break;
    case 3: call("shmem_sync_aset", 0, 0, np, sync); break;
    case 4: if (call<int>("shmem_team_sync", k % 2 ? O_TEAM_SHARED : O_TEAM_WORLD)) fail("PE %d: shmem_team_sync failed", me); break;
    case 5: call("shmem_sync_all"); break;
    case 6: call("shmem_barrier", 0, 0, np, sync); break;
    default: call("shmem_barrier_all");
    }
    if (arrivals[k] != np) fail("PE %d: synchronisation form %d ended when %d of %d PEs had arrived", me, s.form, arrivals[k], np);
    sim_progress_mark();
}
vector<ptrdiff_t> memres[MAXPE];
void run_mem(const Event &e, const Sp &s, int me, char *base, bool first) {
    bool o1 = s.form & 1, o2 = s.form & 2, o3 = s.form & 4;
    char *p = call<char *>(o1 ? "shmalloc" : "shmem_malloc", e.n);
    if (!p) fail("PE %d: allocation of %zu bytes failed", me, e.n);
    memset(p, me + 1, e.n);
    char *a = call<char *>(o3 ? "shmemalign" : "shmem_align", e.soff, e.n);
    if (!a || (uintptr_t)a % e.soff) fail("PE %d: aligned allocation (%zu) gave %p", me, e.soff, (void *)a);
    char *q = call<char *>(o2 ? "shrealloc" : "shmem_realloc", (void *)p, e.doff);
    if (!q) fail("PE %d: resizing failed", me);
    for (size_t i = 0; i < std::min(e.n, e.doff); i++)
        if (q[i] != (char)(me + 1)) fail("PE %d: resizing lost byte %zu", me, i);
    call(o2 ? "shfree" : "shmem_free", (void *)q);
    call(o1 ? "shfree" : "shmem_free", (void *)a);
    vector<ptrdiff_t> r = {p - base, a - base, q - base};
    if (first) memres[me] = r;
    else if (memres[me] != r) fail("PE %d: %s: the deprecated and the new names give different blocks", me, ev_str(e).c_str());
}
void c25() {
    np = 1 + pickw({1, 4, 4, 2});
    SimParams sp = draw_sim(np);
    desc("%s", sim_str(sp).c_str());
    draw_env_modes(25, false, true);
    setenv("SHMEM_SYMMETRIC_SIZE", "65536", 1);
    int ini = draw(3);
    int nev = 1 + draw(chance(20) ? 16 : 6);
    evs.resize(nev);
    for (auto &e : evs) draw_event(e);
    bool nt = false;
    for (auto &e : evs) {
        for (auto &s : e.sp) {
            must(e, s);
            n_sp++;
            if (e.cl < SYNC) {
                n_gen += s.form == 2 || s.form == 3 || s.form == 5 || s.form == 6;
                n_dep += (s.form >= 4 && s.form <= 6) || s.form >= 11;
                n_sized += s.form >= 7 && s.form <= 10;
            }
            if (s.form != e.sp[0].form && (e.cl >= P2P || e.target != e.actor)) nt = true;
        }
        n_cls[e.cl]++;
    }
    run_case(sp, [&](int me) {
        int prov;
        if (ini == 0) call("shmem_init");
        else if (ini == 1) call("start_pes", 0);
        else call<int>("shmem_init_thread", 0, &prov);
        char *z = (char *)pe_sym(me, "oshv_sdata");
        memset(z + POFF, 0, 64);
        char *base = call<char *>("shmem_malloc", (size_t)64);
        for (auto &e : evs) {
            bool first = true;
            for (auto &s : e.sp) {
                if (e.d0[me].size()) {
                    memcpy(z + DOFF, e.d0[me].data(), ZONE);
                    memcpy(z + SOFF, e.s0[me].data(), ZONE);
                }
                if (e.cl >= STD && e.cl <= P2P) {
                    memset(z + DOFF, 0xa5, 64);
                    memcpy(z + DOFF + 16, e.init, e.esz);
                }
                call("shmem_barrier_all");
                switch (e.cl) {
                case RMA: run_rma(e, s, me, z); break;
                case STD:
                case EXT:
                case BIT: run_amo(e, s, me, z); break;
                case P2P: run_p2p(e, s, me, z); break;
                case COLL: run_coll(e, s, me, z); break;
                case RED: run_red(e, s, me, z, first); break;
                case SYNC: run_sync(s, me, z); break;
                case MEM: run_mem(e, s, me, base, first); break;
                }
                first = false;
                call("shmem_barrier_all");
                sim_progress_mark();
            }
        }
        call("shmem_finalize");
    });
    count(0, n_sp);
    count(1, n_gen);
    count(2, n_dep);
    count(3, n_sized);
    for (int i = 0; i < 9; i++) count(4 + i, n_cls[i]);
    if (nt) nontrivial();
}
RegProp r25("C25", c25, "Random operations (RMA, atomics, waits and tests, collectives, reductions, synchronisation, allocation) with boundary values, each performed under several spellings (typed, with the default context, C11 generic, fixed width, bytes, deprecated, active set, C++) from the same initial state and compared byte by byte with a model or with each other; the callers are compiled against the public header; non-trivial: two different forms of an operation that involves another PE.",
            {"spellings run", "generic", "deprecated or active set", "fixed width or bytes", "RMA", "standard atomics", "extended atomics", "bitwise atomics", "waits and tests", "collectives", "reductions", "synchronisations", "allocations"});
} // namespace
