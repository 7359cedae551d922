// C13-C16: collectives and reductions over active sets and teams, with concurrent atomics and skewed arrival.
#include "drf.hpp"
#include <complex>
using std::string;
using std::vector;
namespace {
typedef vector<uint8_t> Bytes;
constexpr size_t STATN = 12000;
size_t HEAPN = 24576; // now and then much larger
enum Ev { E_COLL, E_BAR, E_AMO, E_STRIDED, E_PAUSE, E_SPLIT, E_DESTROY, E_SYNC };
enum Op { BCAST, COLLECT, FCOLLECT, ALLTOALL, ALLTOALLS, REDUCE };
struct Team {
    vector<int> m; // world ranks in team order
    bool live = true;
    int id;
};
struct Event {
    int ev, who = 0;
    // collective
    int op = 0, kind = 0, skind = 0, tk = 0, esz = 1, root = 0, start = 0, ls = 0, size = 0, team = -1, redop = 0;
    vector<int> mem;
    string fn;
    size_t soff = 0, doff = 0, dlen = 0, slen = 0;
    vector<size_t> n;
    ptrdiff_t dst = 1, sst = 1;
    bool aset = false, inplace = false;
    int psync = 0;
    vector<Bytes> pre, post, expect, care; // per member
    int k = 0, target = 0;
    long val = 0;
    // split
    int parent = 0, s = 0, st = 0, sz = 0, child = -1;
    Bytes data;
};
struct Shape { // of a strided access or collective
    size_t n;
    ptrdiff_t st;
    int tk;
};
vector<Shape> shapes;
int np;
vector<Event> evs;
vector<Team> teams;
size_t nbuilt; // teams that exist from the start
void *th[64][MAXPE];
Bytes M[3][MAXPE], C[3][MAXPE]; // model and bytes that matter
long amo_total[MAXPE][16];
size_t bump[3];
char *heap[MAXPE];
char *base_of(int pe, int kind) { return kind == 0 ? heap[pe] : (char *)pe_sym(pe, kind == 1 ? "oshv_sdata" : "oshv_sbss"); }
size_t cap(int kind) { return kind == 0 ? HEAPN : STATN; }
bool alloc(int kind, size_t len, size_t al, size_t &off) {
    size_t o = bump[kind] + 1 + draw(3) * al + draw(9);
    o = (o + al - 1) / al * al;
    if (o + len + 16 > cap(kind)) return false;
    off = o;
    bump[kind] = o + len;
    return true;
}
uint8_t rb() { return (uint8_t)draw(256); }
const char *REDN[] = {"sum", "prod", "min", "max", "and", "or", "xor"};
template <class T> T redval(int op) {
    if (op == 0) {
        if constexpr (std::is_floating_point<T>::value) return (T)((int)draw(2001) - 1000);
        else if constexpr (std::is_signed<T>::value) {
            int64_t lim = (int64_t)(std::numeric_limits<T>::max() / 8);
            int64_t v = (int64_t)(draw64() % (uint64_t)(lim + 1));
            return (T)(chance(50) ? v : -v);
        } else return (T)draw64();
    }
    if (op == 1) {
        if constexpr (std::is_unsigned<T>::value) return (T)draw64();
        else return (T)((int)draw(5) - 2);
    }
    if (op == 2 || op == 3) {
        if constexpr (std::is_floating_point<T>::value) {
            T v = (T)((int)draw(100000) + 1) * (T)(chance(20) ? 1e30 : 0.375);
            return chance(50) ? v : -v;
        } else {
            switch (draw(6)) {
            case 0: return (T)draw(4);
            case 1: return std::numeric_limits<T>::max();
            case 2: return std::numeric_limits<T>::min();
            case 3: return (T)-1;
            default: return (T)draw64();
            }
        }
    }
    return (T)draw64();
}
template <class T> T redop(int op, T a, T b) {
    switch (op) {
    case 0: return (T)(a + b);
    case 1: return (T)(a * b);
    case 2: return a < b ? a : b;
    case 3: return a > b ? a : b;
    }
    if constexpr (std::is_integral<T>::value) {
        if (op == 4) return (T)(a & b);
        if (op == 5) return (T)(a | b);
        if (op == 6) return (T)(a ^ b);
    }
    return a;
}
template <class T> void gen_red(Event &e, vector<Bytes> &src, Bytes &res, Bytes &care, size_t n) {
    res.assign(n * sizeof(T), 0);
    care.assign(n * sizeof(T), 1);
    for (auto &s : src) s.assign(n * sizeof(T), 0);
    for (size_t i = 0; i < n; i++) {
        T acc{};
        for (size_t k = 0; k < src.size(); k++) {
            T v;
            memset(&v, 0, sizeof v);
            v = redval<T>(e.redop);
            memcpy(&src[k][i * sizeof(T)], &v, sizeof(T) == 16 ? 10 : sizeof(T));
            acc = k ? redop<T>(e.redop, acc, v) : v;
        }
        memcpy(&res[i * sizeof(T)], &acc, sizeof(T) == 16 ? 10 : sizeof(T));
        if (sizeof(T) == 16)
            for (int b = 10; b < 16; b++) care[i * sizeof(T) + b] = 0;
    }
}
template <class F> void gen_red_c(Event &e, vector<Bytes> &src, Bytes &res, Bytes &care, size_t n) {
    typedef std::complex<F> T;
    res.assign(n * sizeof(T), 0);
    care.assign(n * sizeof(T), 1);
    for (auto &s : src) s.assign(n * sizeof(T), 0);
    for (size_t i = 0; i < n; i++) {
        F ar = 0, ai = 0;
        for (size_t k = 0; k < src.size(); k++) {
            F re = (F)((int)draw(e.redop ? 5 : 2001) - (e.redop ? 2 : 1000)), im = (F)((int)draw(e.redop ? 5 : 2001) - (e.redop ? 2 : 1000));
            T v(re, im);
            memcpy(&src[k][i * sizeof(T)], &v, sizeof(T));
            if (!k) ar = re, ai = im;
            else if (e.redop == 0) ar += re, ai += im;
            else {
                F x = ar * re - ai * im, y = ar * im + ai * re;
                ar = x;
                ai = y;
            }
        }
        ar += 0; // -0 to 0 does not matter: compared by value
        T v(ar, ai);
        memcpy(&res[i * sizeof(T)], &v, sizeof(T));
    }
}
bool value_equal(const Event &e, const uint8_t *a, const uint8_t *b) {
    auto eq = [&](auto z) {
        typedef decltype(z) T;
        T x, y;
        memcpy(&x, a, sizeof(T));
        memcpy(&y, b, sizeof(T));
        return x == y;
    };
    switch (e.tk) {
    case K_FLOAT: return eq(float());
    case K_DOUBLE: return eq(double());
    case K_LONGDOUBLE: return eq((long double)0);
    case K_COMPLEXD: return eq(std::complex<double>());
    case K_COMPLEXF: return eq(std::complex<float>());
    }
    return !memcmp(a, b, e.esz);
}
string members(const vector<int> &m) {
    string s = "{";
    for (size_t i = 0; i < m.size(); i++) s += (i ? "," : "") + std::to_string(m[i]);
    return s + "}";
}
int nvary, nsub, ninplace, nchain, ncoll, nbig, namo, nteams, nroot, nstr;
bool big;

// a strided transfer, often of the shape of a strided collective
bool gen_strided(bool aset) {
    Event e;
    e.ev = E_STRIDED;
    e.who = draw(np);
    e.target = draw(np);
    e.tk = aset ? pickv(vector<int>{K_UINT32, K_UINT64, K_INT, K_LONG}) : pickv(T_RMA);
    size_t n = 1 + draw(8);
    e.dst = 1 + draw(5);
    e.sst = chance(40) ? 1 : 1 + draw(5);
    if (!shapes.empty() && chance(60)) {
        const Shape &h = pickv(shapes);
        n = h.n;
        e.tk = h.tk;
        if (chance(60)) e.dst = h.st;
        else e.sst = h.st;
    }
    e.esz = tk_size[e.tk];
    e.k = draw(2); // iput, iget
    if (aset && chance(30)) e.fn = fmt("shmem_i%s%d", e.k ? "get" : "put", e.esz * 8);
    else e.fn = fmt("shmem_%s_i%s", tk_name[e.tk], e.k ? "get" : "put");
    e.n.assign(1, n);
    e.dlen = ((n - 1) * e.dst + 1) * e.esz;
    e.slen = ((n - 1) * e.sst + 1) * e.esz;
    e.kind = draw(3);
    if (!alloc(e.kind, e.k ? e.slen : e.dlen, std::min(e.esz, 16), e.doff)) return false;
    Bytes &m = M[e.kind][e.target], &c = C[e.kind][e.target];
    size_t es = e.esz;
    if (!e.k) { // put: the payload is random; a collective may read the place meanwhile, so it does not count as its source
        e.data.resize(e.slen);
        for (auto &b : e.data) b = rb();
        for (size_t i = 0; i < e.dlen; i++) c[e.doff + i] = 0;
        e.expect.resize(1);
        e.expect[0].assign(m.begin() + e.doff, m.begin() + e.doff + e.dlen);
        for (size_t i = 0; i < n; i++) memcpy(&e.expect[0][i * e.dst * es], &e.data[i * e.sst * es], es);
    } else {
        e.data.assign(e.dlen, 0xee);
        for (size_t i = 0; i < n; i++) memcpy(&e.data[i * e.dst * es], &m[e.doff + i * e.sst * es], es);
    }
    shapes.push_back({n, chance(50) ? e.dst : e.sst, e.tk});
    nstr++;
    desc("PE %d: %s of %zu elements at PE %d (dst %td sst %td)", e.who, e.fn.c_str(), n, e.target, e.dst, e.sst);
    evs.push_back(std::move(e));
    return true;
}
bool strided_care(const Event &e, size_t i, ptrdiff_t) { return e.tk != K_LONGDOUBLE || i % 16 < 10; }
void do_strided(int me, const Event &e) {
    if (e.who != me) return;
    char *a = base_of(me, e.kind) + e.doff;
    void *f = pe_sym(me, e.fn.c_str());
    if (!e.k) {
        Bytes s = e.data;
        callp(f, (void *)a, (const void *)s.data(), e.dst, e.sst, e.n[0], e.target);
        if (s != e.data) fail("PE %d: %s changed its source", me, e.fn.c_str());
        memset(s.data(), 0x77, s.size());
    } else {
        Bytes d(e.dlen, 0xee);
        callp(f, (void *)d.data(), (const void *)a, e.dst, e.sst, e.n[0], e.target);
        for (size_t i = 0; i < e.dlen; i++)
            if (strided_care(e, i, e.dst) && d[i] != e.data[i]) fail("PE %d: %s: byte %zu is %02x, expected %02x", me, e.fn.c_str(), i, d[i], e.data[i]);
    }
}
// generates a collective; false if there is no room
bool gen_coll(bool aset, bool reduce) {
    Event e;
    e.ev = E_COLL;
    e.aset = aset;
    if (aset) {
        e.start = draw(np);
        e.ls = pickw({6, 3, 1});
        int mx = (np - 1 - e.start) / (1 << e.ls) + 1;
        e.size = chance(35) ? mx : 1 + draw(mx);
        if (chance(25)) e.start = 0, e.ls = 0, e.size = np;
        for (int i = 0; i < e.size; i++) e.mem.push_back(e.start + (i << e.ls));
    } else {
        vector<int> c;
        for (size_t i = 0; i < teams.size(); i++)
            if (teams[i].live) c.push_back((int)i);
        e.team = pickv(c);
        e.mem = teams[e.team].m;
        e.size = (int)e.mem.size();
    }
    int sz = e.size;
    size_t n = chance(4) ? 0 : chance(8) ? 1 + draw(600) : 1 + draw(chance(50) ? 6 : 40);
    if (big && chance(30)) n = 1 + draw(chance(50) ? 3000 : chance(60) ? 24000 : 90000);
    bool vary = false;
    if (!reduce) {
        e.op = draw(5);
        if (aset) {
            int bits = chance(50) ? 64 : 32;
            e.esz = bits / 8;
            static const char *nm[] = {"broadcast", "collect", "fcollect", "alltoall", "alltoalls"};
            e.fn = fmt("shmem_%s%d", nm[e.op], bits);
            e.tk = bits == 64 ? K_LONG : K_INT;
        } else {
            static const char *nm[] = {"broadcast", "collect", "fcollect", "alltoall", "alltoalls"};
            if (chance(25)) {
                e.fn = fmt("shmem_%smem", nm[e.op]);
                e.esz = 1;
                e.tk = K_UCHAR;
            } else {
                e.tk = pickv(T_RMA);
                e.esz = tk_size[e.tk];
                e.fn = fmt("shmem_%s_%s", tk_name[e.tk], nm[e.op]);
            }
        }
        if (e.op == COLLECT) vary = chance(70);
    } else {
        e.op = REDUCE;
        int cls = draw(3);
        e.redop = cls == 0 ? draw(2) : cls == 1 ? 2 + draw(2) : 4 + draw(3);
        e.tk = pickv(aset ? (cls == 0 ? T_RED_SP_A : cls == 1 ? T_RED_MM_A : T_RED_BIT_A) : (cls == 0 ? T_RED_SP_T : cls == 1 ? T_RED_MM_T : T_RED_BIT_T));
        e.esz = tk_size[e.tk];
        e.fn = fmt(aset ? "shmem_%s_%s_to_all" : "shmem_%s_%s_reduce", tk_name[e.tk], REDN[e.redop]);
        e.inplace = chance(30);
    }
    e.n.assign(sz, n);
    if (vary)
        for (auto &x : e.n) x = chance(25) ? 0 : draw((uint32_t)n + 3);
    size_t tot = 0, mxn = 0;
    for (size_t x : e.n) tot += x, mxn = std::max(mxn, x);
    if (e.op == BCAST) e.root = draw(sz);
    if (e.op == ALLTOALLS) {
        e.dst = 1 + (chance(70) ? draw(4) : 0);
        e.sst = chance(30) ? e.dst : 1 + (chance(70) ? draw(4) : 0);
        if (!shapes.empty() && chance(40)) { // the shape of an earlier strided transfer
            const Shape &h = pickv(shapes);
            n = h.n;
            e.n.assign(sz, n);
            if (chance(50)) e.dst = h.st;
            else e.sst = h.st;
            if (!aset && e.esz > 1) {
                e.tk = h.tk;
                e.esz = tk_size[e.tk];
                e.fn = fmt("shmem_%s_alltoalls", tk_name[e.tk]);
            } else if (aset) {
                e.esz = tk_size[h.tk] == 8 ? 8 : 4;
                e.fn = fmt("shmem_alltoalls%d", e.esz * 8);
            }
        }
        if (n == 0) n = 1, e.n.assign(sz, n);
        if (big ? false : n * sz * std::max(e.dst, e.sst) > 3000) n = 7, e.n.assign(sz, n);
        tot = n * sz, mxn = n;
        shapes.push_back({n, chance(50) ? e.dst : e.sst, aset ? (e.esz == 8 ? (int)K_UINT64 : (int)K_UINT32) : e.esz == 1 ? (int)K_UCHAR : e.tk});
    }
    switch (e.op) {
    case BCAST: case REDUCE: e.slen = e.dlen = n * e.esz; break;
    case COLLECT: e.slen = mxn * e.esz; e.dlen = tot * e.esz; break;
    case FCOLLECT: e.slen = n * e.esz; e.dlen = n * sz * e.esz; break;
    case ALLTOALL: e.slen = e.dlen = n * sz * e.esz; break;
    case ALLTOALLS: e.slen = n * sz * e.sst * e.esz; e.dlen = n * sz * e.dst * e.esz; break;
    }
    size_t al = e.esz == 1 ? 1 : std::min(e.esz, e.tk == K_COMPLEXD ? 8 : e.tk == K_COMPLEXF ? 4 : 16);
    e.kind = e.dlen > 4000 ? 0 : draw(3);
    if (!alloc(e.kind, e.dlen, al, e.doff)) return false;
    bool chain = false;
    e.skind = e.slen > 4000 ? 0 : draw(3);
    vector<Bytes> src(sz), scare(sz);
    Bytes rres, rcare;
    if (reduce) {
        e.pre.resize(sz);
        if (e.tk == K_COMPLEXD) gen_red_c<double>(e, src, rres, rcare, n);
        else if (e.tk == K_COMPLEXF) gen_red_c<float>(e, src, rres, rcare, n);
        else with_type(e.tk, [&](auto z) { gen_red<decltype(z)>(e, src, rres, rcare, n); });
        if (e.inplace) e.skind = e.kind, e.soff = e.doff;
        else if (!alloc(e.skind, e.slen, al, e.soff)) return false;
        e.pre = src;
    } else {
        // a source that an earlier operation (or the initial pattern) left behind, or a fresh one
        if (chance(30) && bump[e.skind] > e.slen + 64) {
            size_t lim = (e.skind == e.kind ? e.doff : bump[e.skind]);
            if (lim > e.slen + 2 * al) {
                e.soff = draw((uint32_t)((lim - e.slen) / al)) / 1 * al;
                if (e.soff + e.slen <= lim) chain = true;
            }
        }
        if (!chain) {
            if (!alloc(e.skind, e.slen, al, e.soff)) return false;
            e.pre.resize(sz);
            for (auto &p : e.pre) {
                p.resize(e.slen);
                uint64_t r = draw64() | 1;
                for (auto &b : p) b = (uint8_t)((r = r * 6364136223846793005ull + 1442695040888963407ull) >> 56);
            }
        }
        for (int i = 0; i < sz; i++) {
            if (chain) {
                src[i].assign(M[e.skind][e.mem[i]].begin() + e.soff, M[e.skind][e.mem[i]].begin() + e.soff + e.slen);
                scare[i].assign(C[e.skind][e.mem[i]].begin() + e.soff, C[e.skind][e.mem[i]].begin() + e.soff + e.slen);
            } else {
                src[i] = e.pre[i];
                scare[i].assign(e.slen, 1);
            }
        }
    }
    // effects
    for (int i = 0; i < sz && !e.pre.empty(); i++)
        for (size_t b = 0; b < e.pre[i].size(); b++) M[e.skind][e.mem[i]][e.soff + b] = e.pre[i][b], C[e.skind][e.mem[i]][e.soff + b] = 1;
    e.expect.resize(sz);
    e.care.resize(sz);
    for (int i = 0; i < sz; i++) {
        int pe = e.mem[i];
        Bytes d(M[e.kind][pe].begin() + e.doff, M[e.kind][pe].begin() + e.doff + e.dlen), c(C[e.kind][pe].begin() + e.doff, C[e.kind][pe].begin() + e.doff + e.dlen);
        auto cp = [&](size_t to, int from, size_t fo, size_t len) {
            for (size_t b = 0; b < len; b++) {
                d[to + b] = src[from][fo + b];
                bool k = scare[from].empty() || scare[from][fo + b];
                if (e.tk == K_LONGDOUBLE && (to + b) % 16 >= 10) k = false;
                c[to + b] = k;
            }
        };
        size_t es = e.esz;
        switch (e.op) {
        case BCAST:
            if (!(aset && i == e.root)) cp(0, e.root, 0, n * es);
            break;
        case COLLECT: {
            size_t o = 0;
            for (int q = 0; q < sz; q++) {
                cp(o, q, 0, e.n[q] * es);
                o += e.n[q] * es;
            }
            break;
        }
        case FCOLLECT:
            for (int q = 0; q < sz; q++) cp(q * n * es, q, 0, n * es);
            break;
        case ALLTOALL:
            for (int q = 0; q < sz; q++) cp(q * n * es, q, i * n * es, n * es);
            break;
        case ALLTOALLS:
            for (int q = 0; q < sz; q++)
                for (size_t x = 0; x < n; x++) cp((q * n + x) * e.dst * es, q, (i * n + x) * e.sst * es, es);
            break;
        case REDUCE: d = rres; c = rcare; break;
        }
        e.expect[i] = d;
        e.care[i] = c;
    }
    for (int i = 0; i < sz; i++) {
        int pe = e.mem[i];
        for (size_t b = 0; b < e.dlen; b++) M[e.kind][pe][e.doff + b] = e.expect[i][b], C[e.kind][pe][e.doff + b] = e.care[i][b];
        // floats are compared by value when the collective returns
        if (reduce && tk_float(e.tk))
            for (size_t b = 0; b < e.dlen; b++) C[e.kind][pe][e.doff + b] = 0;
    }
    if (!chain && !e.inplace && chance(40)) { // the source may be reused as soon as the call returns
        e.post.resize(sz);
        for (int i = 0; i < sz; i++) {
            uint8_t x = rb();
            e.post[i].assign(e.slen, x);
            for (size_t b = 0; b < e.slen; b++) M[e.skind][e.mem[i]][e.soff + b] = x;
        }
    }
    ncoll++;
    if (vary) nvary++;
    if (sz < np && sz > 1) nsub++;
    if (e.inplace) ninplace++;
    if (chain) nchain++;
    if (n > 40) nbig++;
    if (e.op == BCAST && e.root) nroot++;
    static const char *kn[] = {"heap", "sdata", "sbss"};
    e.psync = (int)evs.size();
    string ns;
    for (size_t x : e.n) ns += fmt("%zu ", x);
    desc("%s %s members %s dest %s+%zu src %s+%zu n %s%s%s%s%s", e.fn.c_str(), aset ? fmt("(%d,%d,%d)", e.start, e.ls, e.size).c_str() : fmt("team %d", e.team).c_str(), members(e.mem).c_str(), kn[e.kind], e.doff, kn[e.skind],
         e.soff, vary ? ns.c_str() : fmt("%zu ", n).c_str(), e.op == BCAST ? fmt("root %d ", e.root).c_str() : "", e.op == ALLTOALLS ? fmt("dst %td sst %td ", e.dst, e.sst).c_str() : "", e.inplace ? "in place " : "", e.post.empty() ? "" : "then the source is overwritten");
    evs.push_back(std::move(e));
    return true;
}
void do_coll(int me, const Event &e) {
    int i = -1;
    for (size_t k = 0; k < e.mem.size(); k++)
        if (e.mem[k] == me) i = (int)k;
    if (i < 0) return;
    char *d = base_of(me, e.kind) + e.doff, *s = base_of(me, e.skind) + e.soff;
    if (!e.pre.empty()) memcpy(s, e.pre[i].data(), e.pre[i].size());
    long *ps = (long *)(heap[me] + HEAPN) + (e.psync % 256);
    char *wrk = heap[me] + HEAPN + 8192;
    size_t wl = (e.n[i] / 2 + 1) * e.esz, wg = e.n[i] * e.esz + 64; // the required work array, and what lies behind it
    if (e.aset && e.op == REDUCE) memset(wrk + wl, 0xC7, wg);
    *ps = 0; // SHMEM_SYNC_VALUE
    void *f = pe_sym(me, e.fn.c_str());
    int rc = 0;
    size_t n = e.n[i];
    if (e.aset) switch (e.op) {
        case BCAST: callp(f, (void *)d, (const void *)s, n, e.root, e.start, e.ls, e.size, ps); break;
        case COLLECT: case FCOLLECT: case ALLTOALL: callp(f, (void *)d, (const void *)s, n, e.start, e.ls, e.size, ps); break;
        case ALLTOALLS: callp(f, (void *)d, (const void *)s, e.dst, e.sst, n, e.start, e.ls, e.size, ps); break;
        case REDUCE: callp(f, (void *)d, (const void *)s, (int)n, e.start, e.ls, e.size, (void *)wrk, ps); break;
        }
    else {
        void *t = th[e.team][me];
        switch (e.op) {
        case BCAST: rc = callp<int>(f, t, (void *)d, (const void *)s, n, e.root); break;
        case COLLECT: case FCOLLECT: case ALLTOALL: case REDUCE: rc = callp<int>(f, t, (void *)d, (const void *)s, n); break;
        case ALLTOALLS: rc = callp<int>(f, t, (void *)d, (const void *)s, e.dst, e.sst, n); break;
        }
    }
    if (rc) fail("PE %d: %s returned %d", me, e.fn.c_str(), rc);
    if (*ps) fail("PE %d: %s left pSync with the value %ld", me, e.fn.c_str(), *ps);
    if (e.aset && e.op == REDUCE)
        for (size_t k = 0; k < wg; k++)
            if ((uint8_t)wrk[wl + k] != 0xC7) fail("PE %d: %s changed memory behind its work array of %zu elements", me, e.fn.c_str(), e.n[i] / 2 + 1);
    if (e.op == REDUCE && tk_float(e.tk)) {
        for (size_t k = 0; k < n; k++)
            if (!value_equal(e, (uint8_t *)d + k * e.esz, &e.expect[i][k * e.esz]))
                fail("PE %d: %s: element %zu is wrong: %s, expected %s", me, e.fn.c_str(), k, hex(d + k * e.esz, e.esz).c_str(), hex(&e.expect[i][k * e.esz], e.esz).c_str());
    } else
        for (size_t b = 0; b < e.dlen; b++)
            if (e.care[i][b] && (uint8_t)d[b] != e.expect[i][b])
                fail("PE %d: %s: byte %zu of its destination (element %zu) is %02x, expected %02x", me, e.fn.c_str(), b, b / e.esz, (uint8_t)d[b], e.expect[i][b]);
    if (!e.inplace && !e.pre.empty() && memcmp(s, e.pre[i].data(), e.pre[i].size())) fail("PE %d: %s changed its source", me, e.fn.c_str());
    if (!e.post.empty()) memcpy(s, e.post[i].data(), e.post[i].size());
}
void coll_case(bool aset, bool reduce) {
    np = chance(12) ? 7 + draw(4) : 1 + pickw({2, 2, 3, 3, 2, 2});
    SimParams sp = draw_sim(np);
    desc("%s", sim_str(sp).c_str());
    draw_env_modes(30, false, true);
    big = chance(2);
    if (big) HEAPN = 1500000;
    setenv("SHMEM_SYMMETRIC_SIZE", big ? "4000000" : "131072", 1);
    for (int k = 0; k < 3; k++)
        for (int p = 0; p < np; p++) {
            M[k][p].resize(cap(k));
            for (size_t i = 0; i < cap(k); i++) M[k][p][i] = (uint8_t)(i * 13 + (i >> 8) * 7 + p * 31 + k * 5);
            C[k][p].assign(cap(k), 1);
        }
    vector<int> all;
    for (int i = 0; i < np; i++) all.push_back(i);
    if (!aset) {
        teams.push_back({all, true, 0});
        for (auto &m : draw_nodes(sp)) teams.push_back({m, true, (int)teams.size()});
        nbuilt = teams.size();
    }
    int nev = 1 + draw(chance(15) ? 40 : 12);
    bool barred = false;
    for (int i = 0; i < nev; i++) {
        int k = pickw({10, 2, 4, reduce ? 1 : 4, 2, aset ? 0 : 4, aset ? 0 : 1, 1});
        Event e;
        switch (k) {
        case 0: gen_coll(aset, reduce); break;
        case 1:
            e.ev = E_BAR;
            desc("shmem_barrier_all");
            evs.push_back(e);
            barred = true;
            break;
        case 7:
            e.ev = E_SYNC;
            desc("shmem_sync_all");
            evs.push_back(e);
            break;
        case 2: // atomics and transfers that need the target's help
            e.ev = E_AMO;
            e.who = draw(np);
            e.target = draw(np);
            e.k = draw(3);
            e.sz = draw(16);
            e.val = 1 + draw(100);
            e.st = 1 + draw(3);
            amo_total[e.target][e.sz] += e.val * e.st;
            namo++;
            desc("PE %d: %d times atomic %s %ld to counter %d of PE %d", e.who, e.st, e.k == 0 ? "fetch_add" : e.k == 1 ? "add" : "fetch_add with get", e.val, e.sz, e.target);
            evs.push_back(e);
            break;
        case 3: gen_strided(aset); break;
        case 4:
            e.ev = E_PAUSE;
            e.who = draw(np);
            e.k = 1 + draw(40);
            desc("PE %d computes %d", e.who, e.k);
            evs.push_back(e);
            break;
        case 5: {
            if (teams.size() > 40) break;
            vector<int> c;
            for (size_t t = 0; t < teams.size(); t++)
                if (teams[t].live) c.push_back((int)t);
            e.ev = E_SPLIT;
            e.parent = pickv(c);
            Team &p = teams[e.parent];
            int n = (int)p.m.size();
            e.s = draw(n);
            e.st = 1 + draw(3);
            int mx = (n - 1 - e.s) / e.st + 1;
            e.sz = 1 + draw(mx);
            Team t;
            for (int q = 0; q < e.sz; q++) t.m.push_back(p.m[e.s + q * e.st]);
            t.id = e.child = (int)teams.size();
            desc("team %d = split of team %d: start %d stride %d size %d -> %s", t.id, e.parent, e.s, e.st, e.sz, members(t.m).c_str());
            teams.push_back(t);
            evs.push_back(e);
            nteams++;
            break;
        }
        case 6: {
            vector<int> c;
            for (size_t t = nbuilt; t < teams.size(); t++)
                if (teams[t].live) c.push_back((int)t);
            if (c.empty()) break;
            e.ev = E_DESTROY;
            e.child = pickv(c);
            teams[e.child].live = false;
            desc("destroy team %d", e.child);
            evs.push_back(e);
            break;
        }
        }
    }
    (void)barred;
    if (!ncoll) gen_coll(aset, reduce);
    run_case(sp, [&](int me) {
        call("shmem_init");
        heap[me] = call<char *>("shmem_malloc", HEAPN + 8192 + (big ? 2300000 : 32768));
        if (!heap[me]) fail("shmem_malloc failed");
        memset(heap[me] + HEAPN, 0, 8192);
        long *cnt = (long *)(heap[me] + HEAPN + 4096);
        for (int k = 0; k < 3; k++) {
            char *b = base_of(me, k);
            for (size_t i = 0; i < cap(k); i++) b[i] = (char)(i * 13 + (i >> 8) * 7 + me * 31 + k * 5);
        }
        if (!aset) {
            th[0][me] = O_TEAM_WORLD;
            for (size_t t = 1; t < nbuilt; t++) th[t][me] = O_TEAM_SHARED; // used by members only
        }
        call("shmem_barrier_all");
        for (auto &e : evs) switch (e.ev) {
            case E_COLL: do_coll(me, e); break;
            case E_BAR: call("shmem_barrier_all"); break;
            case E_SYNC: call("shmem_sync_all"); break;
            case E_AMO:
                if (e.who == me)
                    for (int i = 0; i < e.st; i++) {
                        if (e.k == 1) call("shmem_long_atomic_add", cnt + e.sz, e.val, e.target);
                        else call<long>("shmem_long_atomic_fetch_add", cnt + e.sz, e.val, e.target);
                        if (e.k == 2) call<long>("shmem_long_g", (const long *)(cnt + 32), e.target);
                    }
                break;
            case E_STRIDED: do_strided(me, e); break;
            case E_PAUSE:
                if (e.who == me) compute(e.k);
                break;
            case E_SPLIT: {
                vector<int> &pm = teams[e.parent].m, &cm = teams[e.child].m;
                if (!std::count(pm.begin(), pm.end(), me)) break;
                void *t = (void *)0x5a5a;
                int rc = call<int>("shmem_team_split_strided", th[e.parent][me], e.s, e.st, e.sz, (const void *)nullptr, 0L, &t);
                bool in = std::count(cm.begin(), cm.end(), me);
                if (rc) fail("PE %d: shmem_team_split_strided returned %d", me, rc);
                if (in != (t != nullptr)) fail("PE %d: shmem_team_split_strided gave %s handle", me, t ? "a valid" : "an invalid");
                th[e.child][me] = t;
                break;
            }
            case E_DESTROY: {
                vector<int> &cm = teams[e.child].m;
                if (std::count(cm.begin(), cm.end(), me)) call("shmem_team_destroy", th[e.child][me]);
                break;
            }
            }
        call("shmem_barrier_all");
        for (int k = 0; k < 3; k++) {
            uint8_t *b = (uint8_t *)base_of(me, k);
            for (size_t i = 0; i < cap(k); i++)
                if (C[k][me][i] && b[i] != M[k][me][i]) fail("PE %d: at the end byte %s+%zu is %02x, expected %02x", me, k == 0 ? "heap" : k == 1 ? "sdata" : "sbss", i, b[i], M[k][me][i]);
        }
        for (auto &e : evs)
            if (e.ev == E_STRIDED && !e.k && e.target == me) {
                uint8_t *b = (uint8_t *)base_of(me, e.kind) + e.doff;
                for (size_t i = 0; i < e.dlen; i++)
                    if (strided_care(e, i, e.dst) && b[i] != e.expect[0][i]) fail("PE %d: at the end byte %zu of what PE %d wrote with %s is %02x, expected %02x", me, i, e.who, e.fn.c_str(), b[i], e.expect[0][i]);
            }
        for (int c = 0; c < 16; c++)
            if (cnt[c] != amo_total[me][c]) fail("PE %d: counter %d is %ld at the end, expected %ld", me, c, cnt[c], amo_total[me][c]);
        call("shmem_barrier_all");
        call("shmem_free", (void *)heap[me]);
        call("shmem_finalize");
    });
    const int v[] = {ncoll, nsub, nvary, ninplace, nchain, nbig, namo, nteams, nroot, nstr};
    for (int i = 0; i < 10; i++) count(i, v[i]);
    if (ncoll && np > 1) nontrivial();
}
const vector<string> CN = {"collective calls", "proper subsets of more than one PE", "collects with differing counts", "in-place reductions", "sources left by earlier operations", "large operations", "concurrent atomics", "team splits", "broadcasts with a root other than 0", "strided transfers"};
void c13() { coll_case(true, false); }
void c14() { coll_case(true, true); }
void c15() { coll_case(false, false); }
void c16() { coll_case(false, true); }
#define RULE(what) "Random sequence of " what " with skewed arrival, overlapping sets, concurrent atomics, all memory kinds; destination, source and everything else compared with a model on every PE; non-trivial: more than one PE and at least one collective."
RegProp r13("C13", c13, RULE("broadcast, collect, fcollect, alltoall and alltoalls calls over random active sets"), CN);
RegProp r14("C14", c14, RULE("typed reductions over random active sets"), CN);
RegProp r15("C15", c15, RULE("typed and mem team collectives over random nested teams"), CN);
RegProp r16("C16", c16, RULE("typed reductions over random nested teams"), CN);
} // namespace
