#include <climits>
#include "drf.hpp"
#include <algorithm>
#include <bitset>
#include <memory>
#include <stdlib.h>
using std::string;
using std::vector;

namespace {
constexpr int MAXEV = 2048;
typedef std::bitset<MAXEV> Set;
struct Byte {
    uint8_t v = 0;
    bool lock = false;
    int w = 0;
    vector<int> r;
};
struct Region {
    string name;
    int kind; // 0 heap, 1 sdata, 2 sbss, 3 space
    int space = -1;
    size_t size;
    char *addr[MAXPE] = {};
    vector<Byte> b[MAXPE];
};
struct Ev {
    int pe, target, ctx;
    bool fenceable, fenced = false, open = true;
};
enum OpKind { O_PUT, O_P, O_GET, O_G, O_IPUT, O_IGET, O_AMO, O_LSTORE, O_LLOAD, O_PAUSE, O_QUIET, O_FENCE, O_BARRIER_ALL, O_BARRIER, O_SYNC_ALL, O_SYNC,
              O_TSYNC, O_WAIT, O_CHECK, O_NOP };
enum AmoOp { A_SET, A_INC, A_ADD, A_AND, A_OR, A_XOR, A_FETCH, A_SWAP, A_CSWAP, A_FINC, A_FADD, A_FAND, A_FOR, A_FXOR };
const char *amo_name[] = {"set", "inc", "add", "and", "or", "xor", "fetch", "swap", "compare_swap", "fetch_inc", "fetch_add", "fetch_and", "fetch_or", "fetch_xor"};
const char *amo_old[] = {"set", "inc", "add", nullptr, nullptr, nullptr, "fetch", "swap", "cswap", "finc", "fadd", nullptr, nullptr, nullptr};
struct Op {
    OpKind k;
    string fn;       // API function
    int ctx = 0;     // 0 default implicit, -1 explicit default, >0 context index
    int tk = K_INT;
    int target = 0, reg = 0;
    size_t off = 0;  // remote bytes
    size_t n = 0;    // elements
    size_t es = 1;   // element size
    ptrdiff_t rst = 1, lst = 1; // remote and local stride, in elements
    int lreg = -1;   // local side: region or -1 private
    size_t loff = 0;
    bool nbi = false;
    vector<uint8_t> data;   // private source contents / store data / operand
    vector<uint8_t> expect; // what a read must deliver
    vector<uint8_t> mask;   // checks: bytes that are determined
    vector<uint8_t> cond;   // amo compare value
    int aop = 0;
    int cmp = 0, form = 0, extra = 0;
    int start = 0, lstride = 0, size = 0, slot = 0, inst = 0;
    int rep = 1;            // issued so many times in a row
};
struct Ctx {
    int space;
    void *h[MAXPE];
};
struct TeamD {
    vector<int> m;
    int parent = -1, s = 0, st = 1, sz = 0;
    void *h[MAXPE];
};
struct Prog {
    int np;
    vector<Region> reg;
    vector<Op> ops[MAXPE];
    vector<Ev> ev;
    Set K[MAXPE], S[MAXPE];
    vector<int> pend[MAXPE], lpend[MAXPE];
    struct Wait {
        int q;
        Op op;
        Set msg;
        int e;
    };
    vector<Wait> waits;
    bool huge = false;
    FarBlock far;
    size_t space_pad[2] = {0, 0};
    void *space_blk[2][MAXPE] = {};
    int nspaces = 0;
    size_t space_sz[3];
    vector<Ctx> ctx; // index 1..
    vector<std::array<int, 3>> asets;
    vector<TeamD> teams; // world, shared of each node, then splits
    size_t nbuilt = 0;
    int ninst = 0;
    DrfStats st;
    vector<vector<int>> order; // global order, for the description
    void *space_h[3][MAXPE];
} G;
const DrfOpts *O;

int new_ev(int p, int target, int ctx, int mode, bool fenceable = false) { // mode 0 immediate, 1 pending, 2 local store
    if ((int)G.ev.size() >= MAXEV - 2) discard();
    int e = (int)G.ev.size();
    G.ev.push_back({p, target, ctx < 0 ? 0 : ctx, fenceable});
    if (mode == 0) {
        G.K[p].set(e);
        G.S[p].set(e);
        G.ev[e].open = false;
    } else if (mode == 1) G.pend[p].push_back(e);
    else {
        G.K[p].set(e);
        G.lpend[p].push_back(e);
    }
    return e;
}
bool fenced_ok(int w, int p, int q, int ctx) {
    const Ev &e = G.ev[w];
    return e.pe == p && e.target == q && e.fenced && e.ctx == (ctx < 0 ? 0 : ctx);
}
typedef vector<size_t> Offs; // byte offsets touched
Offs offs_of(size_t off, size_t n, size_t es, ptrdiff_t st) {
    Offs o;
    o.reserve(n * es);
    for (size_t i = 0; i < n; i++)
        for (size_t k = 0; k < es; k++) o.push_back(off + i * st * es + k);
    return o;
}
bool can_read(int p, int q, int r, const Offs &o) {
    for (size_t x : o) {
        Byte &b = G.reg[r].b[q][x];
        if (b.lock || (b.w && !G.K[p][b.w])) return false;
    }
    return true;
}
// amo reads too; a fence is enough for it
bool can_write(int p, int q, int r, const Offs &o, int ctx) {
    for (size_t x : o) {
        Byte &b = G.reg[r].b[q][x];
        if (b.lock || (b.w && !G.K[p][b.w] && !fenced_ok(b.w, p, q, ctx))) return false;
        for (int e : b.r)
            if (!G.K[p][e]) return false;
    }
    return true;
}
void mark_read(int e, int q, int r, const Offs &o) {
    for (size_t x : o) {
        auto &v = G.reg[r].b[q][x].r;
        if (v.empty() || v.back() != e) v.push_back(e);
    }
}
void mark_write(int e, int q, int r, const Offs &o, const uint8_t *d) {
    for (size_t i = 0; i < o.size(); i++) {
        Byte &b = G.reg[r].b[q][o[i]];
        b.w = e;
        b.r.clear();
        if (d) b.v = d[i];
    }
}
void model(int q, int r, const Offs &o, uint8_t *out) {
    for (size_t i = 0; i < o.size(); i++) out[i] = G.reg[r].b[q][o[i]].v;
}
bool relies(int p, int q, int r, const Offs &o) { // something another PE or a pending op wrote is being read
    for (size_t x : o) {
        int w = G.reg[r].b[q][x].w;
        if (w && (G.ev[w].pe != p || G.ev[w].target != p)) return true;
    }
    return false;
}
void complete(int p, int ctx) {
    vector<int> keep;
    for (int e : G.pend[p])
        if (G.ev[e].ctx == ctx) {
            G.K[p].set(e);
            G.S[p].set(e);
            G.ev[e].open = false;
        } else keep.push_back(e);
    G.pend[p].swap(keep);
}
void publish_stores(int p) {
    for (int e : G.lpend[p]) G.S[p].set(e);
    G.lpend[p].clear();
}
Set signal_msg(int p, int q, int ctx) {
    Set s = G.S[p];
    for (int e : G.pend[p])
        if (G.ev[e].fenced && G.ev[e].target == q && G.ev[e].ctx == (ctx < 0 ? 0 : ctx)) s.set(e);
    return s;
}
void emit(int p, Op op) {
    G.order.push_back({p, (int)G.ops[p].size()});
    G.ops[p].push_back(std::move(op));
}
string pre(int ctx) { return ctx ? "shmem_ctx_" : "shmem_"; }

int pick_reg(int ctx) {
    vector<int> c;
    for (size_t i = 0; i < G.reg.size(); i++)
        if (ctx <= 0 || G.reg[i].space == G.ctx[ctx].space) c.push_back((int)i);
    return pickv(c);
}
int pick_ctx() {
    if (G.ctx.size() > 1 && chance(O->ctx_pct)) return 1 + draw((uint32_t)G.ctx.size() - 1);
    return chance(20) ? -1 : 0;
}
size_t pick_n(size_t maxn) { // number of elements
    if (maxn == 0) return 0;
    if (G.huge && chance(25)) return 1 + draw((uint32_t)maxn);
    switch (pickw({60, 25, 5, 10})) {
    case 0: return 1 + draw((uint32_t)std::min<size_t>(maxn, 8));
    case 1: return 1 + draw((uint32_t)std::min<size_t>(maxn, 64));
    case 2: return 0;
    default: return 1 + draw((uint32_t)maxn);
    }
}
void fill(vector<uint8_t> &d, size_t n) {
    d.resize(n);
    uint32_t s = draw(0xffffffu) * 2 + 1;
    for (size_t i = 0; i < n; i++) {
        s = s * 1664525u + 1013904223u;
        d[i] = (uint8_t)(s >> 24);
    }
}
// picks the local side of a transfer of bytes lo relative to nothing; returns false if not possible
bool pick_local(Op &op, int p, size_t span, bool write, Offs &lo) {
    op.lreg = -1;
    op.loff = 0;
    if (!chance(30)) return true;
    for (int t = 0; t < 3; t++) {
        int r = draw((uint32_t)G.reg.size());
        size_t sz = G.reg[r].size;
        if (span > sz) continue;
        size_t off = draw((uint32_t)((sz - span) / op.es + 1)) * op.es;
        Offs o = offs_of(off, op.n, op.es, op.lst);
        if (op.target == p && r == op.reg) { // no overlap between the two sides
            size_t rspan = op.n ? ((op.n - 1) * op.rst + 1) * op.es : 0;
            if (off < op.off + rspan && op.off < off + span) continue;
        }
        if (write ? can_write(p, p, r, o, -99) : can_read(p, p, r, o)) {
            op.lreg = r;
            op.loff = off;
            lo = o;
            return true;
        }
    }
    return true; // private
}
int pick_type(const vector<int> &v) { return pickv(v); }

// contiguous/strided transfer forms
void pick_form(Op &op, bool strided, bool put, bool nbi) {
    int f = pickw({40, 30, 30});
    string base = put ? "put" : "get";
    string suf = nbi ? "_nbi" : "";
    if (strided) base = put ? "iput" : "iget";
    if (f == 0 && !strided) {
        op.es = 1;
        op.fn = pre(op.ctx) + base + "mem" + suf;
    } else if (f == 1) {
        static const int bits[] = {8, 16, 32, 64, 128};
        int b = bits[draw(5)];
        op.es = b / 8;
        op.fn = pre(op.ctx) + base + std::to_string(b) + suf;
    } else {
        op.tk = pick_type(T_RMA);
        op.es = tk_size[op.tk];
        op.fn = pre(op.ctx) + tk_name[op.tk] + "_" + base + suf;
    }
}
int target_of(int p) {
    (void)p;
    return draw(G.np);
}

bool gen_put(int p, bool strided, bool nbi, int want_q = -1, int want_ctx = -99) {
    Op op;
    op.k = strided ? O_IPUT : O_PUT;
    op.nbi = nbi;
    op.ctx = want_ctx == -99 ? pick_ctx() : want_ctx;
    op.target = want_q >= 0 ? want_q : target_of(p);
    op.reg = pick_reg(op.ctx);
    pick_form(op, strided, true, nbi);
    size_t sz = G.reg[op.reg].size;
    if (strided) {
        op.rst = 1 + pickw({3, 4, 3, 1, 1});
        op.lst = 1 + pickw({3, 4, 3, 1, 1});
        if (chance(10)) op.rst = 1 + draw(20);
        if (chance(10)) op.lst = 1 + draw(20);
    }
    size_t maxn = sz / op.es;
    maxn = (maxn + op.rst - 1) / op.rst;
    op.n = pick_n(maxn);
    size_t rspan = op.n ? ((op.n - 1) * op.rst + 1) * op.es : 0;
    size_t lspan = op.n ? ((op.n - 1) * op.lst + 1) * op.es : 0;
    if (rspan > sz) return false;
    Offs ro;
    bool ok = false;
    for (int t = 0; t < 4 && !ok; t++) {
        op.off = draw((uint32_t)((sz - rspan) / op.es + 1)) * op.es;
        ro = offs_of(op.off, op.n, op.es, op.rst);
        ok = can_write(p, op.target, op.reg, ro, op.ctx);
    }
    if (!ok) return false;
    Offs lo;
    if (lspan <= 4096) pick_local(op, p, lspan, false, lo);
    vector<uint8_t> d(op.n * op.es);
    if (op.lreg >= 0) model(p, op.lreg, lo, d.data());
    else {
        vector<uint8_t> all;
        fill(all, lspan);
        Offs o = offs_of(0, op.n, op.es, op.lst);
        for (size_t i = 0; i < o.size(); i++) d[i] = all[o[i]];
        op.data = all;
    }
    int e = new_ev(p, op.target, op.ctx, 1, true);
    if (op.lreg >= 0) {
        int e2 = nbi ? new_ev(p, p, op.ctx, 1) : new_ev(p, p, op.ctx, 0);
        mark_read(e2, p, op.lreg, lo);
    }
    mark_write(e, op.target, op.reg, ro, d.data());
    G.st.remote_updates += op.n > 0;
    G.st.nbi += nbi;
    G.st.strided += strided && op.n > 1;
    G.st.ctxops += op.ctx > 0;
    emit(p, op);
    return true;
}
bool gen_get(int p, bool strided, bool nbi, int want_q = -1, int want_ctx = -99) {
    Op op;
    op.k = strided ? O_IGET : O_GET;
    op.nbi = nbi;
    op.ctx = want_ctx == -99 ? pick_ctx() : want_ctx;
    op.target = want_q >= 0 ? want_q : target_of(p);
    op.reg = pick_reg(op.ctx);
    pick_form(op, strided, false, nbi);
    size_t sz = G.reg[op.reg].size;
    if (strided) {
        op.rst = 1 + pickw({3, 4, 3, 1, 1});
        op.lst = 1 + pickw({3, 4, 3, 1, 1});
        if (chance(10)) op.rst = 1 + draw(20);
        if (chance(10)) op.lst = 1 + draw(20);
    }
    size_t maxn = sz / op.es;
    maxn = (maxn + op.rst - 1) / op.rst;
    op.n = pick_n(maxn);
    size_t rspan = op.n ? ((op.n - 1) * op.rst + 1) * op.es : 0;
    size_t lspan = op.n ? ((op.n - 1) * op.lst + 1) * op.es : 0;
    if (rspan > sz) return false;
    Offs ro;
    bool ok = false;
    for (int t = 0; t < 4 && !ok; t++) {
        op.off = draw((uint32_t)((sz - rspan) / op.es + 1)) * op.es;
        ro = offs_of(op.off, op.n, op.es, op.rst);
        ok = can_read(p, op.target, op.reg, ro);
    }
    if (!ok) return false;
    Offs lo;
    if (lspan <= 4096) pick_local(op, p, lspan, true, lo);
    op.expect.resize(op.n * op.es);
    model(op.target, op.reg, ro, op.expect.data());
    if (op.lreg < 0) op.data.assign(lspan, 0x5A);
    G.st.relies += relies(p, op.target, op.reg, ro);
    int e = new_ev(p, op.target, op.ctx, nbi ? 1 : 0);
    mark_read(e, op.target, op.reg, ro);
    if (op.lreg >= 0) {
        int e2 = new_ev(p, p, op.ctx, nbi ? 1 : 2);
        mark_write(e2, p, op.lreg, lo, op.expect.data());
    }
    G.st.remote_reads += op.n > 0;
    G.st.nbi += nbi;
    G.st.strided += strided && op.n > 1;
    G.st.ctxops += op.ctx > 0;
    emit(p, op);
    return true;
}
bool gen_p(int p, int want_q = -1, int want_ctx = -99) {
    Op op;
    op.k = O_P;
    op.ctx = want_ctx == -99 ? pick_ctx() : want_ctx;
    op.target = want_q >= 0 ? want_q : target_of(p);
    op.reg = pick_reg(op.ctx);
    op.tk = pick_type(T_RMA);
    op.es = tk_size[op.tk];
    op.n = 1;
    op.fn = pre(op.ctx) + tk_name[op.tk] + "_p";
    Offs ro;
    for (int t = 0; t < 4; t++) {
        op.off = draw((uint32_t)(G.reg[op.reg].size / op.es)) * op.es;
        ro = offs_of(op.off, 1, op.es, 1);
        if (!can_write(p, op.target, op.reg, ro, op.ctx)) continue;
        fill(op.data, op.es);
        if (tk_float(op.tk)) { // a value that survives being passed in a register
            double v = (double)(int)draw(2000) - 1000;
            op.data.assign(op.es, 0);
            if (op.tk == K_FLOAT) { float f = (float)v; memcpy(op.data.data(), &f, 4); }
            else if (op.tk == K_DOUBLE) memcpy(op.data.data(), &v, 8);
            else { long double l = v; memcpy(op.data.data(), &l, 10); op.n = 1; }
        }
        if (op.tk == K_LONGDOUBLE) return false; // padding bytes are not determined: covered by the typed-API check
        int e = new_ev(p, op.target, op.ctx, 1, true);
        mark_write(e, op.target, op.reg, ro, op.data.data());
        G.st.remote_updates++;
        G.st.ctxops += op.ctx > 0;
        emit(p, op);
        return true;
    }
    return false;
}
bool gen_g(int p, int want_q = -1) {
    Op op;
    op.k = O_G;
    op.ctx = pick_ctx();
    op.target = want_q >= 0 ? want_q : target_of(p);
    op.reg = pick_reg(op.ctx);
    do op.tk = pick_type(T_RMA); while (tk_float(op.tk) && slot->nrec < MAXREC && draw(2)); // mostly integers: bit patterns of floats may trap or be NaN
    if (tk_float(op.tk)) op.tk = K_INT;
    op.es = tk_size[op.tk];
    op.n = 1;
    op.fn = pre(op.ctx) + tk_name[op.tk] + "_g";
    for (int t = 0; t < 4; t++) {
        op.off = draw((uint32_t)(G.reg[op.reg].size / op.es)) * op.es;
        Offs ro = offs_of(op.off, 1, op.es, 1);
        if (!can_read(p, op.target, op.reg, ro)) continue;
        op.expect.resize(op.es);
        model(op.target, op.reg, ro, op.expect.data());
        G.st.relies += relies(p, op.target, op.reg, ro);
        mark_read(new_ev(p, op.target, op.ctx, 0), op.target, op.reg, ro);
        G.st.remote_reads++;
        G.st.ctxops += op.ctx > 0;
        emit(p, op);
        return true;
    }
    return false;
}
template <class T> T apply_amo(int aop, T old, T v, T cond) {
    typedef typename std::conditional<std::is_floating_point<T>::value, T, typename std::make_unsigned<typename std::conditional<std::is_floating_point<T>::value, int, T>::type>::type>::type U;
    U a = (U)old, b = (U)v;
    switch (aop) {
    case A_SET: case A_SWAP: return v;
    case A_INC: case A_FINC: return (T)(U)(a + 1);
    case A_ADD: case A_FADD: return (T)(U)(a + b);
    case A_FETCH: return old;
    case A_CSWAP: return old == cond ? v : old;
    default: break;
    }
    if constexpr (!std::is_floating_point<T>::value) {
        switch (aop) {
        case A_AND: case A_FAND: return (T)(U)(a & b);
        case A_OR: case A_FOR: return (T)(U)(a | b);
        case A_XOR: case A_FXOR: return (T)(U)(a ^ b);
        default: break;
        }
    }
    return old;
}
template <class T> T gen_val() {
    if (std::is_floating_point<T>::value) return (T)((int)draw(200) - 100);
    switch (pickw({4, 2, 1, 1, 2, 3})) {
    case 0: return (T)draw(10);
    case 1: return (T)-1;
    case 2: return std::is_signed<T>::value ? (T)(1ull << (sizeof(T) * 8 - 1)) : (T)0;
    case 3: return std::is_signed<T>::value ? (T)((1ull << (sizeof(T) * 8 - 1)) - 1) : (T)-1;
    case 4: return (T)(1ull << draw(sizeof(T) * 8));
    default: return (T)draw64();
    }
}
// kind: 0 non-fetching, 1 fetching, 2 non-blocking fetching
bool gen_amo(int p, int kind, int want_q = -1, int want_ctx = -99) {
    Op op;
    op.k = O_AMO;
    op.ctx = want_ctx == -99 ? pick_ctx() : want_ctx;
    op.target = want_q >= 0 ? want_q : target_of(p);
    op.reg = pick_reg(op.ctx);
    op.n = 1;
    op.aop = kind == 0 ? draw(6) : A_FETCH + draw(8);
    const vector<int> &ts = op.aop == A_SET || op.aop == A_FETCH || op.aop == A_SWAP ? T_AMO_EXT
        : op.aop == A_AND || op.aop == A_OR || op.aop == A_XOR || op.aop >= A_FAND ? T_AMO_BIT : T_AMO_STD;
    op.tk = pick_type(ts);
    op.es = tk_size[op.tk];
    op.nbi = kind == 2;
    op.form = 0;
    // deprecated names exist for some
    static const vector<int> oldstd = {K_INT, K_LONG, K_LONGLONG}, oldext = {K_INT, K_LONG, K_LONGLONG, K_FLOAT, K_DOUBLE};
    if (op.ctx == 0 && kind != 2 && amo_old[op.aop] && chance(12)) {
        op.tk = pick_type(&ts == &T_AMO_EXT ? oldext : oldstd);
        op.es = tk_size[op.tk];
        op.fn = string("shmem_") + tk_name[op.tk] + "_" + amo_old[op.aop];
        if (!pe_sym(0, op.fn.c_str(), false)) op.fn.clear();
    }
    if (op.fn.empty()) op.fn = pre(op.ctx) + tk_name[op.tk] + "_atomic_" + amo_name[op.aop] + (op.nbi ? "_nbi" : "");
    for (int t = 0; t < 4; t++) {
        op.off = draw((uint32_t)(G.reg[op.reg].size / op.es)) * op.es;
        Offs ro = offs_of(op.off, 1, op.es, 1);
        bool rd = op.aop == A_FETCH;
        if (rd ? !can_read(p, op.target, op.reg, ro) : !can_write(p, op.target, op.reg, ro, op.ctx)) continue;
        op.data.assign(op.es, 0);
        op.cond.assign(op.es, 0);
        op.expect.assign(op.es, 0);
        vector<uint8_t> nv(op.es);
        with_type(op.tk, [&](auto z) {
            typedef decltype(z) T;
            T old;
            model(op.target, op.reg, ro, (uint8_t *)&old);
            T v = gen_val<T>();
            T cond = old;
            if (op.aop == A_CSWAP && chance(40)) cond = gen_val<T>();
            T r = apply_amo<T>(op.aop, old, v, cond);
            memcpy(op.data.data(), &v, op.es);
            memcpy(op.cond.data(), &cond, op.es);
            memcpy(op.expect.data(), &old, op.es);
            memcpy(nv.data(), &r, op.es);
        });
        if (tk_float(op.tk) && op.aop != A_SET) { // arbitrary bits may not be a number: bitwise compare is still meaningful for fetch and swap
            bool isnum = with_type(op.tk, [&](auto z) {
                typedef decltype(z) T;
                T o;
                memcpy(&o, op.expect.data(), op.es);
                return o == o;
            });
            if (!isnum) continue;
        }
        if (op.aop == A_SET) op.expect.clear();
        if (kind == 0) op.expect.clear();
        if (kind) G.st.relies += relies(p, op.target, op.reg, ro);
        int e = new_ev(p, op.target, op.ctx, kind == 1 ? 0 : 1, kind == 0);
        if (rd) mark_read(e, op.target, op.reg, ro);
        else mark_write(e, op.target, op.reg, ro, nv.data());
        G.st.amos++;
        G.st.nbi += kind == 2;
        G.st.remote_updates += !rd;
        G.st.ctxops += op.ctx > 0;
        emit(p, op);
        return true;
    }
    return false;
}
bool gen_lstore(int p) {
    Op op;
    op.k = O_LSTORE;
    op.target = p;
    op.reg = draw((uint32_t)G.reg.size());
    size_t sz = G.reg[op.reg].size;
    op.n = std::min(sz, std::max<size_t>(1, pick_n(sz)));
    op.off = draw((uint32_t)(sz - op.n + 1));
    Offs o = offs_of(op.off, op.n, 1, 1);
    if (!can_write(p, p, op.reg, o, -99)) return false;
    fill(op.data, op.n);
    mark_write(new_ev(p, p, 0, 2), p, op.reg, o, op.data.data());
    emit(p, op);
    return true;
}
bool gen_lload(int p) {
    Op op;
    op.k = O_LLOAD;
    op.target = p;
    op.reg = draw((uint32_t)G.reg.size());
    size_t sz = G.reg[op.reg].size;
    op.n = std::min(sz, std::max<size_t>(1, pick_n(sz)));
    op.off = draw((uint32_t)(sz - op.n + 1));
    Offs o = offs_of(op.off, op.n, 1, 1);
    if (!can_read(p, p, op.reg, o)) return false;
    op.expect.resize(op.n);
    model(p, op.reg, o, op.expect.data());
    G.st.relies += relies(p, p, op.reg, o);
    mark_read(new_ev(p, p, 0, 0), p, op.reg, o);
    emit(p, op);
    return true;
}
void gen_quiet(int p, int ctx = -99) {
    Op op;
    op.k = O_QUIET;
    op.ctx = ctx == -99 ? pick_ctx() : ctx;
    op.fn = op.ctx ? "shmem_ctx_quiet" : "shmem_quiet";
    // Destroying a context performs a quiet on it; the PE creates another one at once.
    if (op.ctx > 0 && chance(20)) op.fn = "shmem_ctx_destroy";
    complete(p, op.ctx < 0 ? 0 : op.ctx);
    if (op.ctx <= 0) publish_stores(p);
    G.st.syncs++;
    emit(p, op);
}
void gen_fence(int p, int ctx = -99) {
    Op op;
    op.k = O_FENCE;
    op.ctx = ctx == -99 ? pick_ctx() : ctx;
    op.fn = op.ctx ? "shmem_ctx_fence" : "shmem_fence";
    int c = op.ctx < 0 ? 0 : op.ctx;
    for (int e : G.pend[p])
        if (G.ev[e].ctx == c && G.ev[e].fenceable) {
            G.ev[e].fenced = true;
            G.st.fenced++;
        }
    emit(p, op);
}
vector<int> members(int start, int ls, int size) {
    vector<int> m;
    for (int i = 0; i < size; i++) m.push_back(start + (i << ls));
    return m;
}
void gen_coll_sync(OpKind k) {
    Op op;
    op.k = k;
    vector<int> m;
    if (k == O_BARRIER || k == O_SYNC) {
        op.lstride = draw(3);
        while ((1 << op.lstride) > G.np && op.lstride > 0) op.lstride--;
        op.start = draw(G.np);
        int mx = (G.np - 1 - op.start) / (1 << op.lstride) + 1;
        op.size = 1 + draw(mx);
        m = members(op.start, op.lstride, op.size);
        std::array<int, 3> a = {op.start, op.lstride, op.size};
        size_t i = std::find(G.asets.begin(), G.asets.end(), a) - G.asets.begin();
        if (i == G.asets.size()) {
            if (i >= 100) return;
            G.asets.push_back(a);
        }
        op.slot = (int)i;
        op.fn = k == O_BARRIER ? "shmem_barrier" : "shmem_sync_aset";
    } else if (k == O_TSYNC) {
        op.slot = draw((uint32_t)G.teams.size());
        m = G.teams[op.slot].m;
        op.start = 0;
        op.size = (int)m.size();
        op.fn = "shmem_team_sync";
    } else {
        for (int i = 0; i < G.np; i++) m.push_back(i);
        op.start = 0;
        op.size = G.np;
        op.fn = k == O_BARRIER_ALL ? "shmem_barrier_all" :  "shmem_sync_all";
    }
    op.inst = G.ninst++;
    bool bar = k == O_BARRIER || k == O_BARRIER_ALL;
    Set u;
    for (int p : m) {
        if (bar) complete(p, 0);
        publish_stores(p);
        u |= G.S[p];
    }
    for (int p : m) {
        G.K[p] |= u;
        G.S[p] |= u;
        emit(p, op);
    }
    G.st.syncs++;
}
void set_locks(const Op &op, bool v) {
    for (size_t i = 0; i < op.es; i++) G.reg[op.reg].b[op.target][op.off + i].lock = v;
}
template <class T> bool cmp_t(int c, T a, T b) {
    switch (c) {
    case 0: return a == b;
    case 1: return a != b;
    case 2: return a > b;
    case 3: return a >= b;
    case 4: return a < b;
    default: return a <= b;
    }
}
const char *cmp_name[] = {"EQ", "NE", "GT", "GE", "LT", "LE"};
// chooses a condition that is false for the old and true for the new value
template <class T> bool pick_cond(T o, T n, bool mono, int &cmp, T &val) {
    for (int t = 0; t < 8; t++) {
        cmp = draw(6);
        switch (draw(4)) {
        case 0: val = n; break;
        case 1: val = o; break;
        case 2: val = (T)(n - 1); break;
        default: val = (T)(n + 1); break;
        }
        if (mono && !(cmp == 0 || cmp == 3)) continue;
        if (mono) val = n;
        if (!cmp_t(cmp, o, val) && cmp_t(cmp, n, val)) return true;
    }
    cmp = 0;
    val = n;
    return o != n;
}
void emit_wait(size_t i) {
    Prog::Wait w = G.waits[i];
    G.waits.erase(G.waits.begin() + i);
    set_locks(w.op, false);
    G.K[w.q] |= w.msg;
    G.S[w.q] |= w.msg;
    Offs o = offs_of(w.op.off, 1, w.op.es, 1);
    mark_read(new_ev(w.q, w.q, 0, 0), w.q, w.op.reg, o);
    G.st.waits++;
    emit(w.q, w.op);
}
int forms_of_wait(int tk) {
    (void)tk;
    return draw(3) == 2 ? 1 : 0;
}
bool gen_signal(int p, int q, int ctx) {
    Op op;
    op.ctx = ctx;
    op.target = q;
    op.n = 1;
    op.tk = pick_type(T_P2P);
    op.es = tk_size[op.tk];
    int how = draw(5); // 0 p, 1 putmem, 2 atomic set, 3 atomic add, 4 put nbi + quiet
    bool amo_ok = std::find(T_AMO_STD.begin(), T_AMO_STD.end(), op.tk) != T_AMO_STD.end();
    if ((how == 2 || how == 3) && !amo_ok) how = 0;
    for (int t = 0; t < 6; t++) {
        op.reg = pick_reg(ctx);
        op.off = draw((uint32_t)(G.reg[op.reg].size / op.es)) * op.es;
        Offs ro = offs_of(op.off, 1, op.es, 1);
        if (!can_write(p, q, op.reg, ro, ctx)) continue;
        // the waiter must be able to rely on the old value
        if (!can_read(q, q, op.reg, ro)) continue;
        Op w = op;
        w.k = O_WAIT;
        w.ctx = 0;
        bool good = false;
        vector<uint8_t> nv(op.es);
        with_type(op.tk, [&](auto z) {
            typedef decltype(z) T;
            if constexpr (std::is_floating_point<T>::value) return;
            else {
            T old, v, nw;
            model(q, op.reg, ro, (uint8_t *)&old);
            v = gen_val<T>();
            nw = how == 3 ? apply_amo<T>(A_ADD, old, v, 0) : v;
            if (nw == old) { v = how == 3 ? 1 : (T)(old + 1); nw = (T)(old + 1); }
            T val;
            good = pick_cond<T>(old, nw, false, w.cmp, val);
            op.data.assign((uint8_t *)&v, (uint8_t *)&v + op.es);
            memcpy(nv.data(), &nw, op.es);
            w.data.assign((uint8_t *)&val, (uint8_t *)&val + op.es);
            w.expect = nv;
            }
        });
        if (!good) continue;
        if (how == 0) { op.k = O_P; op.fn = pre(ctx) + tk_name[op.tk] + "_p"; if (!pe_sym(0, op.fn.c_str(), false)) { op.k = O_PUT; op.n = op.es; op.es = 1; op.fn = pre(ctx) + "putmem"; } }
        else if (how == 1 || how == 4) { op.k = O_PUT; op.fn = pre(ctx) + "put" + std::to_string(op.es * 8) + (how == 4 ? "_nbi" : ""); op.nbi = how == 4; op.lst = op.rst = 1; }
        else { op.k = O_AMO; op.aop = how == 2 ? A_SET : A_ADD; op.fn = pre(ctx) + tk_name[op.tk] + "_atomic_" + amo_name[op.aop]; op.cond.assign(op.es, 0); }
        Set msg = signal_msg(p, q, ctx);
        int e = new_ev(p, q, ctx, 1, true);
        msg.set(e);
        mark_write(e, q, op.reg, ro, nv.data());
        emit(p, op);
        if (how == 4) gen_quiet(p, ctx);
        w.form = forms_of_wait(w.tk);
        w.fn = string("shmem_") + tk_name[w.tk] + (w.form ? "_test" : "_wait_until");
        w.target = q;
        G.waits.push_back({q, w, msg, e});
        set_locks(w, true);
        return true;
    }
    return false;
}
bool gen_counter(int q) {
    Op op;
    op.k = O_AMO;
    op.ctx = 0;
    op.target = q;
    op.n = 1;
    op.tk = pick_type(T_AMO_STD);
    op.es = tk_size[op.tk];
    vector<int> who;
    for (int p = 0; p < G.np; p++)
        if (chance(60)) who.push_back(p);
    if (who.empty()) who.push_back(draw(G.np));
    for (int t = 0; t < 4; t++) {
        op.reg = pick_reg(0);
        op.off = draw((uint32_t)(G.reg[op.reg].size / op.es)) * op.es;
        Offs ro = offs_of(op.off, 1, op.es, 1);
        bool ok = can_read(q, q, op.reg, ro);
        for (int p : who) ok = ok && can_write(p, q, op.reg, ro, 0);
        if (!ok) continue;
        Op w = op;
        w.k = O_WAIT;
        vector<Op> adds;
        vector<uint8_t> nv(op.es);
        bool good = true;
        with_type(op.tk, [&](auto z) {
            typedef decltype(z) T;
            if constexpr (!std::is_floating_point<T>::value) {
                T cur;
                model(q, op.reg, ro, (uint8_t *)&cur);
                T old = cur;
                for (size_t i = 0; i < who.size(); i++) {
                    Op a = op;
                    bool inc = chance(50);
                    T v = inc ? 1 : (T)(1 + draw(100));
                    a.aop = inc ? A_INC : A_ADD;
                    a.fn = string("shmem_") + tk_name[a.tk] + "_atomic_" + amo_name[a.aop];
                    a.data.assign((uint8_t *)&v, (uint8_t *)&v + op.es);
                    a.cond.assign(op.es, 0);
                    cur = apply_amo<T>(A_ADD, cur, v, 0);
                    adds.push_back(a);
                }
                w.cmp = 0;
                if (cur > old && chance(50)) w.cmp = 3;
                good = cur != old;
                memcpy(nv.data(), &cur, op.es);
                w.data = nv;
                w.expect = nv;
            }
        });
        if (!good) continue;
        Set msg;
        vector<int> es;
        for (size_t i = 0; i < who.size(); i++) {
            msg |= signal_msg(who[i], q, 0);
            int e = new_ev(who[i], q, 0, 1, true);
            es.push_back(e);
            emit(who[i], adds[i]);
        }
        for (int e : es) msg.set(e);
        // the state after all of them is known to whoever learns it from the waiter
        int grp = (int)G.ev.size();
        G.ev.push_back({-1, q, 0, false});
        msg.set(grp);
        mark_write(grp, q, op.reg, ro, nv.data());
        w.form = forms_of_wait(w.tk);
        w.fn = string("shmem_") + tk_name[w.tk] + (w.form ? "_test" : "_wait_until");
        G.waits.push_back({q, w, msg, grp});
        set_locks(w, true);
        G.st.amos += (int)who.size();
        G.st.third += who.size() > 1;
        return true;
    }
    return false;
}
void gen_check_all() {
    gen_coll_sync(O_BARRIER_ALL);
    for (int p = 0; p < G.np; p++) {
        for (size_t r = 0; r < G.reg.size(); r++) {
            Op op;
            op.k = O_CHECK;
            op.reg = (int)r;
            op.target = p;
            op.n = G.reg[r].size;
            op.expect.resize(op.n);
            op.mask.assign(op.n, 0);
            for (size_t i = 0; i < op.n; i++) {
                Byte &b = G.reg[r].b[p][i];
                op.expect[i] = b.v;
                op.mask[i] = !b.lock && (!b.w || G.K[p][b.w]);
                G.st.verified_bytes += op.mask[i] && b.w;
            }
            int e = new_ev(p, p, 0, 0);
            for (size_t i = 0; i < op.n; i++)
                if (op.mask[i]) G.reg[r].b[p][i].r.push_back(e);
            emit(p, op);
        }
    }
    gen_coll_sync(chance(50) ? O_SYNC_ALL : O_BARRIER_ALL);
}
bool gen_update(int p, int q, int ctx) {
    switch (pickw({O->put + 1, O->p, O->iput, O->putnbi, O->amo})) {
    case 0: return gen_put(p, false, false, q, ctx);
    case 1: return gen_p(p, q, ctx);
    case 2: return gen_put(p, true, false, q, ctx);
    case 3: return gen_put(p, false, true, q, ctx);
    default: return gen_amo(p, 0, q, ctx);
    }
}

string loc(const Op &o) {
    return fmt("%s+%zu@PE%d", G.reg[o.reg].name.c_str(), o.off, o.target);
}
string op_str1(const Op &o);
string op_str(const Op &o) { return (o.rep > 1 ? fmt("%d times: ", o.rep) : "") + op_str1(o); }
string op_str1(const Op &o) {
    string c = o.ctx > 0 ? fmt("ctx%d ", o.ctx) : "";
    switch (o.k) {
    case O_PUT: case O_GET: case O_IPUT: case O_IGET: {
        string l = o.lreg >= 0 ? fmt("own %s+%zu", G.reg[o.lreg].name.c_str(), o.loff) : "private buffer";
        string s = fmt("%s%s(%s, %s, n=%zu", c.c_str(), o.fn.c_str(), loc(o).c_str(), l.c_str(), o.n);
        if (o.k == O_IPUT || o.k == O_IGET) s += fmt(", remote stride %td, local stride %td", o.rst, o.lst);
        return s + ")";
    }
    case O_P: return fmt("%s%s(%s, bytes %s)", c.c_str(), o.fn.c_str(), loc(o).c_str(), hex(o.data.data(), o.data.size()).c_str());
    case O_G: return fmt("%s%s(%s) == bytes %s", c.c_str(), o.fn.c_str(), loc(o).c_str(), hex(o.expect.data(), o.es).c_str());
    case O_AMO: return fmt("%s%s(%s, value %s, cond %s)%s%s", c.c_str(), o.fn.c_str(), loc(o).c_str(), hex(o.data.data(), o.data.size()).c_str(), hex(o.cond.data(), o.cond.size()).c_str(),
                           o.expect.empty() ? "" : " == ", o.expect.empty() ? "" : hex(o.expect.data(), o.es).c_str());
    case O_LSTORE: return fmt("store %zu bytes at own %s+%zu", o.n, G.reg[o.reg].name.c_str(), o.off);
    case O_LLOAD: return fmt("load %zu bytes at own %s+%zu", o.n, G.reg[o.reg].name.c_str(), o.off);
    case O_PAUSE: return fmt("compute %d", o.extra);
    case O_NOP: return fmt("%s [own %s+%zu, level %d]", o.fn.c_str(), G.reg[o.reg].name.c_str(), o.off, o.extra);
    case O_QUIET: case O_FENCE: return fmt("%s%s", c.c_str(), o.fn.c_str());
    case O_BARRIER: case O_SYNC: return fmt("%s(start %d, logstride %d, size %d)", o.fn.c_str(), o.start, o.lstride, o.size);
    case O_TSYNC: return fmt("shmem_team_sync(team %d)", o.slot);
    case O_WAIT: return fmt("%s(%s, %s, bytes %s)", o.fn.c_str(), loc(o).c_str(), cmp_name[o.cmp], hex(o.data.data(), o.data.size()).c_str());
    case O_CHECK: return fmt("check all of %s", G.reg[o.reg].name.c_str());
    default: return o.fn;
    }
}

// ---------------------------------------------------------------- execution
struct Inst {
    uint64_t first_exit = ~0ull, last_entry = 0;
    int entered = 0;
};
vector<Inst> insts;
struct Buf {
    char *mem;
    size_t n;
    vector<uint8_t> expect; // bytes expected at the element positions (reads) or the source (writes)
    Offs o;
    bool read;
    string what;
    int ctx;
    char *sym = nullptr; // destination in symmetric memory: only content is checked
};
vector<Buf> outstanding[MAXPE];
constexpr size_t GUARD = 48;

char *new_buf(size_t n) {
    char *m = (char *)malloc(n + 2 * GUARD + 16);
    m = (char *)(((uintptr_t)m + 15) & ~15ul);
    memset(m, 0xC3, n + 2 * GUARD);
    return m + GUARD;
}
void check_buf(int p, Buf &b) {
    if (b.sym) {
        for (size_t i = 0; i < b.o.size(); i++)
            if ((uint8_t)b.sym[b.o[i]] != b.expect[i]) fail("PE %d: %s: byte %zu of the result is %02x, expected %02x", p, b.what.c_str(), i, (uint8_t)b.sym[b.o[i]], b.expect[i]);
        return;
    }
    for (size_t i = 0; i < GUARD; i++)
        if ((uint8_t)b.mem[-1 - (ptrdiff_t)i] != 0xC3 || (uint8_t)b.mem[b.n + i] != 0xC3) fail("PE %d: %s: memory next to the private buffer was changed", p, b.what.c_str());
    if (b.read) {
        vector<uint8_t> want(b.n, 0x5A);
        for (size_t i = 0; i < b.o.size(); i++) want[b.o[i]] = b.expect[i];
        for (size_t i = 0; i < b.n; i++)
            if ((uint8_t)b.mem[i] != want[i]) fail("PE %d: %s: byte %zu of the result buffer is %02x, expected %02x", p, b.what.c_str(), i, (uint8_t)b.mem[i], want[i]);
    } else {
        for (size_t i = 0; i < b.n; i++)
            if ((uint8_t)b.mem[i] != b.expect[i]) fail("PE %d: %s: byte %zu of the source buffer was changed", p, b.what.c_str(), i);
    }
    memset(b.mem, 0xE7, b.n); // the buffer is ours again
}
// after a barrier others may already write to symmetric destinations again: those are judged by later reads
void finish_outstanding(int p, int ctx, bool barrier) {
    vector<Buf> keep;
    for (auto &b : outstanding[p]) {
        if (b.ctx == ctx) {
            if (!barrier || !b.sym) check_buf(p, b);
        }
        else keep.push_back(std::move(b));
    }
    outstanding[p].swap(keep);
}
long *psync(int slot_) { return (long *)((char *)pe_sym(sim_me(), "oshv_sdata") + 12288) + slot_; }
void exec1(int p, const Op &o) {
    char *rem = o.k <= O_AMO || o.k == O_WAIT || o.k == O_CHECK || o.k == O_LSTORE || o.k == O_LLOAD ? G.reg[o.reg].addr[p] + o.off : nullptr;
    void *cx = o.ctx > 0 ? G.ctx[o.ctx].h[p] : O_CTX_DEFAULT;
    int bctx = o.ctx > 0 ? o.ctx : 0;
    switch (o.k) {
    case O_PUT: case O_IPUT: case O_GET: case O_IGET: {
        bool put = o.k == O_PUT || o.k == O_IPUT, strided = o.k == O_IPUT || o.k == O_IGET;
        Buf b;
        b.ctx = bctx;
        b.what = fmt("%s", op_str(o).c_str());
        b.read = !put;
        b.o = offs_of(0, o.n, o.es, o.lst);
        char *l;
        if (o.lreg >= 0) {
            l = G.reg[o.lreg].addr[p] + o.loff;
            b.sym = l;
            b.expect = o.expect;
        } else {
            l = new_buf(o.data.size());
            memcpy(l, o.data.data(), o.data.size());
            b.mem = l;
            b.n = o.data.size();
            b.expect = put ? o.data : o.expect;
        }
        void *d = put ? rem : l, *s = put ? l : rem;
        void *f = pe_sym(p, o.fn.c_str());
        if (!strided) {
            if (o.ctx) callp(f, cx, d, (const void *)s, o.n, o.target);
            else callp(f, d, (const void *)s, o.n, o.target);
        } else {
            ptrdiff_t ds = put ? o.rst : o.lst, ss = put ? o.lst : o.rst;
            if (o.ctx) callp(f, cx, d, (const void *)s, ds, ss, o.n, o.target);
            else callp(f, d, (const void *)s, ds, ss, o.n, o.target);
        }
        if (put && o.lreg >= 0) break;
        if (o.nbi) outstanding[p].push_back(b);
        else check_buf(p, b);
        break;
    }
    case O_P:
        with_type(o.tk, [&](auto z) {
            typedef decltype(z) T;
            T v;
            memcpy(&v, o.data.data(), sizeof v < o.data.size() ? sizeof v : o.data.size());
            if (o.ctx) callp(pe_sym(p, o.fn.c_str()), cx, (T *)rem, v, o.target);
            else callp(pe_sym(p, o.fn.c_str()), (T *)rem, v, o.target);
        });
        break;
    case O_G:
        with_type(o.tk, [&](auto z) {
            typedef decltype(z) T;
            T v = o.ctx ? callp<T>(pe_sym(p, o.fn.c_str()), cx, (const T *)rem, o.target) : callp<T>(pe_sym(p, o.fn.c_str()), (const T *)rem, o.target);
            if (memcmp(&v, o.expect.data(), o.es)) fail("PE %d: %s returned bytes %s", p, op_str(o).c_str(), hex(&v, o.es).c_str());
        });
        break;
    case O_AMO: {
        void *f = pe_sym(p, o.fn.c_str());
        with_type(o.tk, [&](auto z) {
            typedef decltype(z) T;
            T v, c, r = T();
            memcpy(&v, o.data.data(), sizeof(T));
            memcpy(&c, o.cond.data(), sizeof(T));
            T *d = (T *)rem;
            if (o.nbi) {
                Buf b;
                b.ctx = bctx;
                b.what = op_str(o);
                b.read = true;
                b.o = offs_of(0, 1, o.es, 1);
                b.mem = new_buf(o.es);
                memset(b.mem, 0x5A, o.es);
                b.n = o.es;
                b.expect = o.expect;
                T *ft = (T *)b.mem;
                switch (o.aop) {
                case A_FETCH: if (o.ctx) callp(f, cx, ft, (const T *)d, o.target); else callp(f, ft, (const T *)d, o.target); break;
                case A_FINC: if (o.ctx) callp(f, cx, ft, d, o.target); else callp(f, ft, d, o.target); break;
                case A_CSWAP: if (o.ctx) callp(f, cx, ft, d, c, v, o.target); else callp(f, ft, d, c, v, o.target); break;
                default: if (o.ctx) callp(f, cx, ft, d, v, o.target); else callp(f, ft, d, v, o.target); break;
                }
                outstanding[p].push_back(b);
                return;
            }
            switch (o.aop) {
            case A_INC: if (o.ctx) callp(f, cx, d, o.target); else callp(f, d, o.target); break;
            case A_SET: case A_ADD: case A_AND: case A_OR: case A_XOR: if (o.ctx) callp(f, cx, d, v, o.target); else callp(f, d, v, o.target); break;
            case A_FETCH: r = o.ctx ? callp<T>(f, cx, (const T *)d, o.target) : callp<T>(f, (const T *)d, o.target); break;
            case A_FINC: r = o.ctx ? callp<T>(f, cx, d, o.target) : callp<T>(f, d, o.target); break;
            case A_CSWAP: r = o.ctx ? callp<T>(f, cx, d, c, v, o.target) : callp<T>(f, d, c, v, o.target); break;
            default: r = o.ctx ? callp<T>(f, cx, d, v, o.target) : callp<T>(f, d, v, o.target); break;
            }
            if (!o.expect.empty() && o.aop >= A_FETCH && memcmp(&r, o.expect.data(), o.es))
                fail("PE %d: %s returned bytes %s", p, op_str(o).c_str(), hex(&r, o.es).c_str());
        });
        break;
    }
    case O_LSTORE: memcpy(rem, o.data.data(), o.n); break;
    case O_LLOAD:
        for (size_t i = 0; i < o.n; i++)
            if ((uint8_t)rem[i] != o.expect[i])
                fail("PE %d: own memory %s+%zu is %02x, expected %02x", p, G.reg[o.reg].name.c_str(), o.off + i, (uint8_t)rem[i], o.expect[i]);
        break;
    case O_CHECK:
        for (size_t i = 0; i < o.n; i++)
            if (o.mask[i] && (uint8_t)rem[i] != o.expect[i])
                fail("PE %d: final check: %s+%zu is %02x, expected %02x", p, G.reg[o.reg].name.c_str(), i, (uint8_t)rem[i], o.expect[i]);
        break;
    case O_NOP: {
        void *f = pe_sym(p, o.fn.c_str());
        if (o.fn == "shmem_pcontrol") {
            if (o.form == 0) ((void (*)(int, ...))f)(o.extra);
            else if (o.form == 1) ((void (*)(int, ...))f)(o.extra, "event", 42);
            else ((void (*)(int, ...))f)(o.extra, 1.5, rem);
        } else if (o.form) callp(f, (void *)rem);
        else callp(f);
        break;
    }
    case O_PAUSE:
        for (int i = 0; i < o.extra; i++) {
            sim_progress_mark();
            sim_pause(1);
        }
        break;
    case O_QUIET:
        if (o.ctx) callp(pe_sym(p, o.fn.c_str()), cx);
        else callp(pe_sym(p, o.fn.c_str()));
        if (o.fn == "shmem_ctx_destroy") {
            int r = call<int>("shmemx_space_create_ctx", G.space_h[G.ctx[o.ctx].space][p], 0L, &G.ctx[o.ctx].h[p]);
            if (r) fail("shmemx_space_create_ctx returned %d after a context had been destroyed", r);
        }
        finish_outstanding(p, bctx, false);
        break;
    case O_FENCE:
        if (o.ctx) callp(pe_sym(p, o.fn.c_str()), cx);
        else callp(pe_sym(p, o.fn.c_str()));
        break;
    case O_BARRIER_ALL: case O_BARRIER: case O_SYNC_ALL: case O_SYNC: case O_TSYNC: {
        Inst &in = insts[o.inst];
        in.last_entry = sim_now();
        in.entered++;
        void *f = pe_sym(p, o.fn.c_str());
        if (o.k == O_BARRIER || o.k == O_SYNC) callp(f, o.start, o.lstride, o.size, psync(o.slot));
        else if (o.k == O_TSYNC) {
            int r = callp<int>(f, G.teams[o.slot].h[p]);
            if (r) fail("PE %d: shmem_team_sync of team %d returned %d", p, o.slot, r);
        } else callp(f);
        if (in.entered < o.size) fail("PE %d left %s when only %d of %d PEs had entered it", p, op_str(o).c_str(), in.entered, o.size);
        if (o.k == O_BARRIER || o.k == O_BARRIER_ALL) finish_outstanding(p, 0, true);
        break;
    }
    case O_WAIT: {
        void *f = pe_sym(p, o.fn.c_str());
        with_type(o.tk, [&](auto z) {
            typedef decltype(z) T;
            if constexpr (!std::is_floating_point<T>::value) {
                T v;
                memcpy(&v, o.data.data(), sizeof v);
                if (o.form == 0) callp(f, (T *)rem, 0x100001 + o.cmp, v);
                else
                    while (!callp<int>(f, (T *)rem, 0x100001 + o.cmp, v)) sim_pause(2);
                T now_;
                memcpy(&now_, rem, sizeof now_);
                if (memcmp(&now_, o.expect.data(), sizeof now_)) fail("PE %d: %s was satisfied while the object held bytes %s, expected %s", p, op_str(o).c_str(), hex(&now_, sizeof now_).c_str(), hex(o.expect.data(), o.es).c_str());
            }
        });
        break;
    }
    }
}
} // namespace

void draw_env_modes(int pct, bool all, bool am) {
    if (g_cfg.compare(0, 3, "thr") == 0) setenv_case("OSHMPI_ENABLE_ASYNC_THREAD", chance(60) ? "1" : "0");
    if (!chance(pct)) return;
    bool err = g_cfg != "fast";
    int m = pickw({3, 2, 3});
    if (m == 1) setenv_case("OSHMPI_AMO_DBG_MODE", "direct");
    if (m == 2) setenv_case("OSHMPI_AMO_DBG_MODE", "am");
    if (am) {
        m = pickw({4, 2, 3});
        if (m == 1) setenv_case("OSHMPI_RMA_DBG_MODE", "direct");
        if (m == 2) setenv_case("OSHMPI_RMA_DBG_MODE", "am");
    }
    (void)err;
    if (!all) return;
    if (chance(20)) setenv_case("OSHMPI_VERBOSE", chance(50) ? "1" : "0");
    if (chance(20)) setenv_case("SHMEM_DEBUG", chance(70) ? "1" : "0");
    if (chance(20)) setenv_case("SHMEM_VERSION", chance(70) ? "1" : "0");
    if (chance(20)) setenv_case("SHMEM_INFO", chance(70) ? "1" : "0");
    if (chance(15)) setenv_case("OSHMPI_ENABLE_MPI_T", "1");
    if (chance(15)) setenv_case("OSHMPI_ENABLE_ASYNC_THREAD", chance(50) ? "1" : "0");
    if (chance(40)) {
        static const char *gpu[] = {"all", "pt2pt", "none", "pt2pt,put,get,acc", "put,get"};
        setenv_case("OSHMPI_MPI_GPU_FEATURES", gpu[draw(5)]);
    }
    if (chance(40)) setenv_case("OSHMPI_AMO_OPS", chance(50) ? "all" : "cswap,finc,inc,fadd,add,fetch,set,swap,fand,and,for,or,fxor,xor");
}

DrfStats drf_case(const DrfOpts &o) {
    O = &o;
    int np = chance(4) ? 6 + draw(5) : range(o.minpe, o.maxpe);
    SimParams sp = draw_sim(np, o.turns_pct);
    desc("%s", sim_str(sp).c_str());
    draw_env_modes(o.modes_pct, o.all_modes, o.am_allowed);
    G.np = np;
    G.ev.push_back({-1, -1, 0, false}); // event 0: initial
    G.ctx.push_back({-1, {}});
    bool big = chance(o.big_pct);
    G.huge = o.big_pct && draw(150) == 77; // counts and sizes beyond 16 bits
    size_t hs = G.huge ? 70000 + draw(130000) : big ? 3000 + draw(5000) : 64 + 16 * draw(20);
    G.far.draw(o.heap ? 5 : 0, G.huge ? 400000 : 65536, hs);
    auto add = [&](const char *n, int kind, size_t sz, int space) {
        Region r;
        r.name = n;
        r.kind = kind;
        r.size = sz;
        r.space = space;
        for (int p = 0; p < np; p++) r.b[p].resize(sz);
        G.reg.push_back(std::move(r));
    };
    if (o.heap) add("heap", 0, hs, -1);
    if (o.sdata && chance(70)) add("sdata", 1, big ? 2000 : 64 + 16 * draw(12), -1);
    if (o.sbss && chance(50)) add("sbss", 2, 64 + 16 * draw(12), -1);
    if (o.heap && chance(30)) add("heap2", 0, 32 + 16 * draw(8), -1);
    if (chance(o.spaces_pct)) {
        G.nspaces = 1 + draw(2);
        for (int s = 0; s < G.nspaces; s++) {
            G.space_sz[s] = 8192;
            if (chance(2)) {
                G.space_pad[s] = pick<size_t>({1ull << 31, 1ull << 32}) - 4096 * (size_t)draw(3);
                G.space_sz[s] += G.space_pad[s] + 4096;
                desc("the blocks of space %d are allocated behind one of %zu bytes", s, G.space_pad[s]);
            }
            add(s ? "space1" : "space0", 3, 64 + 16 * draw(16), s);
            if (chance(25)) add(s ? "space1b" : "space0b", 3, 64 + 16 * draw(8), s);
        }
        if (o.ctx_pct) {
            int nc = 1 + draw(3);
            for (int i = 0; i < nc; i++) G.ctx.push_back({(int)draw(G.nspaces), {}});
        }
    }
    if (o.team_sync) { // teams to synchronize
        vector<int> all;
        for (int i = 0; i < np; i++) all.push_back(i);
        G.teams.push_back({all, -1, 0, 1, 0, {}});
        for (auto &m : draw_nodes(sp)) G.teams.push_back({m, -1, 0, 1, 0, {}});
        G.nbuilt = G.teams.size();
        for (int i = draw(4); i > 0; i--) {
            TeamD t;
            t.parent = draw((uint32_t)G.teams.size());
            auto &pm = G.teams[t.parent].m;
            t.s = draw((uint32_t)pm.size());
            t.st = 1 + draw(2);
            t.sz = 1 + draw((uint32_t)(pm.size() - 1 - t.s) / t.st + 1);
            for (int j = 0; j < t.sz; j++) t.m.push_back(pm[t.s + j * t.st]);
            desc("team %zu = split of team %d: start %d stride %d size %d", G.teams.size(), t.parent, t.s, t.st, t.sz);
            G.teams.push_back(t);
        }
    }
    // initial contents: stored locally before the first barrier
    for (auto &r : G.reg)
        for (int p = 0; p < np; p++) {
            uint32_t s = (uint32_t)(p * 977 + r.size * 13 + r.kind * 71 + 1);
            for (auto &b : r.b[p]) {
                s = s * 1664525u + 1013904223u;
                b.v = (uint8_t)(s >> 24);
            }
        }
    vector<vector<uint8_t>> init0;
    vector<vector<vector<uint8_t>>> init(G.reg.size(), vector<vector<uint8_t>>(np));
    for (size_t r = 0; r < G.reg.size(); r++)
        for (int p = 0; p < np; p++)
            for (auto &b : G.reg[r].b[p]) init[r][p].push_back(b.v);
    int nops = range(o.minops, g_tier ? o.maxops * 3 / 2 : o.maxops);
    // bursts: an idempotent operation is issued again and again, up to about as many times as a byte counts
    bool bursts = chance(3);
    auto burst = [&](int p, size_t from) {
        if (!bursts || G.ops[p].size() <= from || !chance(25)) return;
        Op &b = G.ops[p].back();
        if (b.k == O_AMO && b.aop != A_SET && b.aop != A_AND && b.aop != A_OR && b.aop != A_FETCH) return;
        if ((b.k > O_G && b.k != O_AMO) || b.n * b.es > 256) return;
        b.rep = chance(70) ? 256 - draw(6) : 2 + draw(40);
    };
    for (int i = 0; i < nops; i++) {
        int k = pickw({o.put, o.p, o.get, o.g, o.iput, o.iget, o.putnbi, o.getnbi, o.amo, o.amofetch, o.amonbi, o.lstore, o.lload, o.pause, o.quiet, o.fence,
                       o.barrier_all, o.barrier_aset, o.sync_all, o.sync_aset, o.team_sync, o.signal, o.counter, o.wait, o.check, o.overwrite, o.fenced_sig, o.quiet_relay});
        int p = draw(np);
        bool ok = true;
        size_t before = G.ops[p].size();
        switch (k) {
        case 0: ok = gen_put(p, false, false); break;
        case 1: ok = gen_p(p); break;
        case 2: ok = gen_get(p, false, false); break;
        case 3: ok = gen_g(p); break;
        case 4: ok = gen_put(p, true, false); break;
        case 5: ok = gen_get(p, true, false); break;
        case 6: ok = gen_put(p, false, true); break;
        case 7: ok = gen_get(p, false, true); break;
        case 8: ok = gen_amo(p, 0); break;
        case 9: ok = gen_amo(p, 1); break;
        case 10: ok = gen_amo(p, 2); break;
        case 11: gen_lstore(p); break;
        case 12: gen_lload(p); break;
        case 13: {
            Op op;
            if (chance(40)) { // profiling control, and the cache management calls of SHMEM 1.3: they change nothing
                static const char *nops[] = {"shmem_pcontrol", "shmem_clear_cache_inv", "shmem_set_cache_inv", "shmem_udcflush", "shmem_clear_cache_line_inv",
                                             "shmem_set_cache_line_inv", "shmem_udcflush_line"};
                op.k = O_NOP;
                int w = draw(7);
                op.fn = nops[w];
                op.form = w == 0 ? draw(3) : w >= 4;
                static const int lv[] = {0, 1, 2, 3, -1, INT_MAX, INT_MIN};
                op.extra = lv[draw(7)];
                op.reg = draw((uint32_t)G.reg.size());
                op.off = G.reg[op.reg].size ? draw((uint32_t)G.reg[op.reg].size) : 0;
                emit(p, op);
                break;
            }
            op.k = O_PAUSE;
            op.extra = 1 + draw(chance(20) ? 400 : 20);
            emit(p, op);
            break;
        }
        case 14: gen_quiet(p); break;
        case 15: gen_fence(p); break;
        case 16: gen_coll_sync(O_BARRIER_ALL); break;
        case 17: gen_coll_sync(O_BARRIER); break;
        case 18: gen_coll_sync(O_SYNC_ALL); break;
        case 19: gen_coll_sync(O_SYNC); break;
        case 20: gen_coll_sync(O_TSYNC); break;
        case 21: gen_signal(p, draw(np), pick_ctx()); break;
        case 22: gen_counter(p); break;
        case 23: if (!G.waits.empty()) emit_wait(draw((uint32_t)G.waits.size())); break;
        case 24: gen_check_all(); break;
        case 25: { // fenced overwrite
            int q = draw(np), c = pick_ctx();
            int n = 1 + draw(3);
            for (int j = 0; j < n; j++) gen_update(p, q, c);
            burst(p, before);
            gen_fence(p, c);
            n = 1 + draw(3);
            for (int j = 0; j < n; j++) gen_update(p, q, c);
            break;
        }
        case 26: { // updates, fence, signal; the waiter reads what was sent
            int q = draw(np), c = pick_ctx();
            int n = 1 + draw(4);
            for (int j = 0; j < n; j++) gen_update(p, q, c);
            burst(p, before);
            gen_fence(p, c);
            if (gen_signal(p, q, c)) {
                if (chance(70)) {
                    emit_wait(G.waits.size() - 1);
                    n = 1 + draw(3);
                    for (int j = 0; j < n; j++) gen_lload(q);
                }
            }
            break;
        }
        case 27: { // updates of q, quiet, signal to r, r reads q
            int q = draw(np), r = draw(np), c = pick_ctx();
            int n = 1 + draw(4);
            for (int j = 0; j < n; j++) {
                gen_update(p, chance(70) ? q : (int)draw(np), c);
                if (chance(15)) gen_fence(p, c);
            }
            burst(p, before);
            gen_quiet(p, c);
            if (gen_signal(p, r, 0)) {
                if (chance(80)) {
                    emit_wait(G.waits.size() - 1);
                    n = 1 + draw(3);
                    for (int j = 0; j < n; j++) {
                        if (r == q || chance(25)) gen_lload(r);
                        else if (chance(30)) gen_g(r, q);
                        else gen_get(r, false, false, q);
                        G.st.third += r != q;
                    }
                }
            }
            break;
        }
        }
        if (k <= 10 && ok) burst(p, before);
        if (!ok) { // nothing legal found: make progress in knowledge
            switch (pickw({5, 2, 2})) {
            case 0: gen_quiet(p); break;
            case 1: gen_coll_sync(O_BARRIER_ALL); break;
            default: if (!G.waits.empty()) emit_wait(draw((uint32_t)G.waits.size())); break;
            }
        }
    }
    while (!G.waits.empty()) emit_wait(G.waits.size() - 1);
    for (int p = 0; p < np; p++)
        for (size_t c = 1; c < G.ctx.size(); c++) gen_quiet(p, (int)c);
    gen_check_all();
    for (auto &r : G.reg) desc("region %s: %zu bytes%s", r.name.c_str(), r.size, r.kind == 3 ? " (memory space)" : "");
    for (auto &x : G.order) desc("PE%d: %s", x[0], op_str(G.ops[x[0]][x[1]]).c_str());
    insts.resize(G.ninst);

    run_case(sp, [&](int me) {
        call("shmem_init");
        G.far.take(me);
        for (auto &r : G.reg) {
            if (r.kind == 1) r.addr[me] = (char *)pe_sym(me, "oshv_sdata");
            if (r.kind == 2) r.addr[me] = (char *)pe_sym(me, "oshv_sbss");
            if (r.kind == 0) {
                r.addr[me] = call<char *>("shmem_malloc", r.size);
                if (!r.addr[me]) fail("shmem_malloc(%zu) failed", r.size);
            }
        }
        struct Cfg { size_t sheap_size; int num_contexts; int memkind; void *dev; long hints; };
        for (int s = 0; s < G.nspaces; s++) {
            int nc = 0;
            for (size_t c = 1; c < G.ctx.size(); c++) nc += G.ctx[c].space == s;
            Cfg cf = {G.space_sz[s], nc, 0, nullptr, 0};
            call("shmemx_space_create", cf, &G.space_h[s][me]);
            call("shmemx_space_attach", G.space_h[s][me]);
            if (G.space_pad[s]) {
                G.space_blk[s][me] = call<void *>("shmemx_space_malloc", G.space_h[s][me], G.space_pad[s]);
                if (!G.space_blk[s][me]) fail("shmemx_space_malloc(%zu) failed on a space of %zu bytes", G.space_pad[s], G.space_sz[s]);
            }
            for (size_t c = 1; c < G.ctx.size(); c++)
                if (G.ctx[c].space == s) {
                    int r = call<int>("shmemx_space_create_ctx", G.space_h[s][me], 0L, &G.ctx[c].h[me]);
                    if (r) fail("shmemx_space_create_ctx returned %d", r);
                }
            for (auto &r : G.reg)
                if (r.space == s) {
                    r.addr[me] = call<char *>("shmemx_space_malloc", G.space_h[s][me], r.size);
                    if (!r.addr[me]) fail("shmemx_space_malloc(%zu) failed", r.size);
                }
        }
        for (size_t t = 0; t < G.teams.size(); t++) {
            auto &x = G.teams[t];
            if (t < G.nbuilt) x.h[me] = t ? O_TEAM_SHARED : O_TEAM_WORLD;
            else if (std::count(G.teams[x.parent].m.begin(), G.teams[x.parent].m.end(), me)) {
                x.h[me] = nullptr;
                int r = call<int>("shmem_team_split_strided", G.teams[x.parent].h[me], x.s, x.st, x.sz, (const void *)nullptr, 0L, &x.h[me]);
                if (r) fail("shmem_team_split_strided returned %d", r);
            }
        }
        for (size_t r = 0; r < G.reg.size(); r++) memcpy(G.reg[r].addr[me], init[r][me].data(), init[r][me].size());
        call("shmem_barrier_all");
        for (auto &op : G.ops[me]) {
            for (int r = 0; r < op.rep; r++) exec1(me, op), sim_progress_mark();
            sim_progress_mark();
        }
        for (auto &r : G.reg)
            if (r.kind == 3) call("shmem_free", (void *)r.addr[me]);
        for (int s = 0; s < G.nspaces; s++)
            if (G.space_pad[s]) call("shmem_free", G.space_blk[s][me]);
        call("shmem_barrier_all");
        for (size_t t = G.nbuilt; t < G.teams.size(); t++)
            if (std::count(G.teams[t].m.begin(), G.teams[t].m.end(), me)) call("shmem_team_destroy", G.teams[t].h[me]);
        for (size_t c = 1; c < G.ctx.size(); c++) call("shmem_ctx_destroy", G.ctx[c].h[me]);
        for (int s = 0; s < G.nspaces; s++) {
            call("shmemx_space_detach", G.space_h[s][me]);
            call("shmemx_space_destroy", G.space_h[s][me]);
        }
        call("shmem_finalize");
    });
    return G.st;
}
