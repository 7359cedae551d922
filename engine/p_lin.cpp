// C09: concurrent atomics are linearizable.
#include "drf.hpp"
#include <algorithm>
#include <memory>
#include <unordered_set>
using std::string;
using std::vector;
namespace {
enum A { CSWAP, SWAP, FETCH, SET, FINC, INC, FADD, ADD, FAND, AND, FOR, OR, FXOR, XOR, NA };
const char *AN[] = {"compare_swap", "swap", "fetch", "set", "fetch_inc", "inc", "fetch_add", "add", "fetch_and", "and", "fetch_or", "or", "fetch_xor", "xor"};
const char *ENVN[] = {"cswap", "swap", "fetch", "set", "finc", "inc", "fadd", "add", "fand", "and", "for", "or", "fxor", "xor"};
const char *DEPR[] = {"cswap", "swap", "fetch", "set", "finc", "inc", "fadd", "add"};
bool fetching(int a) { return a == CSWAP || a == SWAP || a == FETCH || a == FINC || a == FADD || a == FAND || a == FOR || a == FXOR; }
enum Form { PLAIN, CTX, NBI, DEPRECATED };
struct Op {
    int obj, pe, a, form, id;
    uint64_t v = 0, cond = 0;
    uint64_t inv = 0, resp = 0, res = 0;
    int epoch = 0; // fences and quiets the PE has called before
    bool done = false;
};
struct Obj {
    int kind, owner, region;
    size_t off;
    uint64_t init, fin;
    vector<int> ops;
};
struct Step {
    int k; // 0 op, 1 pause, 2 quiet, 3 fence, 4 barrier
    int op = -1, n = 0;
};
int np;
vector<Obj> O;
vector<Op> ops;
vector<Step> script[MAXPE];
FarBlock far_blk;
char *heap[MAXPE];
char *base_of(int pe, int r) { return r == 0 ? heap[pe] : (char *)pe_sym(pe, r == 1 ? "oshv_sdata" : "oshv_sbss"); }
char *addr(int pe, const Obj &o) { return base_of(pe, o.region) + o.off; }
uint64_t mask(int k) { return tk_size[k] == 8 ? ~0ull : 0xffffffffull; }
template <class T> uint64_t bits(T v) {
    uint64_t r = 0;
    memcpy(&r, &v, sizeof v);
    return r;
}
template <class T> T unbits(uint64_t b) {
    T v;
    memcpy(&v, &b, sizeof v);
    return v;
}
uint64_t after(const Op &o, int kind, uint64_t s) {
    uint64_t r = s;
    switch (o.a) {
    case CSWAP: r = s == o.cond ? o.v : s; break;
    case SWAP: case SET: r = o.v; break;
    case FETCH: break;
    case FINC: case INC: r = s + 1; break;
    case FADD: case ADD: r = s + o.v; break;
    case FAND: case AND: r = s & o.v; break;
    case FOR: case OR: r = s | o.v; break;
    case FXOR: case XOR: r = s ^ o.v; break;
    }
    return r & mask(kind);
}
// Wing-Gong search over the operations of one object
struct Lin {
    const Obj &o;
    vector<const Op *> v;
    vector<uint64_t> pred;
    std::unordered_set<uint64_t> seen;
    size_t budget = 400000;
    Lin(const Obj &ob) : o(ob) {
        for (int i : ob.ops) v.push_back(&ops[i]);
        pred.assign(v.size(), 0);
        for (size_t i = 0; i < v.size(); i++)
            for (size_t j = 0; j < v.size(); j++)
                if (i != j && (v[i]->resp < v[j]->inv || (v[i]->pe == v[j]->pe && v[i]->epoch < v[j]->epoch && v[i]->inv < v[j]->inv))) pred[j] |= 1ull << i;
    }
    bool go(uint64_t done, uint64_t s) {
        if (done == (v.size() == 64 ? ~0ull : (1ull << v.size()) - 1)) return s == o.fin;
        uint64_t h = done * 0x9E3779B97F4A7C15ull ^ (s + 0x7F4A7C15) * 0xBF58476D1CE4E5B9ull;
        if (!seen.insert(h ^ h >> 29).second) return false;
        if (!budget) return true; // undecided: not a violation
        budget--;
        for (size_t j = 0; j < v.size(); j++) {
            if (done >> j & 1 || (pred[j] & ~done)) continue;
            if (fetching(v[j]->a) && v[j]->res != s) continue;
            if (go(done | 1ull << j, after(*v[j], o.kind, s))) return true;
        }
        return false;
    }
};
string op_str(const Op &p) {
    string s = fmt("PE %d: %s%s%s on object %d", p.pe, p.form == CTX ? "ctx " : p.form == DEPRECATED ? "(old name) " : "", AN[p.a], p.form == NBI ? " nbi" : "", p.obj);
    if (p.a == CSWAP) s += fmt(" cond %llx", (unsigned long long)p.cond);
    if (p.a != FETCH && p.a != FINC && p.a != INC) s += fmt(" value %llx", (unsigned long long)p.v);
    return s;
}
void issue(int me, Op &p, vector<std::pair<int, std::unique_ptr<uint64_t>>> &nb) {
    Obj &o = O[p.obj];
    p.inv = sim_now();
    with_type(o.kind, [&](auto t) {
        using T = decltype(t);
        if constexpr (sizeof(T) < 4 || sizeof(T) > 8) return 0;
        else {
            T *a = (T *)addr(me, o);
            T v = unbits<T>(p.v), c = unbits<T>(p.cond);
            const char *n = tk_name[o.kind];
            int q = o.owner;
            void *cx = O_CTX_DEFAULT;
            if (p.form == NBI) {
                nb.emplace_back(p.id, std::make_unique<uint64_t>(0));
                T *f = (T *)nb.back().second.get();
                string fn = fmt("shmem_%s_atomic_%s_nbi", n, AN[p.a]);
                if (p.a == CSWAP) call(fn.c_str(), f, a, c, v, q);
                else if (p.a == FETCH) call(fn.c_str(), f, (const T *)a, q);
                else if (p.a == FINC) call(fn.c_str(), f, a, q);
                else call(fn.c_str(), f, a, v, q);
                p.resp = ~0ull;
                return 0;
            }
            string fn = p.form == CTX ? fmt("shmem_ctx_%s_atomic_%s", n, AN[p.a]) : p.form == DEPRECATED ? fmt("shmem_%s_%s", n, DEPR[p.a]) : fmt("shmem_%s_atomic_%s", n, AN[p.a]);
            const char *f = fn.c_str();
            T r{};
            bool X = p.form == CTX;
            if (p.a == CSWAP) r = X ? call<T>(f, cx, a, c, v, q) : call<T>(f, a, c, v, q);
            else if (p.a == FETCH) r = X ? call<T>(f, cx, (const T *)a, q) : call<T>(f, (const T *)a, q);
            else if (p.a == FINC) r = X ? call<T>(f, cx, a, q) : call<T>(f, a, q);
            else if (p.a == INC) X ? call(f, cx, a, q) : call(f, a, q);
            else if (fetching(p.a)) r = X ? call<T>(f, cx, a, v, q) : call<T>(f, a, v, q);
            else X ? call(f, cx, a, v, q) : call(f, a, v, q);
            if (fetching(p.a)) {
                p.res = bits(r);
                p.resp = sim_now();
            } else p.resp = ~0ull;
            return 0;
        }
    });
}
void c09() {
    np = chance(4) ? 6 + draw(5) : 1 + pickw({1, 5, 5, 3, 2});
    SimParams sp = draw_sim(np);
    draw_env_modes(35, false, true);
    // the operations the program promises to use; MPI accumulates are then legal as far as the library derives it
    uint32_t allowed = (1u << NA) - 1;
    const char *m = getenv("OSHMPI_AMO_DBG_MODE");
    bool am = g_cfg == "am" || (g_cfg != "direct" && m && string(m) == "am");
    bool direct = g_cfg == "direct" || (g_cfg != "am" && m && string(m) == "direct");
    if (chance(30)) {
        allowed = 0;
        string s;
        int n = 1 + draw(3);
        static const vector<vector<int>> same = {{FADD}, {FINC}, {FINC, FADD}, {CSWAP}, {SWAP}, {SET, FETCH}, {SWAP, FETCH}, {FXOR}, {FAND, FETCH}, {FOR, FETCH}, {FADD, FETCH}, {FETCH}};
        vector<int> l;
        if (chance(60)) l = pickv(same);
        else
            for (int i = 0; i < n; i++) l.push_back(draw(NA));
        for (int a : l)
            if (!(allowed >> a & 1)) allowed |= 1u << a, s += (s.empty() ? "" : ",") + string(ENVN[a]);
        setenv_case("OSHMPI_AMO_OPS", s.c_str());
    }
    // forced direct mode, or several operations on MPI accumulates: outside what MPI guarantees, see DESIGN.md
    if (direct) sp.strict_hints = 0;
    desc("%s", sim_str(sp).c_str());
    (void)am;
    far_blk.draw(5, 65536, 1024);
    int no = 1 + pickw({5, 3, 1});
    size_t off[3] = {64, 64, 64};
    for (int i = 0; i < no; i++) {
        Obj o;
        bool bit = allowed & ~((1u << FAND) - 1) && chance(60);
        o.kind = bit ? pickv(T_AMO_BIT) : pickv(T_AMO_EXT);
        if (!(allowed & ((1u << FAND) - 1))) o.kind = pickv(T_AMO_BIT);
        else if (!(allowed & (1u << SWAP | 1u << SET | 1u << FETCH)) && tk_float(o.kind)) o.kind = pickv(T_AMO_STD);
        o.owner = draw(np);
        o.region = draw(3);
        size_t s = tk_size[o.kind];
        o.off = (off[o.region] + s - 1) / s * s + s * draw(3);
        off[o.region] = o.off + s;
        o.init = tk_float(o.kind) ? draw(3) : (chance(30) ? draw64() : draw(4)) & mask(o.kind);
        if (tk_float(o.kind)) o.init = o.kind == K_FLOAT ? bits((float)o.init) : bits((double)o.init);
        O.push_back(o);
        desc("object %d: %s at %s+%zu of PE %d, initially %llx", i, tk_name[o.kind], o.region == 0 ? "heap" : o.region == 1 ? "sdata" : "sbss", o.off, o.owner, (unsigned long long)o.init);
    }
    int nb_ops = 0, nmix = 0;
    int per = 2 + draw(chance(25) ? 9 : 5);
    for (int p = 0; p < np; p++) {
        int n = draw(per + 1);
        for (int i = 0; i < n; i++) {
            Step st;
            st.k = pickw({12, 3, 1, 1});
            if (st.k == 0) {
                Op o;
                o.obj = draw(no);
                Obj &ob = O[o.obj];
                if (ob.ops.size() >= 26) continue;
                vector<int> c;
                for (int a = 0; a < NA; a++) {
                    if (!(allowed >> a & 1)) continue;
                    bool isb = std::count(T_AMO_BIT.begin(), T_AMO_BIT.end(), ob.kind), isf = tk_float(ob.kind);
                    if (a >= FAND && !isb) continue;
                    if (isf && a != SWAP && a != FETCH && a != SET) continue;
                    c.push_back(a);
                }
                if (c.empty()) continue;
                o.a = pickv(c);
                o.pe = p;
                o.form = pickw({6, 2, 3, 2});
                if (o.form == NBI && !fetching(o.a)) o.form = PLAIN;
                if (o.form == DEPRECATED && (o.a > ADD || ob.kind >= K_INT8 || ob.kind == K_UINT || ob.kind == K_ULONG || ob.kind == K_ULONGLONG)) o.form = PLAIN;
                o.v = chance(50) ? draw(4) : chance(60) ? 16 + draw(64) : draw64();
                if (o.a == FAND || o.a == AND) o.v = ~0ull ^ (1ull << draw(8)) ^ (1ull << draw(8));
                if (o.a >= FOR) o.v = 1ull << draw(8);
                o.cond = chance(50) ? ob.init : chance(60) && !ob.ops.empty() ? ops[pickv(ob.ops)].v : draw(4);
                if (tk_float(ob.kind)) o.v = ob.kind == K_FLOAT ? bits((float)(o.v % 1000) / 4) : bits((double)(o.v % 1000) / 4);
                o.v &= mask(ob.kind);
                o.cond &= mask(ob.kind);
                o.id = (int)ops.size();
                st.op = o.id;
                ob.ops.push_back(o.id);
                ops.push_back(o);
                desc("%s", op_str(o).c_str());
                if (o.form == NBI) nb_ops++;
            } else if (st.k == 1) st.n = 1 + draw(30);
            else desc("PE %d: %s", p, st.k == 2 ? "quiet" : "fence");
            script[p].push_back(st);
        }
    }
    for (auto &o : O) {
        uint32_t kinds = 0, pes = 0;
        for (int i : o.ops) kinds |= 1u << ops[i].a, pes |= 1u << ops[i].pe;
        nmix += __builtin_popcount(kinds) > 1 && __builtin_popcount(pes) > 1;
    }
    run_case(sp, [&](int me) {
        call("shmem_init");
        far_blk.take(me);
        heap[me] = call<char *>("shmem_calloc", (size_t)1, (size_t)1024);
        if (!heap[me]) fail("shmem_calloc failed");
        for (int r = 0; r < 3; r++) memset(base_of(me, r), 0x5a, 512);
        for (auto &o : O) memcpy(addr(me, o), &o.init, tk_size[o.kind]);
        call("shmem_barrier_all");
        vector<std::pair<int, std::unique_ptr<uint64_t>>> nb;
        vector<int> open;
        int epoch = 0;
        auto complete = [&] {
            uint64_t t = sim_now();
            for (auto &x : nb) {
                ops[x.first].res = *x.second & mask(O[ops[x.first].obj].kind);
                ops[x.first].resp = t;
            }
            nb.clear();
            for (int i : open) ops[i].resp = t;
            open.clear();
        };
        for (auto &s : script[me]) {
            switch (s.k) {
            case 0:
                ops[s.op].epoch = epoch;
                issue(me, ops[s.op], nb);
                if (!fetching(ops[s.op].a)) open.push_back(s.op);
                break;
            case 1: compute(s.n); break;
            case 2:
                call("shmem_quiet");
                complete();
                epoch++;
                break;
            case 3:
                call("shmem_fence");
                epoch++;
                break;
            }
            sim_progress_mark();
        }
        if (!nb.empty()) {
            call("shmem_quiet");
            complete();
        }
        call("shmem_barrier_all");
        complete();
        for (auto &o : O) {
            if (o.owner != me) continue;
            o.fin = 0;
            memcpy(&o.fin, addr(me, o), tk_size[o.kind]);
        }
        // neighbours and copies on other PEs untouched
        for (int r = 0; r < 3; r++)
            for (int i = 0; i < 512; i++) {
                bool in = false;
                for (auto &o : O)
                    if (o.region == r && i >= (int)o.off && i < (int)o.off + tk_size[o.kind]) {
                        in = true;
                        if (o.owner != me && ((unsigned char *)&o.init)[i - o.off] != (unsigned char)base_of(me, r)[i]) fail("PE %d: its own copy of an object of PE %d was changed", me, o.owner);
                    }
                if (!in && base_of(me, r)[i] != 0x5a) fail("PE %d: byte %d of region %d next to an object was changed", me, i, r);
            }
        call("shmem_barrier_all");
        call("shmem_free", (void *)heap[me]);
        far_blk.give(me);
        call("shmem_finalize");
    });
    int overlap = 0, undecided = 0;
    for (size_t i = 0; i < O.size(); i++) {
        Lin l(O[i]);
        bool ok = l.go(0, O[i].init);
        if (!l.budget) undecided++;
        for (auto *a : l.v)
            for (auto *b : l.v)
                if (a < b && a->pe != b->pe && a->inv < b->resp && b->inv < a->resp) overlap++;
        if (!ok) {
            string s;
            vector<const Op *> v = l.v;
            std::sort(v.begin(), v.end(), [](const Op *a, const Op *b) { return a->inv < b->inv; });
            for (auto *p : v) s += fmt("\n  [%llu,%lld] %s%s", (unsigned long long)p->inv, (long long)p->resp, op_str(*p).c_str(), fetching(p->a) ? fmt(" -> %llx", (unsigned long long)p->res).c_str() : "");
            fail("no sequential order explains the atomics on object %zu (%s, initially %llx, finally %llx):%s", i, tk_name[O[i].kind], (unsigned long long)O[i].init, (unsigned long long)O[i].fin, s.c_str());
        }
    }
    count(0, ops.size());
    count(1, overlap);
    count(2, nmix);
    count(3, nb_ops);
    count(4, undecided);
    if (overlap >= 1) nontrivial();
}
RegProp r09("C09", c09, "Random concurrent atomics of every kind and form on shared objects; the recorded invocations, responses, fetched and final values of each object must have a legal sequential order (exhaustive search per object); non-trivial: at least two atomics of different PEs overlap in time.",
            {"atomics", "overlapping pairs", "objects with mixed kinds from several PEs", "non-blocking atomics", "objects left undecided by the search budget"});
} // namespace
