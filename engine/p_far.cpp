// C02 (driver C02B), C13 (C13B) and C15 (C15B): strides that need more than 32 bits, in elements or in bytes, over a sparse block of many GB.
#include "drf.hpp"
#include <map>
#include <set>
using std::string;
using std::vector;
namespace {
typedef unsigned char Byte;
int np;
size_t B; // size of the block
char *blk[MAXPE];
std::map<size_t, Byte> M[MAXPE]; // bytes ever written or looked at; everything else is 0
struct FOp {
    int pe, q;
    bool put, ctx, symlocal;
    int kind; // sized 8..64, typed
    string fn;
    size_t es, off, loff, n;
    ptrdiff_t fs, ls; // far stride (remote), local stride
    vector<Byte> data;
};
ptrdiff_t far_stride(size_t es, size_t n) {
    size_t lim = n > 1 ? (B - 8192) / (n - 1) / es : (size_t)1 << 40; // with one element the stride is not used
    size_t st = pick<size_t>({1ull << 31, 1ull << 32, 1ull << 30, 1ull << 29, 3ull << 30, (1ull << 32) + 4, (1ull << 31) - 1, 1ull << 33}) + draw(3);
    if (chance(15)) st = (1ull << (7 + draw(22))) - 2 + draw(5);
    if (st > lim) st = lim - draw(4096);
    return (ptrdiff_t)st;
}
void case_far(int coll, bool modes = false) { // 1: active sets, 2: teams
    np = 2 + pickw({3, 2});
    SimParams sp = draw_sim(np);
    desc("%s", sim_str(sp).c_str());
    draw_env_modes(modes ? 90 : 30, modes, true);
    B = pick<size_t>({5ull << 30, 9ull << 30, (9ull << 30) + 4096, 17ull << 30}) + 16384;
    sim_big_memory(true);
    setenv("SHMEM_SYMMETRIC_SIZE", std::to_string(B + 65536).c_str(), 1);
    desc("block of %zu bytes", B);
    static const char *types[] = {"char", "short", "int", "long", "float", "double", "uint16", "int64"};
    static const size_t tsz[] = {1, 2, 4, 8, 4, 8, 2, 8};
    int nr = 1 + draw(3);
    vector<vector<FOp>> rounds(nr);
    auto fits = [&](std::set<size_t> &taken, size_t off, size_t es, size_t n, ptrdiff_t st) {
        vector<size_t> v;
        for (size_t i = 0; i < n; i++)
            for (size_t b = 0; b < es; b++) v.push_back(off + i * (size_t)st * es + b);
        for (size_t x : v)
            if (x >= B || taken.count(x)) return false;
        taken.insert(v.begin(), v.end());
        return true;
    };
    struct CRound { int kind; size_t es, n, soff, doff; ptrdiff_t ss, ds; string fn; };
    vector<CRound> cr;
    if (!coll)
        for (int r = 0; r < nr; r++) {
            std::set<size_t> taken[MAXPE];
            int no = 1 + draw(4);
            for (int k = 0; k < no; k++) {
                FOp o;
                o.pe = draw(np);
                o.q = draw(np);
                o.put = chance(60);
                o.ctx = chance(30);
                o.symlocal = chance(40);
                o.kind = draw(2);
                string base = o.ctx ? "shmem_ctx_" : "shmem_";
                if (o.kind == 0) {
                    o.es = 1u << draw(4);
                    o.fn = base + (o.put ? "iput" : "iget") + std::to_string(o.es * 8);
                } else {
                    int t = draw(8);
                    o.es = tsz[t];
                    o.fn = base + types[t] + (o.put ? "_iput" : "_iget");
                }
                o.n = 1 + draw(4);
                o.fs = far_stride(o.es, o.n);
                o.ls = o.symlocal ? far_stride(o.es, o.n) : 1 + draw(4);
                if (chance(3)) { // many elements instead
                    o.n = 65530 + draw(12);
                    o.fs = 1 + draw(3);
                    o.ls = 1 + draw(3);
                }
                o.off = 8 * draw(512);
                o.loff = 8 * draw(512);
                o.data.resize(o.n * o.es);
                if (o.n > 10) {
                    uint32_t x = draw(1 << 30);
                    for (auto &b : o.data) x = x * 1664525 + 1013904223, b = 1 + (x >> 8) % 255;
                } else
                    for (auto &b : o.data) b = 1 + draw(255);
                if (!fits(taken[o.q], o.off, o.es, o.n, o.fs)) continue;
                if (o.symlocal && !fits(taken[o.pe], o.loff, o.es, o.n, o.ls)) continue;
                desc("round %d: PE %d: %s(%s block+%zu of PE %d, stride %td, n %zu, own %s stride %td)", r, o.pe, o.fn.c_str(), o.put ? "to" : "from", o.off, o.q, o.fs, o.n,
                     o.symlocal ? fmt("block+%zu", o.loff).c_str() : "private buffer", o.ls);
                rounds[r].push_back(o);
            }
        }
    else
        for (int r = 0; r < nr; r++) {
            CRound c;
            c.kind = coll == 2;
            if (c.kind == 0) {
                c.es = pick<size_t>({4, 8});
                c.fn = "shmem_alltoalls" + std::to_string(c.es * 8);
            } else {
                int t = draw(8);
                c.es = tsz[t];
                c.fn = string("shmem_") + types[t] + "_alltoalls";
            }
            c.n = 1 + draw(3);
            size_t tot = c.n * np;
            int which = draw(3); // which side is far
            c.ss = which != 1 ? far_stride(c.es, tot) : 1 + draw(4);
            c.ds = which != 0 ? far_stride(c.es, tot) : 1 + draw(4);
            c.soff = 8 * draw(256);
            c.doff = 2048 + 8 * draw(256);
            std::set<size_t> t;
            if (!fits(t, c.soff, c.es, tot, c.ss) || !fits(t, c.doff, c.es, tot, c.ds)) continue;
            desc("round %d: %s(block+%zu, stride %td, from block+%zu, stride %td, n %zu)", r, c.fn.c_str(), c.doff, c.ds, c.soff, c.ss, c.n);
            cr.push_back(c);
        }
    // where a truncated stride would land instead
    auto look = [&](int q, size_t off, size_t es, size_t n, ptrdiff_t st) {
        for (size_t i = 0; i < n; i++)
            for (ptrdiff_t s : {(ptrdiff_t)(int)st * (ptrdiff_t)es, (ptrdiff_t)(unsigned)st * (ptrdiff_t)es, (ptrdiff_t)(int)(st * es), (ptrdiff_t)(unsigned)(st * es)}) {
                size_t x = off + i * s;
                for (size_t b = 0; b < es; b++)
                    if (x + b < B) M[q].insert({x + b, 0});
            }
    };
    // model and expectations per round
    vector<vector<vector<Byte>>> exp(nr);
    vector<vector<std::map<size_t, Byte>>> after; // after each round, each PE
    vector<vector<std::map<size_t, Byte>>> pre;
    size_t R = coll ? cr.size() : rounds.size();
    for (auto &rd : rounds)
        for (auto &o : rd) look(o.q, o.off, o.es, o.n, o.fs);
    for (auto &c : cr)
        for (int p = 0; p < np; p++) {
            look(p, c.doff, c.es, c.n * np, c.ds);
            look(p, c.soff, c.es, c.n * np, c.ss);
        }
    auto at = [&](int p, size_t x) -> Byte & { return M[p][x]; };
    for (size_t r = 0; r < R; r++) {
        pre.push_back({});
        if (coll) {
            auto &c = cr[r];
            for (int p = 0; p < np; p++) { // each PE stores its source first
                std::map<size_t, Byte> s;
                for (size_t i = 0; i < c.n * np; i++)
                    for (size_t b = 0; b < c.es; b++) {
                        Byte v = (Byte)(1 + (p * 53 + i * 17 + b * 7 + r * 29) % 255);
                        s[c.soff + i * c.ss * c.es + b] = v;
                        at(p, c.soff + i * c.ss * c.es + b) = v;
                    }
                pre[r].push_back(s);
            }
            auto old = vector<std::map<size_t, Byte>>(M, M + np);
            for (int p = 0; p < np; p++)
                for (int j = 0; j < np; j++)
                    for (size_t i = 0; i < c.n; i++)
                        for (size_t b = 0; b < c.es; b++)
                            at(p, c.doff + (j * c.n + i) * c.ds * c.es + b) = old[j][c.soff + (p * c.n + i) * c.ss * c.es + b];
        } else {
            pre[r].resize(np);
            for (auto &o : rounds[r]) {
                for (size_t i = 0; i < o.n; i++)
                    for (size_t b = 0; b < o.es; b++) {
                        size_t x = o.off + i * o.fs * o.es + b, y = o.loff + i * o.ls * o.es + b;
                        if (o.symlocal) { // fill the source, wherever it is
                            size_t s = o.put ? y : x;
                            int sq = o.put ? o.pe : o.q;
                            pre[r][sq][s] = o.data[i * o.es + b];
                            at(sq, s) = o.data[i * o.es + b];
                            at(o.put ? o.q : o.pe, o.put ? x : y) = o.data[i * o.es + b];
                        } else if (o.put) at(o.q, x) = o.data[i * o.es + b];
                        else {
                            pre[r][o.q][x] = o.data[i * o.es + b];
                            at(o.q, x) = o.data[i * o.es + b];
                        }
                    }
            }
        }
        after.push_back(vector<std::map<size_t, Byte>>(M, M + np));
    }
    size_t nops = 0;
    for (auto &rd : rounds) nops += rd.size();
    run_case(sp, [&](int me) {
        call("shmem_init");
        long *ps = (long *)pe_sym(me, "oshv_sdata");
        for (int i = 0; i < 1024; i++) ps[i] = 0;
        blk[me] = call<char *>("shmem_malloc", B);
        if (!blk[me]) fail("PE %d: shmem_malloc(%zu) failed", me, B);
        for (auto &kv : M[me]) blk[me][kv.first] = 0;
        for (size_t r = 0; r < R; r++) {
            for (auto &kv : pre[r][me]) blk[me][kv.first] = kv.second;
            call("shmem_barrier_all");
            if (coll) {
                auto &c = cr[r];
                void *d = blk[me] + c.doff;
                const void *s = blk[me] + c.soff;
                if (c.kind == 0) call(c.fn.c_str(), d, s, c.ds, c.ss, c.n, 0, 0, np, ps + 1 + r * 300);
                else call<int>(c.fn.c_str(), O_TEAM_WORLD, d, s, c.ds, c.ss, c.n);
            } else
                for (auto &o : rounds[r]) {
                    if (o.pe != me) continue;
                    vector<Byte> priv((o.n - 1) * (o.symlocal ? 0 : o.ls) * o.es + o.es, 0xC3), want = priv;
                    char *l = o.symlocal ? blk[me] + o.loff : (char *)priv.data();
                    if (!o.symlocal)
                        for (size_t i = 0; i < o.n; i++) memcpy((o.put ? priv : want).data() + i * o.ls * o.es, &o.data[i * o.es], o.es);
                    if (o.put) want = priv;
                    void *d = o.put ? blk[me] + o.off : l;
                    const void *s = o.put ? l : blk[me] + o.off;
                    ptrdiff_t ds = o.put ? o.fs : o.ls, ss = o.put ? o.ls : o.fs;
                    if (o.ctx) call(o.fn.c_str(), O_CTX_DEFAULT, d, s, ds, ss, o.n, o.q);
                    else call(o.fn.c_str(), d, s, ds, ss, o.n, o.q);
                    if (!o.symlocal && priv != want) fail("PE %d: %s: its private buffer is not as expected", me, o.fn.c_str());
                }
            call("shmem_barrier_all");
            for (auto &kv : after[r][me])
                if ((Byte)blk[me][kv.first] != kv.second)
                    fail("PE %d: after round %zu byte %zu of its block is %02x, expected %02x", me, r, kv.first, (Byte)blk[me][kv.first], kv.second);
        }
        call("shmem_barrier_all");
        call("shmem_free", (void *)blk[me]);
        call("shmem_finalize");
    });
    count(0, coll ? cr.size() * np : nops);
    if (coll ? !cr.empty() : nops > 0) nontrivial();
}
void c02b() { case_far(0); }
void c10b() { case_far(0, true); }
void c13b() { case_far(1); }
void c15b() { case_far(2); }
RegProp r1("C02B", c02b, "Strided transfers whose strides exceed 31 or 32 bits over a sparse block of many GB; non-trivial: at least one transfer.", {"operations"});
RegProp r10("C10B", c10b, "Strided transfers whose strides exceed 31 or 32 bits, under random run-time options; non-trivial: at least one transfer.", {"operations"});
RegProp r2("C13B", c13b, "Strided all-to-alls whose strides exceed 31 or 32 bits over a sparse block of many GB; non-trivial: at least one collective.", {"operations"});
RegProp r3("C15B", c15b, "Strided team all-to-alls whose strides exceed 31 or 32 bits over a sparse block of many GB; non-trivial: at least one collective.", {"operations"});
} // namespace
