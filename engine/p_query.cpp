// C23: queries about PEs and addresses.
#include "drf.hpp"
#include <algorithm>
#include <memory>
using std::string;
using std::vector;
namespace {
enum Ev { Q_CONST, Q_PE, Q_ADDR, Q_PTR, A_MALLOC, A_FREE, S_CREATE, S_ATTACH, S_ALLOC, S_FREE, S_DETACH, S_DESTROY, TRAFFIC, BAR };
const char *EN[] = {"queries of constants", "shmem_pe_accessible", "shmem_addr_accessible", "shmem_ptr", "malloc", "free", "space_create", "space_attach", "space_malloc", "space_free", "space_detach", "space_destroy", "put", "barrier"};
enum { AD_HEAP, AD_SDATA, AD_SBSS, AD_SPACE, AD_MALLOC, AD_STACK, AD_NULL, AD_CODE, AD_FOREIGN, AD_ODD, AD_BEYOND, AD_IMAGE, AD_EDGE };
const char *AN[] = {"heap", "static data", "static bss", "space block", "private malloc", "stack", "NULL", "function", "another PE's copy", "odd value", "far beyond the heap", "library static", "edge of symmetric memory"};
struct Cfg {
    size_t sheap_size;
    int num_contexts, memkind;
    void *memkind_info;
    long hints;
};
struct Event {
    int ev, pe, arg, kind, off, id;
    size_t n;
};
struct Blk {
    char *addr[MAXPE];
    size_t n;
    int space; // -1 heap
    bool live[MAXPE];
};
int np, n_q, n_true, n_false, n_space, n_ptr;
vector<Event> evs;
std::deque<Blk> blocks; // elements stay where they are
struct Sp {
    void *h[MAXPE];
    int st[MAXPE]; // 1 created 2 attached 3 gone
};
std::deque<Sp> spaces;
int pe_arg(int sel) {
    static const int odd[] = {-1, -2, INT32_MIN, INT32_MAX, 1000, 65536, -65536};
    if (sel < np) return sel;
    sel -= np;
    if (sel < 3) return np + sel;
    return odd[(sel - 3) % 7];
}
void check_addr(int me, const Event &e) {
    int q = pe_arg(e.arg);
    bool okpe = q >= 0 && q < np;
    const void *a = nullptr;
    int want = -1; // -1: not specified
    char stack[16];
    static std::unique_ptr<char[]> priv[MAXPE];
    if (!priv[me]) priv[me].reset(new char[4096]);
    string what = AN[e.kind];
    const Blk *b = nullptr;
    switch (e.kind) {
    case AD_HEAP:
    case AD_SPACE: {
        vector<int> c;
        for (int i = 0; i < (int)blocks.size(); i++)
            if (blocks[i].live[me] && (blocks[i].space < 0) == (e.kind == AD_HEAP)) c.push_back(i);
        if (c.empty()) return;
        b = &blocks[c[e.id % c.size()]];
        size_t o = e.off % 3 == 0 ? 0 : e.off % 3 == 1 ? b->n - 1 : e.off % b->n;
        a = b->addr[me] + o;
        want = b->space < 0 || spaces[b->space].st[me] == 2;
        if (b->space >= 0) {
            what = fmt("block of a space that is %s", want ? "attached" : "not attached");
            n_space++;
        }
        break;
    }
    case AD_SDATA: a = (char *)pe_sym(me, "oshv_sdata") + e.off % 16384; want = 1; break;
    case AD_SBSS: a = (char *)pe_sym(me, "oshv_sbss") + e.off % 16384; want = 1; break;
    case AD_MALLOC: a = priv[me].get() + e.off % 4096; want = 0; break;
    case AD_STACK: a = stack + e.off % 16; want = 0; break;
    case AD_NULL: a = nullptr; want = 0; break;
    case AD_CODE: a = pe_sym(me, "shmem_my_pe"); want = 0; break;
    case AD_FOREIGN: {
        if (np < 2) return;
        int o = (me + 1 + e.off % (np - 1)) % np;
        if (e.id % 2 && !blocks.empty() && blocks[0].live[o]) a = blocks[0].addr[o];
        else a = (char *)pe_sym(o, "oshv_sdata") + e.off % 16384;
        want = 0;
        break;
    }
    case AD_ODD: a = (const void *)(uintptr_t)(e.off % 2 ? ~(uintptr_t)0 - e.id : (uintptr_t)1 + e.id); want = 0; break;
    case AD_BEYOND:
        if (blocks.empty() || !blocks[0].live[me] || blocks[0].space >= 0) return;
        a = blocks[0].addr[me] + (e.off % 2 ? (ptrdiff_t)(1 << 20) + e.id * 4096 : -(ptrdiff_t)(1 << 20) - e.id * 4096);
        for (auto &x : blocks)
            if (x.live[me] && (char *)a >= x.addr[me] && (char *)a < x.addr[me] + x.n) return;
        if (spaces.size()) return; // could be a space
        want = 0;
        break;
    case AD_EDGE: { // just outside what the PE exposes to the others
        auto x = sim_exposed(me);
        if (x.empty()) return;
        auto &w = x[e.id % x.size()];
        static const int d[] = {0, 0, 1, 3, 7, 8, 64};
        a = e.off % 4 == 0 ? w.first - 1 - d[(e.off >> 2) % 7] : w.first + w.second + d[(e.off >> 2) % 7];
        for (auto &y : x)
            if ((char *)a >= y.first && (char *)a < y.first + y.second) return;
        want = 0;
        break;
    }
    case AD_IMAGE: a = pe_sym(me, "OSHMPI_global"); want = -1; break;
    }
    if (e.ev == Q_ADDR) {
        int r = call<int>("shmem_addr_accessible", a, q);
        n_q++;
        if (want < 0) return;
        int w = want && okpe;
        if ((r != 0) != (w != 0)) fail("PE %d: shmem_addr_accessible(%s, %d) of %d PEs returned %d", me, what.c_str(), q, np, r);
        if (r != 0 && r != 1) fail("PE %d: shmem_addr_accessible returned %d", me, r);
        w ? n_true++ : n_false++;
    } else {
        void *r = call<void *>("shmem_ptr", a, q);
        n_ptr++;
        if (!okpe && r) fail("PE %d: shmem_ptr(%s, %d) of %d PEs returned %p", me, what.c_str(), q, np, r);
        if (q == me && want == 1 && r != a) fail("PE %d: shmem_ptr(%s, own PE) returned %p for %p", me, what.c_str(), r, a);
        if (q != me && okpe && r) {
            if (want == 0) fail("PE %d: shmem_ptr(%s, %d) returned %p", me, what.c_str(), q, r);
            // must alias the target's copy
            const void *t = nullptr;
            if (b) t = b->addr[q] + ((const char *)a - b->addr[me]);
            else if (e.kind == AD_SDATA) t = (char *)pe_sym(q, "oshv_sdata") + e.off % 16384;
            else if (e.kind == AD_SBSS) t = (char *)pe_sym(q, "oshv_sbss") + e.off % 16384;
            if (t && r != t) fail("PE %d: shmem_ptr(%s, %d) returned an address that is not the object of PE %d", me, what.c_str(), q, q);
        }
    }
}
void free_all(int me, size_t nb, int space) { // a space is destroyed only without live blocks
    for (size_t k = 0; k < nb; k++)
        if (blocks[k].live[me] && blocks[k].space == space) {
            call("shmem_free", (void *)blocks[k].addr[me]);
            blocks[k].live[me] = false;
        }
}
void c23() {
    np = chance(5) ? 7 + draw(4) : 1 + pickw({2, 3, 3, 2, 1, 1});
    SimParams sp = draw_sim(np);
    desc("%s", sim_str(sp).c_str());
    draw_env_modes(25, false, true);
    setenv("SHMEM_SYMMETRIC_SIZE", "65536", 1);
    int nev = 1 + draw(chance(20) ? 60 : 20);
    for (int i = 0; i < nev; i++) {
        Event e;
        e.ev = pickw({2, 4, 10, 5, 4, 2, 3, 4, 4, 1, 2, 2, 2, 1});
        e.pe = draw(np);
        e.arg = draw(np + 10);
        if (chance(60)) e.arg = draw(np);
        e.kind = draw(13);
        e.off = draw(1 << 20);
        e.id = draw(64);
        e.n = 1 + draw(chance(20) ? 9000 : 300);
        desc("%s%s%s", EN[e.ev], e.ev == Q_ADDR || e.ev == Q_PTR ? fmt("(%s+%d #%d, %d)", AN[e.kind], e.off, e.id, pe_arg(e.arg)).c_str() : "", e.ev == Q_PE ? fmt("(%d)", pe_arg(e.arg)).c_str() : e.ev <= Q_PTR ? fmt(" on PE %d", e.pe).c_str() : "");
        evs.push_back(e);
    }
    run_case(sp, [&](int me) {
        call("shmem_init");
        size_t nb = 0, ns = 0;
        for (auto &e : evs) {
            bool mine = e.pe == me || e.id % 2;
            switch (e.ev) {
            case Q_CONST: {
                if (!mine) break;
                n_q++;
                if (call<int>("shmem_my_pe") != me) fail("PE %d: shmem_my_pe gives %d", me, call<int>("shmem_my_pe"));
                if (call<int>("shmem_n_pes") != np) fail("PE %d: shmem_n_pes gives %d of %d", me, call<int>("shmem_n_pes"), np);
                if (call<int>("_my_pe") != me || call<int>("_num_pes") != np) fail("PE %d: _my_pe or _num_pes differs", me);
                int a = -1, b = -1;
                call("shmem_info_get_version", &a, &b);
                int ca = call<int>("oshv_const", 0), cb = call<int>("oshv_const", 1), len = call<int>("oshv_const", 2);
                if (a != ca || b != cb || a != 1 || b != 4) fail("shmem_info_get_version gives %d.%d, the constants are %d.%d", a, b, ca, cb);
                if (call<int>("oshv_const", 4) != ca || call<int>("oshv_const", 5) != cb || call<int>("oshv_const", 6) != len) fail("the deprecated constants differ");
                vector<char> buf(len + 8, 0x5a);
                call("shmem_info_get_name", buf.data());
                if (strnlen(buf.data(), len) >= (size_t)len) fail("shmem_info_get_name gives a name without end");
                for (int i = len; i < len + 8; i++)
                    if (buf[i] != 0x5a) fail("shmem_info_get_name writes beyond SHMEM_MAX_NAME_LEN");
                if (strcmp(buf.data(), call<const char *>("oshv_vendor")) || !*buf.data()) fail("shmem_info_get_name gives \"%s\", SHMEM_VENDOR_STRING is \"%s\"", buf.data(), call<const char *>("oshv_vendor"));
                if (strcmp(call<const char *>("oshv_vendor_old"), call<const char *>("oshv_vendor"))) fail("_SHMEM_VENDOR_STRING differs");
                break;
            }
            case Q_PE: {
                if (!mine) break;
                int q = pe_arg(e.arg);
                int r = call<int>("shmem_pe_accessible", q);
                n_q++;
                bool w = q >= 0 && q < np;
                w ? n_true++ : n_false++;
                if (r != (w ? 1 : 0)) fail("PE %d: shmem_pe_accessible(%d) of %d PEs returned %d", me, q, np, r);
                break;
            }
            case Q_ADDR:
            case Q_PTR:
                if (mine) check_addr(me, e);
                break;
            case A_MALLOC:
            case S_ALLOC: {
                int s = -1;
                if (e.ev == S_ALLOC) {
                    for (size_t k = 0; k < ns; k++)
                        if (spaces[k].st[me] == 2) s = (int)k;
                    if (s < 0) break;
                }
                char *a = e.ev == A_MALLOC ? call<char *>("shmem_malloc", e.n) : call<char *>("shmemx_space_malloc", spaces[s].h[me], e.n);
                if (!a) break;
                if (blocks.size() <= nb) blocks.push_back(Blk{});
                Blk &b = blocks[nb++];
                b.addr[me] = a;
                b.n = e.n;
                b.space = s;
                b.live[me] = true;
                break;
            }
            case A_FREE:
            case S_FREE: {
                for (size_t k = 0; k < nb; k++)
                    if (blocks[k].live[me] && (blocks[k].space < 0) == (e.ev == A_FREE) && (blocks[k].space < 0 || spaces[blocks[k].space].st[me] == 2)) {
                        call("shmem_free", (void *)blocks[k].addr[me]);
                        blocks[k].live[me] = false;
                        break;
                    }
                break;
            }
            case S_CREATE: {
                if (ns >= 4) break;
                if (spaces.size() <= ns) spaces.push_back(Sp{});
                Cfg cf = {16384, 0, 0, nullptr, 0};
                void *hs = nullptr;
                call("shmemx_space_create", cf, &hs);
                spaces[ns].h[me] = hs;
                spaces[ns].st[me] = 1;
                ns++;
                break;
            }
            case S_ATTACH:
                for (size_t k = 0; k < ns; k++)
                    if (spaces[k].st[me] == 1) {
                        call("shmemx_space_attach", spaces[k].h[me]);
                        spaces[k].st[me] = 2;
                        break;
                    }
                break;
            case S_DETACH:
            case S_DESTROY:
                if (e.ev == S_DESTROY)
                    for (size_t k = 0; k < ns; k++)
                        if (spaces[k].st[me] == 1) { free_all(me, nb, (int)k); break; }
                for (size_t k = 0; k < ns; k++)
                    if (spaces[k].st[me] == (e.ev == S_DETACH ? 2 : 1)) {
                        if (e.ev == S_DETACH) {
                            call("shmemx_space_detach", spaces[k].h[me]);
                            spaces[k].st[me] = 1;
                        } else {
                            call("shmemx_space_destroy", spaces[k].h[me]);
                            spaces[k].st[me] = 3;
                            for (size_t j = 0; j < nb; j++)
                                if (blocks[j].space == (int)k) blocks[j].live[me] = false;
                        }
                        break;
                    }
                break;
            case TRAFFIC: {
                int v = 5;
                call("shmem_putmem", pe_sym(me, "oshv_sbss"), (const void *)&v, (size_t)0, e.pe);
                break;
            }
            case BAR: call("shmem_barrier_all"); break;
            }
            sim_progress_mark();
        }
        call("shmem_barrier_all");
        for (size_t k = 0; k < ns; k++) {
            if (spaces[k].st[me] == 2) call("shmemx_space_detach", spaces[k].h[me]);
            if (spaces[k].st[me] <= 2) free_all(me, nb, (int)k), call("shmemx_space_destroy", spaces[k].h[me]);
        }
        call("shmem_finalize");
    });
    count(0, n_q);
    count(1, n_true);
    count(2, n_false);
    count(3, n_ptr);
    count(4, n_space);
    if (n_true && n_false) nontrivial();
}
RegProp r23("C23", c23, "Random sequences of queries with PE numbers inside and outside the program and addresses of every origin, mixed with allocation and the life of memory spaces; non-trivial: at least one query that must be true and one that must be false.",
            {"queries", "queries that must be true", "queries that must be false", "shmem_ptr calls", "queries about space blocks"});
} // namespace
