// C18 (driver C18B) and C19 (driver C19B): blocks and arenas of many GB, sparsely used.
#include "drf.hpp"
#include <algorithm>
#include <map>
using std::string;
using std::vector;
namespace {
struct Cfg { size_t sheap_size; int num_contexts, memkind; void *dev; long hints; };
enum Ev { ALLOC, FREE, REALLOC, REMOTE, BAD };
struct Event { int ev, how = 0, a = 0, shift = 0, b = 0; size_t n = 0, count = 1, al = 0; };
struct Block {
    size_t n = 0;
    char *addr[MAXPE] = {};
    std::map<size_t, uint64_t> stamp[MAXPE];
};
struct Log { bool set = false, null = false; int block = -1; };
int np;
size_t cap, hsize;
bool spc;
void *sp_h[MAXPE], *sp_ctx[MAXPE];
vector<Event> evs;
vector<Log> logs;
vector<Block> blocks;
vector<int> live[MAXPE];
enum { N_ALLOC, N_NULL, N_HUGE, N_REMOTE, N_REALLOC };
vector<size_t> spots(size_t n) { // where a block is looked at
    vector<size_t> v;
    auto add = [&](size_t o) { if (n >= 8 && o <= n - 8) v.push_back(o); };
    add(0);
    for (size_t e : {1ull << 31, 1ull << 32, 3ull << 31, 1ull << 33, 1ull << 34}) { add(e - 8); add(e); }
    add(n / 2 & ~(size_t)7);
    add(n - 8);
    std::sort(v.begin(), v.end());
    vector<size_t> r;
    for (size_t o : v)
        if (r.empty() || o >= r.back() + 8) r.push_back(o);
    return r;
}
uint64_t value(int id, int pe, size_t o, int salt) {
    uint64_t z = (uint64_t)(id + 1) * 0x9E3779B97F4A7C15ull + pe * 1315423911ull + o * 2654435761ull + salt;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    return z ^ (z >> 27) ^ 1;
}
void stamp(int me, int id) {
    Block &b = blocks[id];
    b.stamp[me].clear();
    for (size_t o : spots(b.n)) {
        uint64_t v = value(id, me, o, (int)b.n);
        memcpy(b.addr[me] + o, &v, 8);
        b.stamp[me][o] = v;
    }
}
void verify(int me, int id, size_t upto, const char *when) {
    Block &b = blocks[id];
    for (auto &kv : b.stamp[me]) {
        if (kv.first + 8 > upto) break;
        uint64_t v;
        memcpy(&v, b.addr[me] + kv.first, 8);
        if (v != kv.second) fail("PE %d: the 8 bytes at %zu of block %d (%zu bytes) are %016llx %s, expected %016llx", me, kv.first, id, b.n, (unsigned long long)v, when, (unsigned long long)kv.second);
    }
}
size_t span(int me, size_t extra_lo, size_t extra_hi, char **lo, char **hi) {
    (void)extra_lo; (void)extra_hi;
    *lo = *hi = nullptr;
    for (int id : live[me]) {
        char *a = blocks[id].addr[me];
        if (!*lo || a < *lo) *lo = a;
        if (!*hi || a + blocks[id].n > *hi) *hi = a + blocks[id].n;
    }
    return *hi - *lo;
}
bool must_fit(int me, size_t n, size_t al) {
    if (al > 4096 || n > cap) return false;
    size_t slack = spc ? 0 : 4096; // bookkeeping of the heap
    char *lo, *hi;
    size_t s = span(me, 0, 0, &lo, &hi);
    size_t need = (spc ? (n + 4095) / 4096 * 4096 : n) + (al > 16 ? 2 * al : 0);
    if (!lo) return need + (al ? slack : 0) <= cap;
    size_t outside = cap > s + 8192 ? cap - s - 8192 : 0; // before and behind the live blocks
    vector<std::pair<char *, char *>> v;
    for (int id : live[me]) v.push_back({blocks[id].addr[me], blocks[id].addr[me] + blocks[id].n});
    std::sort(v.begin(), v.end());
    size_t gap = 0;
    for (size_t i = 1; i < v.size(); i++) gap = std::max<size_t>(gap, v[i].first - v[i - 1].second);
    gap = std::max(gap, outside / 2);
    return need + slack + 8192 <= gap;
}
string name_of(const Event &e) {
    if (e.ev == REALLOC) return fmt("shmem_realloc(live block #%d, %zu)", e.a, e.n);
    if (spc) return e.how == 1 ? fmt("shmemx_space_calloc(%zu, %zu)", e.count, e.n) : e.how == 2 ? fmt("shmemx_space_align(%zu, %zu)", e.al, e.n) : fmt("shmemx_space_malloc(%zu)", e.n);
    return e.how == 1 ? fmt("shmem_calloc(%zu, %zu)", e.count, e.n) : e.how == 2 ? fmt("shmem_align(%zu, %zu)", e.al, e.n) : e.how == 3 ? fmt("shmem_malloc_with_hints(%zu, %d)", e.n, e.b) : fmt("shmem_malloc(%zu)", e.n);
}
void *do_call(int me, const Event &e) {
    if (spc) return e.how == 1 ? call<void *>("shmemx_space_calloc", sp_h[me], e.count, e.n) : e.how == 2 ? call<void *>("shmemx_space_align", sp_h[me], e.al, e.n) : call<void *>("shmemx_space_malloc", sp_h[me], e.n);
    return e.how == 1 ? call<void *>("shmem_calloc", e.count, e.n) : e.how == 2 ? call<void *>("shmem_align", e.al, e.n) : e.how == 3 ? call<void *>("shmem_malloc_with_hints", e.n, (long)e.b) : call<void *>("shmem_malloc", e.n);
}
// checks an address given on this PE against the live blocks of this and the earlier PEs
void place(int me, int id, const string &what, size_t al) {
    Block &b = blocks[id];
    char *c = b.addr[me];
    al = std::max<size_t>(al, 16);
    if ((uintptr_t)c % al) fail("%s returned %p on PE %d, not a multiple of %zu", what.c_str(), c, me, al);
    char *lo = c, *hi = c + b.n;
    for (int o : live[me]) {
        if (o == id) continue;
        Block &x = blocks[o];
        if (c < x.addr[me] + x.n && x.addr[me] < c + b.n) fail("%s: the block of PE %d overlaps live block %d (%zu bytes): %td bytes apart", what.c_str(), me, o, x.n, c - x.addr[me]);
        lo = std::min(lo, x.addr[me]);
        hi = std::max(hi, x.addr[me] + x.n);
        for (int q = 0; q < np; q++)
            if (q != me && b.addr[q] && x.addr[q] && b.addr[q] - x.addr[q] != c - x.addr[me])
                fail("%s: the block lies %td bytes from block %d on PE %d, %td on PE %d", what.c_str(), c - x.addr[me], o, me, b.addr[q] - x.addr[q], q);
    }
    if ((size_t)(hi - lo) > cap + (spc ? 0 : 8192)) fail("%s: live blocks span %zu bytes of %zu on PE %d", what.c_str(), (size_t)(hi - lo), cap, me);
}
void run(int me, const Event &e, int k) {
    auto &V = live[me];
    switch (e.ev) {
    case ALLOC: case BAD: {
        unsigned __int128 tot = (unsigned __int128)e.n * e.count;
        bool fits = e.ev == ALLOC && must_fit(me, e.n * e.count, e.al);
        string what = name_of(e);
        void *p = do_call(me, e);
        if (p && tot > cap + (spc ? 0 : 8192)) fail("%s returned a block on PE %d although the memory has %zu bytes", what.c_str(), me, cap);
        Log &L = logs[k];
        if (!L.set) {
            L.set = true;
            L.null = !p;
            if (!p) {
                count(N_NULL);
                if (fits) fail("%s returned NULL on PE %d although the free memory is sufficient", what.c_str(), me);
            } else {
                count(N_ALLOC);
                if (e.n > 1u << 31) count(N_HUGE);
                L.block = (int)blocks.size();
                blocks.push_back(Block());
                blocks.back().n = (size_t)tot;
            }
        }
        if (L.null != !p) fail("%s returned %s on PE %d but not on an earlier PE", what.c_str(), p ? "a block" : "NULL", me);
        if (!p) break;
        blocks[L.block].addr[me] = (char *)p;
        place(me, L.block, what, e.al);
        if (e.how == 1)
            for (size_t o : spots(blocks[L.block].n)) {
                uint64_t v;
                memcpy(&v, (char *)p + o, 8);
                if (v) fail("%s: PE %d finds %016llx at %zu", what.c_str(), me, (unsigned long long)v, o);
            }
        V.push_back(L.block);
        stamp(me, L.block);
        break;
    }
    case FREE:
        if (V.empty()) break;
        verify(me, V[e.a % V.size()], (size_t)-1, "before it is freed");
        call("shmem_free", (void *)blocks[V[e.a % V.size()]].addr[me]);
        V.erase(V.begin() + e.a % V.size());
        break;
    case REALLOC: {
        if (V.empty()) break;
        int id = V[e.a % V.size()];
        size_t old = blocks[id].n, n = e.n;
        if (n > old && old > 1 << 16) n = old - old / (2 + e.b % 5); // moving a large block would fill memory: those only shrink
        if (!n) n = 1;
        string what = fmt("shmem_realloc(block %d of %zu bytes, %zu)", id, old, n);
        void *p = call<void *>("shmem_realloc", (void *)blocks[id].addr[me], n);
        Log &L = logs[k];
        if (!L.set) {
            L.set = true;
            L.null = !p;
            if (p) count(N_REALLOC);
            L.block = (int)blocks.size();
            blocks.push_back(Block());
            blocks.back().n = n;
        }
        if (L.null != !p) fail("%s returned %s on PE %d but not on an earlier PE", what.c_str(), p ? "a block" : "NULL", me);
        if (!p) {
            if (n <= old) fail("%s returned NULL on PE %d", what.c_str(), me);
            verify(me, id, (size_t)-1, "after shmem_realloc failed");
            break;
        }
        if (n > cap + 8192) fail("%s returned a block on PE %d although the heap has %zu bytes", what.c_str(), me, cap);
        V.erase(V.begin() + e.a % V.size());
        Block &nb = blocks[L.block];
        nb.addr[me] = (char *)p;
        place(me, L.block, what, 0);
        nb.stamp[me] = blocks[id].stamp[me];
        verify(me, L.block, std::min(n, old), "after shmem_realloc");
        V.push_back(L.block);
        stamp(me, L.block);
        break;
    }
    case REMOTE: {
        if (V.empty()) break;
        int id = V[e.a % V.size()], q = (me + e.shift) % np;
        Block &b = blocks[id];
        auto s = spots(b.n);
        if (s.empty()) break;
        size_t o = s[e.b % s.size()];
        call("shmem_barrier_all");
        uint64_t want = value(id, q, o, (int)b.n), got = 0;
        auto it = b.stamp[q].find(o);
        if (it != b.stamp[q].end()) want = it->second;
        if (spc && e.how == 3 && sp_ctx[me]) call("shmem_ctx_getmem", sp_ctx[me], (void *)&got, (const void *)(b.addr[me] + o), (size_t)8, q);
        else if (e.how & 1 || o % 8) call("shmem_getmem", (void *)&got, (const void *)(b.addr[me] + o), (size_t)8, q);
        else got = call<uint64_t>("shmem_ulong_atomic_fetch", (const void *)(b.addr[me] + o), q);
        if (got != want) fail("PE %d reads %016llx at %zu of block %d (%zu bytes) of PE %d, expected %016llx", me, (unsigned long long)got, o, id, b.n, q, (unsigned long long)want);
        call("shmem_barrier_all");
        uint64_t nv = want + 1 + me;
        if (spc && e.how == 3 && sp_ctx[me]) call("shmem_ctx_putmem", sp_ctx[me], (void *)(b.addr[me] + o), (const void *)&nv, (size_t)8, q), call("shmem_ctx_quiet", sp_ctx[me]);
        else if (e.how & 1 || o % 8) call("shmem_putmem", (void *)(b.addr[me] + o), (const void *)&nv, (size_t)8, q);
        else call("shmem_ulong_atomic_set", (void *)(b.addr[me] + o), (unsigned long)nv, q);
        b.stamp[q][o] = nv;
        count(N_REMOTE);
        call("shmem_barrier_all");
        break;
    }
    }
    call("shmem_barrier_all");
    for (int id : V) verify(me, id, (size_t)-1, "");
    call("shmem_barrier_all");
}
size_t draw_big() {
    switch (pickw({4, 3, 3, 2, 2})) {
    case 0: return 1 + draw(100000);
    case 1: return pick<size_t>({1ull << 31, 1ull << 32, 1ull << 30, 3ull << 30, 3ull << 31, 1ull << 33}) + draw(64) * 8 - 256;
    case 2: return (cap / (1 + draw(5))) - draw(8192);
    case 3: return pick<size_t>({1ull << 31, 1ull << 32}) + draw(0x7fffffff);
    default: return cap - draw(64) * 4096;
    }
}
void c_huge(bool space) {
    spc = space;
    np = 1 + pickw({1, 4, 2});
    SimParams sp = draw_sim(np);
    desc("%s", sim_str(sp).c_str());
    draw_env_modes(20, false, true);
    sim_big_memory(true);
    size_t big = pick<size_t>({5ull << 30, 3ull << 30, (1ull << 32) + 8192, 9ull << 30, (17ull << 30) + 4096, 1ull << 31, 1ull << 32}) + 4096 * (size_t)draw(20);
    hsize = space ? 65536 : big;
    cap = big;
    setenv("SHMEM_SYMMETRIC_SIZE", std::to_string(hsize).c_str(), 1);
    desc("%s of %zu bytes", space ? "space" : "heap", cap);
    int n = 2 + draw(10);
    for (int i = 0; i < n; i++) {
        Event e;
        e.ev = i < 1 ? ALLOC : pickw({8, 4, 3, 5, 3});
        if (space && e.ev == REALLOC) e.ev = ALLOC;
        e.a = draw(100);
        e.b = draw(1000);
        e.shift = draw(np);
        e.how = draw(4);
        switch (e.ev) {
        case ALLOC:
            if (e.how == 1) e.how = 0;
            e.n = draw_big();
            if (e.how == 2) e.al = (size_t)8 << draw(10);
            if (chance(10)) e.how = 1, e.al = 0, e.count = 1 + draw(8), e.n = 1 + draw(4096);
            break;
        case REALLOC: e.n = draw_big(); break;
        case BAD: // more than there is; the products exceed 32 or 64 bits and leave little behind
            if (e.how == 1) {
                e.count = pick<size_t>({1ull << 32, 1ull << 33, 1ull << 31, 1ull << 16, 1ull << 62, 3ull << 32, 65537}) + draw(2);
                e.n = pick<size_t>({8, 1ull << 20, 1ull << 32, 1ull << 31, 1ull << 48}) + draw(3);
                if ((unsigned __int128)e.count * e.n <= cap + 65536) e.n <<= 24;
            } else {
                e.n = pick<size_t>({cap + 16384, cap + (1ull << 32) + 64, (1ull << 35) + 64, (1ull << 40) + 4096, 1ull << 63, (size_t)0 - 64}) ;
                if (e.how == 2) e.al = (size_t)8 << draw(6);
            }
            break;
        }
        desc("%d: %s", i, e.ev == FREE ? fmt("free live block #%d", e.a).c_str() : e.ev == REMOTE ? fmt("each PE reads and updates spot %d of live block #%d of the PE %d further (%d)", e.b, e.a, e.shift, e.how).c_str() : name_of(e).c_str());
        evs.push_back(e);
    }
    logs.resize(evs.size());
    run_case(sp, [&](int me) {
        call("shmem_init");
        if (spc) {
            Cfg cf = {cap, 1, 0, nullptr, 0};
            call("shmemx_space_create", cf, &sp_h[me]);
            if (!sp_h[me]) fail("PE %d: shmemx_space_create of %zu bytes gave no space", me, cap);
            call("shmemx_space_attach", sp_h[me]);
            if (call<int>("shmemx_space_create_ctx", sp_h[me], 0L, &sp_ctx[me])) sp_ctx[me] = nullptr;
            call("shmem_barrier_all");
            cap = (cap + 4095) / 4096 * 4096;
        }
        for (size_t k = 0; k < evs.size(); k++) run(me, evs[k], (int)k);
        if (spc) {
            if (sp_ctx[me]) call("shmem_ctx_destroy", sp_ctx[me]);
            for (int id : live[me]) call("shmem_free", (void *)blocks[id].addr[me]);
            call("shmem_barrier_all");
            call("shmemx_space_detach", sp_h[me]);
            call("shmemx_space_destroy", sp_h[me]);
        }
        call("shmem_finalize");
    });
    bool any = false;
    for (auto &b : blocks) any |= b.n > 1ull << 31;
    if (any) nontrivial();
}
void c18b() { c_huge(false); }
void c19b() { c_huge(true); }
const vector<string> CN = {"allocated", "refused", "larger than 2 GB", "remote accesses", "reallocated"};
RegProp r1("C18B", c18b, "Histories of heap calls on heaps of 2 to 17 GB with blocks of up to all of it, looked at around the 2^31 and 2^32 edges and at their ends; non-trivial: a block larger than 2 GB was given.", CN);
RegProp r2("C19B", c19b, "Histories of allocations on a space of 2 to 17 GB with blocks of up to all of it, looked at around the 2^31 and 2^32 edges and at their ends; non-trivial: a block larger than 2 GB was given.", CN);
} // namespace
