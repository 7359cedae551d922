// C18: symmetric heap; C19: memory spaces. One collective program, a model of every block on every PE.
#include "drf.hpp"
#include <algorithm>
using std::string;
using std::vector;
namespace {
struct Cfg {
    size_t sheap_size;
    int num_contexts, memkind;
    void *device_handle;
    long hints;
};
enum Ev { ALLOC, FREE, REALLOC, TRAFFIC, CHECK, FILL, BADREQ, FREEALL, SP_CREATE, SP_ATTACH, SP_DETACH, SP_DESTROY, CTX, NEV };
struct Event {
    int ev, a = 0, b = 0, c = 0, arena = 0;
    size_t n = 0, al = 0, count = 1;
    int how = 0, init = 0, traffic = 0, shift = 0, ctx = 0;
    vector<int> pause;
};
struct Block {
    int arena;
    size_t size, al;
    char *addr[MAXPE] = {};
    bool live = true;
    vector<unsigned char> val[MAXPE], known[MAXPE];
    bool pending = false; // remote or local writes not yet followed by a barrier
};
struct Space {
    size_t req, size;
    int nctx;
    
    void *h[MAXPE] = {};
    vector<vector<void *>> ctx; // [pe][i]

};
struct View { // every PE's own view of the (identical) history
    vector<int> live;
    bool dirty = false; // writes since the last barrier
    vector<int> spaces; // 0 never created/destroyed, 1 created, 2 attached
};
int np;
size_t hsize;
vector<Event> evs;
std::deque<Block> blocks; // elements stay where they are
std::deque<Space> spaces;
struct Log { // result of the k-th allocation call, as seen by the first PE
    bool set = false, null = false;
    int block = -1;
    int entered = 0;
};
vector<Log> logs;
int seqno[MAXPE];
View view[MAXPE];
int n_alloc, n_null, n_free, n_realloc, n_traffic, n_calloc, n_align, n_fill, n_attach, n_spaces, n_ctx, n_check;
uint64_t mix(uint64_t z) {
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    return z ^ (z >> 27);
}
Log &step(int me) {
    int k = seqno[me]++;
    if ((int)logs.size() <= k) logs.resize(k + 1);
    logs[k].entered++;
    return logs[k];
}
const char *aname(int a) {
    static char b[32];
    if (!a) return "heap";
    snprintf(b, sizeof b, "space %d", a - 1);
    return b;
}
size_t page() { return 4096; }
size_t capacity(int a) { return a ? spaces[a - 1].size : hsize; }
// length of the largest run of free bytes among the live blocks of an arena, known only once a block was seen
bool must_fit(int me, int a, size_t n, size_t al) {
    vector<std::pair<size_t, size_t>> v;
    size_t cap = capacity(a);
    if (n > cap || al > page()) return false;
    if (a) {
        // memory spaces hand out whole pages
        char *lo = nullptr;
        for (int id : view[me].live)
            if (blocks[id].arena == a) {
                if (!lo || blocks[id].addr[me] < lo) lo = blocks[id].addr[me];
            }
        if (!lo) return true;
        // without the space's base only the distance from the lowest live block is known
        size_t used_pages = 0, gap = 0, end = 0;
        vector<std::pair<size_t, size_t>> w;
        for (int id : view[me].live)
            if (blocks[id].arena == a) w.push_back({(size_t)(blocks[id].addr[me] - lo), (blocks[id].size + page() - 1) / page() * page()});
        std::sort(w.begin(), w.end());
        for (auto &x : w) {
            if (x.first > end) gap = std::max(gap, x.first - end);
            end = x.first + x.second;
            used_pages += x.second;
        }
        // what lies before the lowest and after the highest block is free too: at least half of it in one piece
        size_t outside = cap > end ? cap - end : 0;
        gap = std::max(gap, outside / page() / 2 * page());
        return (n + page() - 1) / page() * page() <= gap;
    }
    char *lo = nullptr;
    for (int id : view[me].live)
        if (!blocks[id].arena && (!lo || blocks[id].addr[me] < lo)) lo = blocks[id].addr[me];
    size_t need = n + 96 + (al > 16 ? al + 64 : 0);
    if (!lo) return need <= cap + 96;
    size_t gap = 0, end = 0;
    for (int id : view[me].live)
        if (!blocks[id].arena) v.push_back({(size_t)(blocks[id].addr[me] - lo), blocks[id].size});
    std::sort(v.begin(), v.end());
    for (auto &x : v) {
        if (x.first > end) gap = std::max(gap, x.first - end);
        end = x.first + x.second;
    }
    size_t outside = cap > end ? cap - end : 0;
    gap = std::max(gap, outside / 2);
    return need <= gap;
}
void verify(int me, int id, size_t upto, const char *when) {
    Block &b = blocks[id];
    size_t n = std::min(upto, b.size);
    for (size_t i = 0; i < n; i++)
        if (b.known[me][i] && (unsigned char)b.addr[me][i] != b.val[me][i])
            fail("PE %d: byte %zu of block %d (%zu bytes, %s) is %02x %s, expected %02x", me, i, id, b.size, aname(b.arena), (unsigned char)b.addr[me][i], when, b.val[me][i]);
}
void local_fill(int me, int id, uint64_t salt) {
    Block &b = blocks[id];
    for (size_t i = 0; i < b.size; i++) {
        unsigned char v = (unsigned char)mix(salt * 977 + id * 31 + me * 7 + i);
        b.addr[me][i] = (char)v;
        b.val[me][i] = v;
        b.known[me][i] = 1;
    }
}
void barrier(int me) {
    call("shmem_barrier_all");
    view[me].dirty = false;
}
void settle(int me) {
    if (view[me].dirty) barrier(me);
}
// registers the outcome of an allocation; returns the block id or -1
int record(int me, Log &L, int a, void *p, size_t n, size_t al, bool zero, bool fits, const string &what) {
    char *c = (char *)p;
    if (L.set && L.null != !p) fail("%s returned %s on PE %d but %s on an earlier PE", what.c_str(), p ? "a block" : "NULL", me, p ? "NULL" : "a block");
    if (!L.set) {
        L.set = true;
        L.null = !p;
        if (!p) {
            n_null++;
            if (fits) fail("%s returned NULL on PE %d although the free memory of the %s is sufficient", what.c_str(), me, aname(a));
        } else {
            n_alloc++;
            L.block = (int)blocks.size();
            Block b;
            b.arena = a;
            b.size = n;
            b.al = al;
            for (int q = 0; q < np; q++) {
                b.val[q].assign(n, 0);
                b.known[q].assign(n, zero ? 1 : 0);
            }
            blocks.push_back(b);
        }
    }
    if (!p) return -1;
    Block &b = blocks[L.block];
    b.addr[me] = c;
    size_t want = std::max<size_t>(al, 16); // any object type: alignof(max_align_t)
    if ((uintptr_t)c % want) fail("%s returned %p on PE %d, which is not a multiple of %zu", what.c_str(), p, me, want);
    size_t lo = 0, hi = 0;
    char *first = nullptr;
    for (int id : view[me].live) {
        Block &o = blocks[id];
        char *oc = o.addr[me];
        if (c < oc + o.size && oc < c + n) fail("%s returned a block on PE %d that overlaps live block %d (%zu bytes, %s)", what.c_str(), me, id, o.size, aname(o.arena));
        if (o.arena != a) continue;
        if (!first) first = oc;
        lo = std::max<size_t>(lo, c < oc ? oc - c : 0);
        hi = std::max<size_t>(hi, c + n > oc ? c + n - oc : 0);
        for (int q = 0; q < np; q++)
            if (q != me && b.addr[q] && o.addr[q] && b.addr[q] - o.addr[q] != c - oc)
                fail("%s returned blocks at different places: %td bytes from block %d on PE %d, %td on PE %d", what.c_str(), c - oc, id, me, b.addr[q] - o.addr[q], q);
    }
    if (first) {
        char *l = c, *h = c + n;
        for (int id : view[me].live)
            if (blocks[id].arena == a) {
                l = std::min(l, blocks[id].addr[me]);
                h = std::max(h, blocks[id].addr[me] + blocks[id].size);
            }
        if ((size_t)(h - l) > capacity(a) + (a ? 0 : 2 * page())) fail("%s returned a block on PE %d outside the %s: live blocks span %zu bytes of %zu", what.c_str(), me, aname(a), (size_t)(h - l), capacity(a));
    }
    if (n > capacity(a) + (a ? 0 : 2 * page())) fail("%s returned a block larger than the %s (%zu bytes)", what.c_str(), aname(a), capacity(a));
    view[me].live.push_back(L.block);
    return L.block;
}
void *space_of(int me, int a) { return spaces[a - 1].h[me]; }
string call_name(const Event &e) {
    static const char *H[] = {"shmem_malloc", "shmalloc", "shmem_malloc_with_hints", "shmem_calloc", "shmem_align", "shmemalign", "shmem_realloc(NULL)", "shrealloc(NULL)"};
    static const char *S[] = {"shmemx_space_malloc", "shmemx_space_calloc", "shmemx_space_align"};
    if (e.arena) return fmt("%s(%s, %s%zu)", S[e.how % 3], aname(e.arena), e.how % 3 == 1 ? fmt("%zu, ", e.count).c_str() : e.how % 3 == 2 ? fmt("%zu, ", e.al).c_str() : "", e.n);
    return fmt("%s(%s%zu)", H[e.how], e.how == 3 ? fmt("%zu, ", e.count).c_str() : e.how == 4 || e.how == 5 ? fmt("%zu, ", e.al).c_str() : "", e.n);
}
void *do_call(int me, const Event &e) {
    if (e.arena) {
        void *s = space_of(me, e.arena);
        switch (e.how % 3) {
        case 0: return call<void *>("shmemx_space_malloc", s, e.n);
        case 1: return call<void *>("shmemx_space_calloc", s, e.count, e.n);
        default: return call<void *>("shmemx_space_align", s, e.al, e.n);
        }
    }
    switch (e.how) {
    case 0: return call<void *>("shmem_malloc", e.n);
    case 1: return call<void *>("shmalloc", e.n);
    case 2: return call<void *>("shmem_malloc_with_hints", e.n, (long)e.b);
    case 3: return call<void *>("shmem_calloc", e.count, e.n);
    case 4: return call<void *>("shmem_align", e.al, e.n);
    case 5: return call<void *>("shmemalign", e.al, e.n);
    case 6: return call<void *>("shmem_realloc", (void *)nullptr, e.n);
    default: return call<void *>("shrealloc", (void *)nullptr, e.n);
    }
}
bool is_calloc(const Event &e) { return e.arena ? e.how % 3 == 1 : e.how == 3; }
bool is_align(const Event &e) { return e.arena ? e.how % 3 == 2 : e.how == 4 || e.how == 5; }
int do_alloc(int me, const Event &e) {
    Log &l0 = step(me);
    int k = seqno[me] - 1;
    (void)l0;
    bool z = is_calloc(e);
    size_t al = is_align(e) ? e.al : 0;
    size_t total = z ? e.count * e.n : e.n;
    bool fits = must_fit(me, e.arena, total, al);
    string what = call_name(e);
    void *p = do_call(me, e);
    Log &L = logs[k];
    if (L.entered != np) fail("%s returned on PE %d before every PE had called it", what.c_str(), me);
    view[me].dirty = false;
    int id = record(me, L, e.arena, p, total, al, z, fits, what);
    if (id < 0) return id;
    if (z) n_calloc++;
    if (al) n_align++;
    return id;
}
int ord(const vector<int> &v, int k) { return v[(unsigned)k % v.size()]; }
void remote(int me, const Event &e) {
    vector<int> c;
    for (int id : view[me].live)
        if (blocks[id].arena == 0 || view[me].spaces[blocks[id].arena - 1] == 2) c.push_back(id);
    if (c.empty()) return;
    int id = ord(c, e.a);
    Block &b = blocks[id];
    int q = (me + e.shift) % np;
    char *loc = b.addr[me];
    size_t n = b.size;
    size_t o = e.b ? mix(e.b) % n : 0, len = e.b ? 1 + mix(e.b + 1) % (n - o) : n;
    if (e.c == 1) o = n - len; // up to the last byte
    int kind = e.traffic;
    static vector<std::vector<unsigned char>> keep[MAXPE];
    void *ctx = O_CTX_DEFAULT;
    if (b.arena && e.ctx && !spaces[b.arena - 1].ctx[me].empty()) {
        auto &v = spaces[b.arena - 1].ctx[me];
        ctx = v[e.ctx % v.size()];
    }
    bool dc = ctx == O_CTX_DEFAULT;
    if (kind == 2 && len > 300) kind = 0;
    n_traffic++;
    if (kind == 4 || kind == 5) { // reads
        settle(me);
        vector<unsigned char> d(len);
        if (kind == 4) dc ? call("shmem_getmem", (void *)d.data(), (const void *)(loc + o), len, q) : call("shmem_ctx_getmem", ctx, (void *)d.data(), (const void *)(loc + o), len, q);
        else {
            dc ? call("shmem_getmem_nbi", (void *)d.data(), (const void *)(loc + o), len, q) : call("shmem_ctx_getmem_nbi", ctx, (void *)d.data(), (const void *)(loc + o), len, q);
            dc ? call("shmem_quiet") : call("shmem_ctx_quiet", ctx);
        }
        for (size_t i = 0; i < len; i++)
            if (b.known[q][o + i] && d[i] != b.val[q][o + i])
                fail("PE %d gets byte %zu of block %d (%zu bytes, %s) of PE %d as %02x, expected %02x", me, o + i, id, n, aname(b.arena), q, d[i], b.val[q][o + i]);
        barrier(me);
        return;
    }
    if (kind == 6) { // atomics by everybody on the block's last aligned word
        if (n < 8) return;
        char *w = loc + (n / 8 - 1) * 8;
        size_t wo = w - loc;
        settle(me);
        for (size_t i = 0; i < 8; i++)
            if (!b.known[q][wo + i]) {
                barrier(me);
                view[me].dirty = true; // like the PEs that find a known value
                return;
            }
        barrier(me);
        unsigned long d = mix(e.b + me), old;
        memcpy(&old, &b.val[q][wo], 8);
        old += d;
        memcpy(&b.val[q][wo], &old, 8);
        dc ? call("shmem_ulong_atomic_add", (unsigned long *)w, d, q) : call("shmem_ctx_ulong_atomic_add", ctx, (unsigned long *)w, d, q);
        if (!dc) call("shmem_ctx_quiet", ctx);
        view[me].dirty = true;
        return;
    }
    settle(me);
    keep[me].emplace_back(len);
    auto &src = keep[me].back();
    for (size_t i = 0; i < len; i++) src[i] = (unsigned char)mix(e.b * 131 + me * 17 + i + e.a);
    for (size_t i = 0; i < len; i++) {
        if (kind == 3 && i % 2) continue;
        b.val[q][o + i] = src[i];
        b.known[q][o + i] = 1;
    }
    void *dst = loc + o;
    switch (kind) {
    case 0: dc ? call("shmem_putmem", dst, (const void *)src.data(), len, q) : call("shmem_ctx_putmem", ctx, dst, (const void *)src.data(), len, q); break;
    case 1: dc ? call("shmem_putmem_nbi", dst, (const void *)src.data(), len, q) : call("shmem_ctx_putmem_nbi", ctx, dst, (const void *)src.data(), len, q); break;
    case 2:
        for (size_t i = 0; i < len; i++) dc ? call("shmem_uchar_p", (unsigned char *)dst + i, src[i], q) : call("shmem_ctx_uchar_p", ctx, (unsigned char *)dst + i, src[i], q);
        break;
    case 3: {
        size_t m = (len + 1) / 2;
        dc ? call("shmem_uchar_iput", (unsigned char *)dst, (const unsigned char *)src.data(), (ptrdiff_t)2, (ptrdiff_t)2, m, q)
           : call("shmem_ctx_uchar_iput", ctx, (unsigned char *)dst, (const unsigned char *)src.data(), (ptrdiff_t)2, (ptrdiff_t)2, m, q);
        break;
    }
    }
    if (!dc) call("shmem_ctx_quiet", ctx);
    view[me].dirty = true;
}
void check_all(int me, bool sync) {
    if (sync || view[me].dirty) barrier(me);
    for (int id : view[me].live) verify(me, id, (size_t)-1, "at a check");
    n_check++;
    barrier(me);
}
void drop(int me, int id) {
    auto &v = view[me].live;
    v.erase(std::find(v.begin(), v.end(), id));
}
void do_free(int me, int id, bool old_name) {
    step(me);
    int k = seqno[me] - 1;
    char *p = blocks[id].addr[me];
    call(old_name ? "shfree" : "shmem_free", (void *)p);
    if (logs[k].entered != np) fail("shmem_free returned on PE %d before every PE had called it", me);
    view[me].dirty = false;
    drop(me, id);
    n_free++;
}
void exec(int me, int i) {
    const Event &e = evs[i];
    if (e.pause[me]) compute(e.pause[me]);
    View &V = view[me];
    if (e.arena && (e.arena > (int)V.spaces.size() || !V.spaces[e.arena - 1]) && e.ev != SP_CREATE) return;
    switch (e.ev) {
    case ALLOC: {
        int id = do_alloc(me, e);
        if (id < 0) return;
        if (e.init == 1) {
            if (is_calloc(e)) verify(me, id, (size_t)-1, "right after the allocation");
            local_fill(me, id, i);
            V.dirty = true;
        } else if (e.init == 2) {
            Event t = e;
            t.a = (int)V.live.size() - 1;
            vector<int> c;
            for (int x : V.live)
                if (blocks[x].arena == 0 || V.spaces[blocks[x].arena - 1] == 2) c.push_back(x);
            if (e.arena && V.spaces[e.arena - 1] != 2) return;
            t.a = (int)(std::find(c.begin(), c.end(), id) - c.begin());
            remote(me, t);
        }
        return;
    }
    case FREE: {
        if (e.a < 0) {
            call("shmem_free", (void *)nullptr);
            return;
        }
        if (V.live.empty()) return;
        do_free(me, ord(V.live, e.a), e.how & 1);
        return;
    }
    case REALLOC: {
        vector<int> c;
        for (int id : V.live)
            if (!blocks[id].arena) c.push_back(id);
        if (c.empty()) return;
        int id = ord(c, e.a);
        step(me);
        int k = seqno[me] - 1;
        size_t old = blocks[id].size, n = e.n;
        switch (e.b) { // relative to the old size
        case 1: n = old + 1 + e.n % 64; break;
        case 2: n = old > 1 ? 1 + e.n % (old - 1) : 1; break;
        case 3: n = old; break;
        case 4: n = 0; break;
        case 5: n = old * 2; break;
        }
        string what = fmt("shmem_realloc(block %d of %zu bytes, %zu)", id, old, n);
        drop(me, id);
        bool fits = n && (must_fit(me, 0, n, 0) || n <= old);
        V.live.push_back(id);
        char *p0 = blocks[id].addr[me];
        char *p = call<char *>(e.how & 1 ? "shrealloc" : "shmem_realloc", (void *)p0, n);
        if (logs[k].entered != np) fail("%s returned on PE %d before every PE had called it", what.c_str(), me);
        V.dirty = false;
        n_realloc++;
        if (!n) {
            if (p) fail("%s returned a block on PE %d", what.c_str(), me);
            drop(me, id);
            return;
        }
        if (!p) {
            if (logs[k].set && !logs[k].null) fail("%s returned NULL on PE %d but a block on an earlier PE", what.c_str(), me);
            logs[k].set = logs[k].null = true;
            // growing in place needs only the memory behind the block; a copy needs a new place while the old one is still live
            if (n <= old || must_fit(me, 0, n, 0)) fail("%s returned NULL on PE %d although memory suffices", what.c_str(), me);
            (void)fits;
            verify(me, id, (size_t)-1, "after a failed realloc");
            V.dirty = true;
            return;
        }
        drop(me, id);
        Block ob = blocks[id];
        int nid = record(me, logs[k], 0, p, n, 0, false, false, what);
        Block &nb = blocks[nid];
        for (size_t j = 0; j < std::min(n, old); j++) nb.val[me][j] = ob.val[me][j], nb.known[me][j] = ob.known[me][j];
        if (e.shift > 0) { // one PE writes to another's new block as soon as it is back
            size_t o = mix(e.c) % n, len = 1 + mix(e.c + 1) % (n - o);
            int q = (e.init + e.shift) % np;
            if (me == e.init) {
                static vector<vector<unsigned char>> keep;
                keep.emplace_back(len);
                for (size_t j = 0; j < len; j++) keep.back()[j] = (unsigned char)mix(e.c * 7 + j);
                call(e.how & 2 ? "shmem_putmem_nbi" : "shmem_putmem", (void *)(p + o), (const void *)keep.back().data(), len, q);
                n_traffic++;
            }
            if (me == q) {
                for (size_t j = 0; j < len; j++) nb.known[me][o + j] = 0;
                verify(me, nid, (size_t)-1, "after realloc");
                for (size_t j = 0; j < len; j++) nb.known[me][o + j] = 1, nb.val[me][o + j] = (unsigned char)mix(e.c * 7 + j);
                V.dirty = true;
                return;
            }
        }
        verify(me, nid, (size_t)-1, "after realloc");
        V.dirty = true; // remote writes only after everyone has looked
        return;
    }
    case TRAFFIC: remote(me, e); return;
    case CHECK: check_all(me, true); return;
    case FILL: {
        n_fill++;
        size_t tot = 0;
        for (int k = 0; k < e.c; k++) {
            Event t = e;
            t.ev = ALLOC;
            int id = do_alloc(me, t);
            if (id < 0) break;
            tot += blocks[id].size;
            if (blocks[id].size) local_fill(me, id, i + k), V.dirty = true;
        }
        // the last block of a full arena, used remotely
        if (!V.live.empty() && (!e.arena || V.spaces[e.arena - 1] == 2)) {
            Event t = e;
            vector<int> c;
            for (int x : V.live)
                if (blocks[x].arena == 0 || V.spaces[blocks[x].arena - 1] == 2) c.push_back(x);
            if (!c.empty()) {
                int best = 0;
                for (size_t x = 0; x < c.size(); x++)
                    if (blocks[c[x]].arena == e.arena && (blocks[c[best]].arena != e.arena || blocks[c[x]].addr[me] > blocks[c[best]].addr[me])) best = (int)x;
                t.a = best;
                t.traffic = e.traffic;
                remote(me, t);
            }
        }
        return;
    }
    case BADREQ: { // must return NULL without damage
        Event t = e;
        bool zero = !e.n || (is_calloc(e) && !e.count);
        int k = -1;
        if (!zero) {
            step(me);
            k = seqno[me] - 1;
        }
        void *p = do_call(me, t);
        if (p) fail("%s returned %p on PE %d instead of NULL", call_name(e).c_str(), p, me);
        if (k >= 0) {
            if (logs[k].entered == np) V.dirty = false;
        }
        n_null++;
        return;
    }
    case FREEALL: {
        vector<int> c = V.live;
        if (e.b & 1) std::reverse(c.begin(), c.end());
        size_t j = 0;
        for (int id : c)
            if (e.c == 0 || (j++ % 2) == (unsigned)(e.c - 1)) {
                if (e.arena >= 0 && e.b & 2 && blocks[id].arena != e.arena) continue;
                do_free(me, id, e.how & 1);
            }
        return;
    }
    case SP_CREATE: {
        if (V.spaces.size() >= 6) return;
        int s = (int)V.spaces.size();
        if ((int)spaces.size() <= s) {
            Space sp;
            sp.req = e.n;
            sp.size = (e.n + page() - 1) / page() * page();
            sp.nctx = e.a;
            sp.ctx.resize(np);
            spaces.push_back(sp);
            n_spaces++;
        }
        Cfg cf = {e.n, e.a, 0, nullptr, (long)e.b};
        void *hs = nullptr;
        call("shmemx_space_create", cf, &hs);
        spaces[s].h[me] = hs;
        if (!spaces[s].h[me]) fail("shmemx_space_create gave no space");
        V.spaces.push_back(1);
        return;
    }
    case SP_ATTACH: {
        int s = e.arena - 1;
        if (V.spaces[s] != 1) return;
        step(me);
        call("shmemx_space_attach", spaces[s].h[me]);
        V.spaces[s] = 2;
        n_attach++;
        int k = seqno[me] - 1;
        barrier(me);
        return;
    }
    case SP_DETACH: {
        int s = e.arena - 1;
        if (V.spaces[s] != 2) return;
        for (void *c : spaces[s].ctx[me]) call("shmem_ctx_destroy", c);
        spaces[s].ctx[me].clear();
        if (e.b) barrier(me);
        call("shmemx_space_detach", spaces[s].h[me]);
        V.spaces[s] = 1;
        for (int id : V.live)
            if (blocks[id].arena == s + 1) verify(me, id, (size_t)-1, "after detaching its space");
        barrier(me);
        return;
    }
    case SP_DESTROY: {
        int s = e.arena - 1;
        if (V.spaces[s] == 2) {
            Event t = e;
            t.ev = SP_DETACH;
            for (void *c : spaces[s].ctx[me]) call("shmem_ctx_destroy", c);
            spaces[s].ctx[me].clear();
            call("shmemx_space_detach", spaces[s].h[me]);
            barrier(me);
        }
        vector<int> c;
        for (int id : V.live)
            if (blocks[id].arena == s + 1) c.push_back(id);
        for (int id : c) do_free(me, id, false);
        call("shmemx_space_destroy", spaces[s].h[me]);
        V.spaces[s] = 0;
        if (e.b) barrier(me);
        return;
    }
    case CTX: {
        int s = e.arena - 1;
        if (V.spaces[s] != 2) return;
        auto &v = spaces[s].ctx[me];
        if (e.a && !v.empty()) {
            settle(me);
            call("shmem_ctx_destroy", v.back());
            v.pop_back();
            return;
        }
        void *h = nullptr;
        int r = call<int>("shmemx_space_create_ctx", spaces[s].h[me], (long)(e.b & 7), &h);
        bool ok = (int)v.size() < spaces[s].nctx;
        if (ok ? r != 0 : r == 0) fail("PE %d: shmemx_space_create_ctx returned %d with %zu of %d contexts in use", me, r, v.size(), spaces[s].nctx);
        if (ok) {
            if (!h) fail("PE %d: shmemx_space_create_ctx succeeded without a context", me);
            for (auto &sp : spaces)
                for (void *x : sp.ctx[me])
                    if (x == h) fail("PE %d: shmemx_space_create_ctx returned a context that is in use", me);
            v.push_back(h);
            n_ctx++;
        }
        return;
    }
    }
}
size_t draw_size(size_t cap) {
    switch (pickw({6, 4, 3, 2, 2, 1})) {
    case 0: return 1 + draw(64);
    case 1: return 1 + draw(1200);
    case 2: return 1 + draw((uint32_t)(cap / 3));
    case 3: return 1 + draw((uint32_t)cap);
    case 4: return (size_t)8 << draw(12);
    default: return cap - draw(16);
    }
}
void program(bool with_spaces) {
    np = chance(5) ? 7 + draw(4) : 1 + pickw({1, 3, 3, 2, 2, 1});
    SimParams sp = draw_sim(np);
    desc("%s", sim_str(sp).c_str());
    draw_env_modes(20, false, true);
    hsize = with_spaces ? pick<size_t>({32768, 8192, 100000}) : pick<size_t>({16384, 4096, 8192, 65536, 100000, 300000, 1000000, 12345});
    size_t req = hsize;
    setenv("SHMEM_SYMMETRIC_SIZE", std::to_string(req).c_str(), 1);
    desc("SHMEM_SYMMETRIC_SIZE=%zu", req);
    int n = 3 + draw(chance(15) ? 60 : 18);
    int created = 0;
    vector<size_t> ssz;
    for (int i = 0; i < n; i++) {
        Event e;
        if (with_spaces && i < 2 && chance(70)) e.ev = i ? SP_ATTACH : SP_CREATE;
        else if (with_spaces) e.ev = pickw({10, 5, 1, 8, 2, 2, 2, 1, created ? 2 : 14, 5, 3, 2, 3});
        else e.ev = pickw({12, 6, 6, 8, 2, 3, 4, 2});
        bool sps = e.ev == ALLOC || e.ev == FILL || e.ev == BADREQ;
        if (e.ev == SP_CREATE) e.n = chance(30) ? pick<size_t>({1, 4095, 4096, 4097, 200000}) : 1 + draw(40000), e.a = draw(4), e.b = draw(4);
        if (e.ev == SP_CREATE) {
            if (created >= 6) continue;
            ssz.push_back((e.n + 4095) / 4096 * 4096);
            created++;
        }
        if (e.ev >= SP_ATTACH || (sps && with_spaces && chance(75))) {
            if (!created) continue;
            e.arena = 1 + draw(created);
        }
        size_t cap = e.arena ? ssz[e.arena - 1] : hsize;
        switch (e.ev) {
        case ALLOC:
        case FILL:
            e.how = e.arena ? draw(3) : pickw({5, 1, 1, 3, 3, 1, 1, 1});
            e.n = draw_size(cap);
            if (e.ev == FILL) {
                e.c = 1 + draw(60);
                e.n = std::max<size_t>(e.n, cap / 50);
            }
            e.al = (size_t)8 << draw(chance(20) ? 14 : 10);
            if (is_calloc(e)) {
                e.count = 1 + draw(9);
                e.n = (e.n + e.count - 1) / e.count;
            }
            e.init = draw(3);
            e.b = draw(1000);
            e.shift = draw(np);
            e.traffic = e.init == 2 || e.ev == FILL ? pick({0, 1, 2, 3}) : 0;
            if (e.traffic == 2 && e.n * e.count > 300) e.traffic = 0;
            if (e.ev == FILL) e.b = 0;
            desc("%d: %s%s", i, e.ev == FILL ? fmt("up to %d times ", e.c).c_str() : "", call_name(e).c_str());
            break;
        case FREE:
            e.a = chance(6) ? -1 : (int)draw(1000);
            e.how = draw(2);
            desc("%d: free %s", i, e.a < 0 ? "NULL" : fmt("live block #%d", e.a).c_str());
            break;
        case REALLOC:
            e.a = draw(1000);
            e.b = draw(6);
            e.n = draw_size(cap);
            e.how = draw(4);
            if (chance(60)) e.c = draw(1000), e.init = draw(np), e.shift = draw(np);
            desc("%d: realloc live block #%d (kind %d, %zu)%s", i, e.a, e.b, e.n, e.shift ? fmt(", then PE %d writes at once to PE %d", e.init, (e.init + e.shift) % np).c_str() : "");
            break;
        case TRAFFIC:
            e.a = draw(1000);
            e.b = draw(1000);
            e.c = draw(2);
            e.traffic = draw(7);
            if (e.traffic == 2) e.traffic = 1;
            e.shift = draw(np);
            e.ctx = draw(3);
            desc("%d: every PE %s block #%d of the PE %d further (%s%s)", i, e.traffic >= 4 && e.traffic < 6 ? "reads" : "updates", e.a, e.shift, e.b ? "a part" : "all of it", e.ctx ? ", through a context if there is one" : "");
            break;
        case CHECK: desc("%d: check", i); break;
        case BADREQ:
            e.how = e.arena ? draw(3) : (int)draw(8);
            e.b = 0;
            e.al = (size_t)8 << draw(6);
            e.n = pick<size_t>({0, cap + 3 * 4096, cap * 4, (size_t)-1, (size_t)1 << 62, ((size_t)1 << 44) + 64, (size_t)0 - 4096, (size_t)3 << 31});
            if (e.n == 0 && e.how >= 6 && !e.arena) e.how = 0;
            if (is_calloc(e)) {
                if (e.n == 0) e.count = 1 + draw(4), e.b = 0;
                else if (chance(30)) e.count = (size_t)1 << 33, e.n = (size_t)1 << 31; // the product is 0 modulo 2^64
                else if (chance(30)) e.count = 0;
                else e.count = 1 + draw(3);
            }
            desc("%d: %s", i, call_name(e).c_str());
            break;
        case FREEALL:
            e.b = draw(4);
            e.c = draw(3);
            e.arena = 0;
            e.how = draw(2);
            if (with_spaces && created) e.arena = draw(created + 1);
            desc("%d: free %s blocks%s%s", i, e.c ? "every second of the" : "all", e.b & 2 ? fmt(" of %s", aname(e.arena)).c_str() : "", e.b & 1 ? " backwards" : "");
            break;
        case SP_CREATE: desc("%d: space %d = shmemx_space_create(%zu bytes, %d contexts)", i, created - 1, e.n, e.a); break;
        case SP_ATTACH: desc("%d: attach %s", i, aname(e.arena)); break;
        case SP_DETACH: e.b = draw(2); desc("%d: detach %s", i, aname(e.arena)); break;
        case SP_DESTROY: e.b = draw(2); desc("%d: detach if attached, free its blocks and destroy %s", i, aname(e.arena)); break;
        case CTX: e.a = chance(25); e.b = draw(8); desc("%d: %s a context of %s", i, e.a ? "destroy" : "create", aname(e.arena)); break;
        }
        e.pause.resize(np);
        for (int p = 0; p < np; p++) e.pause[p] = chance(25) ? draw(30) : 0;
        evs.push_back(e);
    }
    // FREEALL uses arena only as a filter
    run_case(sp, [&](int me) {
        call("shmem_init");
        for (size_t i = 0; i < evs.size(); i++) {
            int keep = evs[i].arena;
            (void)keep;
            exec(me, (int)i);
            sim_progress_mark();
        }
        check_all(me, true);
        vector<int> c = view[me].live;
        for (int id : c) do_free(me, id, false);
        // everything was freed: the configured amount is available in one piece
        Event e;
        e.ev = ALLOC;
        e.n = hsize;
        e.how = 0;
        e.pause.resize(np);
        int id = do_alloc(me, e);
        local_fill(me, id, 5);
        barrier(me);
        Event t;
        t.traffic = 0;
        t.shift = 1;
        t.b = 0;
        t.a = 0;
        remote(me, t);
        check_all(me, true);
        do_free(me, id, false);
        for (size_t s = 0; s < view[me].spaces.size(); s++) {
            if (!view[me].spaces[s]) continue;
            if (view[me].spaces[s] == 2) {
                for (void *x : spaces[s].ctx[me]) call("shmem_ctx_destroy", x);
                call("shmemx_space_detach", spaces[s].h[me]);
            }
            call("shmemx_space_destroy", spaces[s].h[me]);
        }
        call("shmem_finalize");
    });
    const int v[] = {n_alloc, n_null / np, n_free / np, n_realloc / np, n_calloc / np, n_align / np, n_traffic, n_fill / np, n_check / np, n_spaces, n_attach / np, n_ctx};
    for (int i = 0; i < 12; i++) count(i, v[i]);
}
const vector<string> CN = {"blocks allocated", "requests that returned NULL", "frees", "reallocs", "callocs", "aligned allocations", "remote accesses to blocks", "arenas filled", "checks of all blocks", "spaces created", "spaces attached", "contexts created"};
void c18() {
    program(false);
    if (n_alloc >= 3 && n_free / np >= 1 && n_traffic >= 1) nontrivial();
}
void c19() {
    program(true);
    if (n_alloc >= 3 && n_spaces >= 1 && n_attach >= 1) nontrivial();
}
RegProp r18("C18", c18, "Random histories of heap calls with remote accesses to the blocks, judged by a model of every block on every PE; non-trivial: at least three blocks, one free and one remote access.", CN);
RegProp r19("C19", c19, "Random histories of space life-cycle and allocation calls, mixed with heap calls, contexts and remote accesses, judged by a model of every block on every PE; non-trivial: at least three blocks and one space attached.", CN);
} // namespace
