// C17: teams - splits, membership, translation, configuration, life cycle.
#include "drf.hpp"
#include <algorithm>
using std::string;
using std::vector;
namespace {
enum Ev { SPLIT, SPLIT2, DESTROY, QUERY, USE, PAUSE, AMO, BAD };
struct Team {
    vector<int> m;
    bool live = true;
    int nctx = 0;
};
struct Event {
    int ev, parent = 0, s = 0, st = 1, sz = 1, child = -1, who = 0, k = 0;
    vector<int> ychild; // 2d: x teams then y teams
    bool ok = true, either = false;
    int cfg = 0, mask = 0, cfg2 = 0, mask2 = 0;
};
int np, nbuilt;
vector<Team> T;
vector<Event> evs;
void *th[400][MAXPE];
char *heap[MAXPE];
long total[MAXPE];
int entered[64];
bool has(const vector<int> &v, int x) { return std::count(v.begin(), v.end(), x); }
int idx(const vector<int> &v, int x) {
    for (size_t i = 0; i < v.size(); i++)
        if (v[i] == x) return (int)i;
    return -1;
}
string members(const vector<int> &m) {
    string s = "{";
    for (size_t i = 0; i < m.size(); i++) s += (i ? "," : "") + std::to_string(m[i]);
    return s + "}";
}
// what every live handle of this PE says, at one point of the program
void query(int me, const vector<char> &live, bool pairs) {
    for (size_t t = 0; t < live.size(); t++) {
        if (!live[t]) continue;
        const Team &A = T[t];
        void *h = th[t][me];
        bool in = has(A.m, me);
        if (!in && h) fail("PE %d is not in team %zu but holds a valid handle", me, t);
        int r = call<int>("shmem_team_my_pe", h), n = call<int>("shmem_team_n_pes", h);
        if (r != idx(A.m, me)) fail("PE %d: shmem_team_my_pe(team %zu) is %d, expected %d", me, t, r, idx(A.m, me));
        if (n != (in ? (int)A.m.size() : -1)) fail("PE %d: shmem_team_n_pes(team %zu) is %d, expected %d", me, t, n, in ? (int)A.m.size() : -1);
        int cfg = 77;
        int rc = call<int>("shmem_team_get_config", h, 1L, (void *)&cfg);
        if (in ? rc != 0 : rc == 0) fail("PE %d: shmem_team_get_config(team %zu) returned %d", me, t, rc);
        if (cfg != (in ? A.nctx : 77)) fail("PE %d: configuration of team %zu says %d contexts, expected %d", me, t, cfg, in ? A.nctx : 77);
        if (!pairs) continue;
        for (size_t u = 0; u < live.size(); u++) {
            if (!live[u]) continue;
            const Team &B = T[u];
            bool ok = in && has(B.m, me);
            for (int p = 0; p < (int)A.m.size(); p++) {
                int w = call<int>("shmem_team_translate_pe", h, p, th[u][me]), e = ok ? idx(B.m, A.m[p]) : -1;
                if (w != e) fail("PE %d: shmem_team_translate_pe(team %zu, %d, team %zu) is %d, expected %d", me, t, p, u, w, e);
            }
        }
    }
}
void c17() {
    np = chance(12) ? 7 + draw(4) : 1 + pickw({1, 2, 3, 3, 2, 3});
    SimParams sp = draw_sim(np);
    desc("%s", sim_str(sp).c_str());
    draw_env_modes(20, false, true);
    setenv("SHMEM_SYMMETRIC_SIZE", "65536", 1);
    vector<int> all;
    for (int i = 0; i < np; i++) all.push_back(i);
    T.push_back({all, true, 0});
    for (auto &m : draw_nodes(sp)) T.push_back({m, true, 0}); // SHMEM_TEAM_SHARED of each node
    nbuilt = (int)T.size();
    int nev = 2 + draw(chance(20) ? 40 : 14);
    int nsplit = 0, nbad = 0, nneg = 0, n2d = 0, ndestroy = 0, nnest = 0, nuse = 0, nq = 0;
    auto live = [&](bool own) {
        vector<int> c;
        for (size_t t = own ? nbuilt : 0; t < T.size(); t++)
            if (T[t].live && !T[t].m.empty()) c.push_back((int)t);
        return c;
    };
    for (int i = 0; i < nev; i++) {
        Event e;
        e.ev = pickw({8, 3, 4, 3, 3, 2, 2, 2});
        if (e.ev == SPLIT || e.ev == BAD) {
            e.parent = pickv(live(false));
            int n = (int)T[e.parent].m.size();
            if (T.size() > 60) continue;
            e.cfg = draw(3) ? 0 : 1 + draw(5);
            e.mask = draw(2);
            Team c;
            if (e.ev == SPLIT) {
                e.s = draw(n);
                if (chance(10)) { // descending
                    e.st = -1 - (int)draw(2);
                    e.sz = 1 + draw((uint32_t)(e.s / -e.st + 1));
                    e.either = true;
                    nneg++;
                } else {
                    e.st = 1 + draw(chance(30) ? n + 2 : 3);
                    e.sz = 1 + draw((uint32_t)((n - 1 - e.s) / e.st + 1));
                    if (e.sz == 1 && chance(15)) e.st = 0, e.either = true;
                }
                for (int k = 0; k < e.sz; k++) c.m.push_back(T[e.parent].m[e.s + k * e.st]);
                nsplit++;
                if (e.parent >= nbuilt) nnest++;
            } else {
                e.ok = false;
                switch (draw(8)) {
                case 0: e.s = -1 - (int)draw(3), e.st = 1, e.sz = 1 + draw(n + 2); break;
                case 1: e.s = n + draw(3), e.st = 1, e.sz = 1; break;
                case 2: e.s = draw(n), e.st = 1 + draw(3), e.sz = (n - 1 - e.s) / e.st + 2 + draw(3); break;
                case 3: e.s = draw(n), e.st = draw(3), e.sz = 0; break;
                case 4: e.s = draw(n), e.st = 1 + draw(2), e.sz = -1 - (int)draw(3); break;
                case 5: e.s = draw(n), e.st = 0, e.sz = 2 + draw(3); break;
                case 6: e.s = draw(n), e.st = 0x40000000, e.sz = 5 + 4 * draw(3); break;
                case 7: e.s = 0, e.st = 1, e.sz = 1, e.parent = -1; break;
                }
                nbad++;
            }
            c.nctx = e.mask && e.cfg ? e.cfg : 0;
            e.child = (int)T.size();
            desc("team %d = split_strided(team %d, %d, %d, %d, config %d, mask %d) -> %s", e.child, e.parent, e.s, e.st, e.sz, e.cfg, e.mask, e.ok ? members(c.m).c_str() : "error");
            if (!e.ok) c.live = false, c.m.clear();
            T.push_back(c);
        } else if (e.ev == SPLIT2) {
            e.parent = pickv(live(false));
            int n = (int)T[e.parent].m.size();
            if (T.size() > 60) continue;
            e.sz = 1 + draw(n + 3);
            e.cfg = draw(3) ? 0 : 1 + draw(5);
            e.mask = draw(2);
            e.cfg2 = draw(3) ? 0 : 1 + draw(5);
            e.mask2 = draw(2);
            int x = std::min(e.sz, n);
            e.child = (int)T.size();
            int ny = (n + x - 1) / x;
            string d;
            for (int r = 0; r < ny; r++) {
                Team c;
                for (int k = r * x; k < std::min(n, (r + 1) * x); k++) c.m.push_back(T[e.parent].m[k]);
                c.nctx = e.mask && e.cfg ? e.cfg : 0;
                T.push_back(c);
                e.ychild.push_back(0);
                d += members(c.m);
            }
            d += " and ";
            for (int q = 0; q < x; q++) {
                Team c;
                for (int k = q; k < n; k += x) c.m.push_back(T[e.parent].m[k]);
                c.nctx = e.mask2 && e.cfg2 ? e.cfg2 : 0;
                T.push_back(c);
                e.ychild.push_back(1);
                d += members(c.m);
            }
            n2d++;
            if (e.parent >= nbuilt) nnest++;
            desc("teams %d.. = split_2d(team %d, %d) -> %s", e.child, e.parent, e.sz, d.c_str());
        } else if (e.ev == DESTROY) {
            vector<int> c = live(true);
            if (chance(10) || c.empty()) {
                e.child = -1 - (int)draw(3);
                desc("destroy the %s team", e.child == -1 ? "world" : e.child == -2 ? "shared" : "invalid");
            } else {
                e.child = pickv(c);
                T[e.child].live = false;
                ndestroy++;
                desc("destroy team %d", e.child);
            }
        } else if (e.ev == QUERY) {
            e.who = draw(np);
            e.k = draw(2);
            nq++;
            desc("PE %d queries all teams", e.who);
        } else if (e.ev == USE) {
            e.child = pickv(live(false));
            e.k = draw(4);
            e.who = nuse;
            nuse++;
            desc("team %d: %s", e.child, e.k == 0 ? "fcollect" : e.k == 1 ? "sum" : e.k == 2 ? "broadcast" : "sync");
        } else if (e.ev == PAUSE) {
            e.who = draw(np);
            e.k = 1 + draw(40);
            desc("PE %d computes %d", e.who, e.k);
        } else {
            e.who = draw(np);
            e.k = draw(np);
            total[e.k] += 3;
            desc("PE %d adds to a counter of PE %d with fetch_add", e.who, e.k);
        }
        evs.push_back(e);
    }
    for (size_t t = 0; t < T.size(); t++) T[t].live = !T[t].m.empty();
    run_case(sp, [&](int me) {
        call("shmem_init");
        heap[me] = call<char *>("shmem_calloc", (size_t)1, (size_t)8192);
        if (!heap[me]) fail("shmem_calloc failed");
        th[0][me] = O_TEAM_WORLD;
        vector<char> live(T.size(), 0);
        live[0] = 1;
        for (int t = 1; t < nbuilt; t++) {
            th[t][me] = has(T[t].m, me) ? O_TEAM_SHARED : nullptr;
            live[t] = 1;
        }
        call("shmem_barrier_all");
        int use = 0;
        auto got = [&](int t, void *h, const char *what) {
            bool in = has(T[t].m, me);
            if (in != (h != nullptr)) fail("PE %d: %s gave %s handle for team %d", me, what, h ? "a valid" : "an invalid", t);
            th[t][me] = h;
            live[t] = 1;
        };
        for (auto &e : evs) { if (e.ev == USE) use++; switch (e.ev) {
            case SPLIT: case BAD: {
                if (e.parent >= 0 && !live[e.parent]) break; // the parent's creation was refused
                if (e.parent >= 0 && !has(T[e.parent].m, me)) {
                    th[e.child][me] = nullptr;
                    if (e.ok) live[e.child] = 1;
                    break;
                }
                void *h = (void *)0x5a5a;
                struct { int n; } cfg = {e.cfg};
                int rc = call<int>("shmem_team_split_strided", e.parent < 0 ? nullptr : th[e.parent][me], e.s, e.st, e.sz, e.cfg || e.mask ? (const void *)&cfg : nullptr, (long)e.mask, &h);
                if (!e.ok || (e.either && rc)) { // an invalid triplet (or one an implementation may refuse)
                    if (!rc) fail("PE %d: shmem_team_split_strided(%d,%d,%d) of team %d returned 0 for an invalid request", me, e.s, e.st, e.sz, e.parent);
                    if (h) fail("PE %d: failed shmem_team_split_strided left a handle", me);
                    if (e.ok) { // refused everywhere
                        th[e.child][me] = nullptr;
                        T[e.child].nctx = -1;
                    }
                    break;
                }
                if (e.ok && T[e.child].nctx == -1) fail("PE %d: shmem_team_split_strided returned 0 here and an error elsewhere", me);
                if (rc) fail("PE %d: shmem_team_split_strided(%d,%d,%d) of team %d returned %d", me, e.s, e.st, e.sz, e.parent, rc);
                got(e.child, h, "shmem_team_split_strided");
                break;
            }
            case SPLIT2: {
                if (!live[e.parent]) break;
                for (size_t k = 0; k < e.ychild.size(); k++) th[e.child + k][me] = nullptr, live[e.child + k] = 1;
                if (!has(T[e.parent].m, me)) break;
                void *hx = (void *)0x5a5a, *hy = (void *)0x5a5a;
                struct { int n; } c1 = {e.cfg}, c2 = {e.cfg2};
                int rc = call<int>("shmem_team_split_2d", th[e.parent][me], e.sz, e.cfg || e.mask ? (const void *)&c1 : nullptr, (long)e.mask, &hx, e.cfg2 || e.mask2 ? (const void *)&c2 : nullptr, (long)e.mask2, &hy);
                if (rc) fail("PE %d: shmem_team_split_2d returned %d", me, rc);
                for (size_t k = 0; k < e.ychild.size(); k++) {
                    int t = e.child + (int)k;
                    if (has(T[t].m, me)) got(t, e.ychild[k] ? hy : hx, "shmem_team_split_2d");
                }
                break;
            }
            case DESTROY:
                if (e.child < 0) call("shmem_team_destroy", e.child == -1 ? O_TEAM_WORLD : e.child == -2 ? O_TEAM_SHARED : (void *)nullptr);
                else {
                    if (!live[e.child]) break;
                    live[e.child] = 0;
                    if (has(T[e.child].m, me)) call("shmem_team_destroy", th[e.child][me]);
                }
                break;
            case QUERY:
                if (e.who != me) break;
                query(me, live, true);
                if (e.k) { // arguments outside any team
                    int n = np;
                    for (int bad : {-1, -2, n, n + 7, 0x7fffffff}) {
                        int w = call<int>("shmem_team_translate_pe", O_TEAM_WORLD, bad, O_TEAM_SHARED);
                        if (w != -1) fail("PE %d: shmem_team_translate_pe(world, %d, shared) is %d, expected -1", me, bad, w);
                    }
                }
                break;
            case USE: {
                if (!live[e.child] || !has(T[e.child].m, me)) break;
                const vector<int> &m = T[e.child].m;
                void *h = th[e.child][me];
                long *src = (long *)heap[me] + 8 + (use % 16) * 16, *dst = src + 1;
                *src = 1000 + me * 7 + use;
                int rc;
                if (e.k == 3) { // nobody leaves before everybody has entered
                    entered[e.who]++;
                    if ((rc = call<int>("shmem_team_sync", h))) fail("PE %d: shmem_team_sync of team %d returned %d", me, e.child, rc);
                    if (entered[e.who] < (int)m.size()) fail("PE %d left shmem_team_sync of team %d when only %d of its %zu PEs had entered it", me, e.child, entered[e.who], m.size());
                    break;
                }
                if (e.k == 0) rc = call<int>("shmem_long_fcollect", h, dst, (const long *)src, (size_t)1);
                else if (e.k == 1) rc = call<int>("shmem_long_sum_reduce", h, dst, (const long *)src, (size_t)1);
                else rc = call<int>("shmem_long_broadcast", h, dst, (const long *)src, (size_t)1, (int)m.size() - 1);
                if (rc) fail("PE %d: collective on team %d returned %d", me, e.child, rc);
                long sum = 0;
                for (size_t k = 0; k < m.size(); k++) {
                    long v = 1000 + m[k] * 7 + use;
                    sum += v;
                    if (e.k == 0 && dst[k] != v) fail("PE %d: fcollect on team %d: element %zu is %ld, expected %ld of PE %d", me, e.child, k, dst[k], v, m[k]);
                }
                if (e.k == 1 && dst[0] != sum) fail("PE %d: sum on team %d is %ld, expected %ld", me, e.child, dst[0], sum);
                if (e.k == 2 && dst[0] != 1000 + m.back() * 7 + use) fail("PE %d: broadcast on team %d gave %ld, expected that of PE %d", me, e.child, dst[0], m.back());
                break;
            }
            case PAUSE:
                if (e.who == me) compute(e.k);
                break;
            case AMO:
                if (e.who == me) call<long>("shmem_long_atomic_fetch_add", (long *)heap[me], 3L, e.k);
                break;
            }}
        query(me, live, true);
        call("shmem_barrier_all");
        if (*(long *)heap[me] != total[me]) fail("PE %d: counter is %ld, expected %ld", me, *(long *)heap[me], total[me]);
        if (evs.size() % 2)
            for (size_t t = nbuilt; t < T.size(); t++)
                if (live[t] && has(T[t].m, me)) call("shmem_team_destroy", th[t][me]);
        call("shmem_finalize");
    });
    const int v[] = {nsplit, n2d, nnest, nbad, nneg, ndestroy, nuse, nq};
    for (int i = 0; i < 8; i++) count(i, v[i]);
    if (np > 1 && nsplit + n2d >= 2) nontrivial();
}
RegProp r17("C17", c17, "Random sequence of strided and 2-D splits of the world, shared and earlier teams with valid and invalid arguments and configurations, destroys, queries of every pair of teams and collectives on them, against a membership model; non-trivial: more than one PE and at least two splits.",
            {"strided splits", "2-D splits", "splits of split teams", "invalid requests", "descending or zero strides", "destroyed teams", "collectives and syncs on teams", "query rounds"});
} // namespace
