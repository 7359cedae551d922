// C22: initialisation, finalisation, global exit.
#define SIM_NO_ANCHORS
#include "drf.hpp"
#include <algorithm>
#include <memory>
#include <mpi.h>
using std::string;
using std::vector;
namespace {
enum { T_PUT, T_PUTNBI, T_P, T_IPUT, T_ADD, T_FADD, T_SET, T_GET, T_GETNBI, T_FETCH, T_WAITSIG, T_COMPUTE, T_QUIET, T_BAR, T_QUERY, T_REINIT, T_FADDNBI, NT };
const char *TN[] = {"put", "put_nbi", "p", "iput", "atomic_add", "atomic_fetch_add", "atomic_set", "get", "get_nbi", "atomic_fetch", "", "compute", "quiet", "barrier_all", "query", "init again", "atomic_fetch_add_nbi"};
struct Op {
    int kind, target, n, off, v;
    bool heap;
};
int np;
char *heap[MAXPE];
constexpr size_t SLOT = 1024, SLOTS = 1024; // regions: [0,64) counters, then one slot per writer
unsigned char expect_[2][MAXPE][SLOTS + MAXPE * SLOT];
long cnt[2][MAXPE][8];
int n_pending, n_user, n_reinit, n_implicit, n_late, n_exit;
bool atfini[MAXPE], done_[MAXPE];
int provided0[MAXPE];
vector<std::unique_ptr<unsigned char[]>> keep[MAXPE];
struct Pend {
    unsigned char *b;
    int target, off, n;
};
vector<Pend> gets[MAXPE];
char *area(int pe, bool h) { return h ? heap[pe] : (char *)pe_sym(pe, "oshv_sdata"); }
unsigned char cval(int pe, int i) { return (unsigned char)(i * 5 + pe * 31 + 9); }
int cfg_level() { return g_cfg == "fast" ? 0 : g_cfg == "dynwin" ? 1 : g_cfg == "mt" || g_cfg.compare(0, 3, "thr") == 0 ? 3 : 2; }
void do_op(int me, const Op &o) {
    int q = o.target;
    char *a = area(me, o.heap);
    char *w = a + SLOTS + me * SLOT + o.off;
    unsigned char *x = expect_[o.heap][q] + SLOTS + me * SLOT + o.off;
    if (atfini[q]) n_late++;
    switch (o.kind) {
    case T_PUT:
    case T_PUTNBI: {
        unsigned char *b = new unsigned char[o.n];
        keep[me].emplace_back(b);
        for (int i = 0; i < o.n; i++) x[i] = b[i] = (unsigned char)(o.v + i * 3);
        call(o.kind == T_PUT ? "shmem_putmem" : "shmem_putmem_nbi", (void *)w, (const void *)b, (size_t)o.n, q);
        if (o.kind == T_PUT) memset(b, 0xee, o.n);
        n_pending++;
        break;
    }
    case T_P: {
        short v = (short)o.v;
        memcpy(x, &v, 2);
        call("shmem_short_p", (short *)w, v, q);
        n_pending++;
        break;
    }
    case T_IPUT: {
        short b[200];
        int m = (o.n + 5) / 6;
        for (int i = 0; i < m; i++) {
            b[i] = (short)(o.v + i);
            memcpy(x + i * 6, &b[i], 2);
        }
        call("shmem_short_iput", (short *)w, (const short *)b, (ptrdiff_t)3, (ptrdiff_t)1, (size_t)m, q);
        n_pending++;
        break;
    }
    case T_ADD:
    case T_FADD: {
        long *c = (long *)a + (o.off / 8) % 8;
        cnt[o.heap][q][(o.off / 8) % 8] += o.v;
        if (o.kind == T_ADD) {
            call("shmem_long_atomic_add", c, (long)o.v, q);
            n_pending++;
        } else
            call<long>("shmem_long_atomic_fetch_add", c, (long)o.v, q);
        break;
    }
    case T_SET: {
        long v = o.v;
        memcpy(x, &v, 8);
        call("shmem_long_atomic_set", (long *)w, v, q);
        n_pending++;
        break;
    }
    case T_GET: {
        vector<unsigned char> b(o.n);
        call("shmem_getmem", (void *)b.data(), (const void *)((char *)pe_sym(me, "oshv_sbss") + o.off), b.size(), q);
        for (int i = 0; i < o.n; i++)
            if (b[i] != cval(q, o.off + i)) fail("PE %d: get from PE %d returned a wrong byte", me, q);
        break;
    }
    case T_GETNBI: {
        unsigned char *b = new unsigned char[o.n];
        memset(b, 0, o.n);
        keep[me].emplace_back(b);
        call("shmem_getmem_nbi", (void *)b, (const void *)((char *)pe_sym(me, "oshv_sbss") + o.off), (size_t)o.n, q);
        gets[me].push_back({b, q, o.off, o.n});
        n_pending++;
        break;
    }
    case T_FETCH: call<long>("shmem_long_atomic_fetch", (const long *)a, q); break;
    case T_COMPUTE: compute(o.n); break;
    case T_QUIET: call("shmem_quiet"); break;
    case T_QUERY: {
        if (call<int>("shmem_my_pe") != me || call<int>("shmem_n_pes") != np) fail("PE %d: my_pe or n_pes changed", me);
        int t = -7;
        call("shmem_query_thread", &t);
        if (t != provided0[me]) fail("PE %d: shmem_query_thread gives %d, initialisation provided %d", me, t, provided0[me]);
        break;
    }
    case T_REINIT: {
        n_reinit++;
        switch (o.v % 3) {
        case 0: call("shmem_init"); break;
        case 1: {
            int p = -7;
            int r = call<int>("shmem_init_thread", o.v % 4, &p);
            if (p != provided0[me]) fail("PE %d: repeated shmem_init_thread provided %d, the first one %d", me, p, provided0[me]);
            if ((r == 0) != (o.v % 4 <= p)) fail("PE %d: repeated shmem_init_thread(%d) returned %d with %d provided", me, o.v % 4, r, p);
            break;
        }
        case 2: call("start_pes", 0); break;
        }
        if (call<int>("shmem_my_pe") != me || call<int>("shmem_n_pes") != np) fail("PE %d: my_pe or n_pes changed by a repeated init", me);
        break;
    }
    }
}
string show(const Op &o) {
    if (o.kind == T_COMPUTE) return fmt("compute %d", o.n);
    if (o.kind == T_QUIET || o.kind == T_QUERY || o.kind == T_BAR) return TN[o.kind];
    if (o.kind == T_REINIT) return fmt("%s %d", TN[o.kind], o.v % 12);
    return fmt("%s->%d %s+%d n %d v %d", TN[o.kind], o.target, o.heap ? "heap" : "static", o.off, o.n, o.v);
}
void c22() {
    np = chance(5) ? 7 + draw(4) : 1 + pickw({1, 3, 3, 2, 1, 1});
    SimParams sp = draw_sim(np, 0);
    sp.provided = pickw({3, 1, 1, 1}) ? (int)draw(4) : 3;
    desc("%s provided=%d", sim_str(sp).c_str(), sp.provided);
    draw_env_modes(40, true, true);
    bool async = g_cfg.compare(0, 3, "thr") == 0 && chance(50); // with the progress thread, which needs the highest level
    if (g_cfg.compare(0, 3, "thr") == 0) setenv_case("OSHMPI_ENABLE_ASYNC_THREAD", async ? "1" : "0");
    setenv("SHMEM_SYMMETRIC_SIZE", "65536", 1);
    int form = pickw({4, 5, 3}); // shmem_init, shmem_init_thread, start_pes
    int req = form == 1 ? (int)draw(4) : 0;
    bool bad = form == 1 && chance(3);
    if (bad) req = pick<int>({-1, 4, 77, 1 << 30});
    bool user = chance(35);
    int ulev = draw(4);
    bool low = async && !bad && (!user || (sp.seed & 1) ? sp.provided : std::min(ulev, sp.provided)) < 3;
    bool gexit = !bad && !low && chance(12);
    bool implicit = !gexit && form == 2 && chance(50);
    int nfin = implicit ? 0 : 1 + draw(2);
    bool atex = form == 2 && (implicit || chance(50));
    desc("%s%s%s%s", user ? fmt("MPI initialised by the user (level %d), ", ulev).c_str() : "", form == 0 ? "shmem_init" : form == 1 ? fmt("shmem_init_thread(%d)", req).c_str() : "start_pes",
         implicit ? ", finalised at exit" : fmt(", %d finalize call(s)", nfin).c_str(), atex && !implicit ? ", then exit" : "");
    memset(expect_, 0, sizeof expect_);
    vector<vector<Op>> ops(np);
    int phases = 1 + draw(2);
    vector<vector<vector<Op>>> prog(phases, vector<vector<Op>>(np));
    int cursor[2][MAXPE][MAXPE] = {};
    for (int f = 0; f < phases; f++)
        for (int p = 0; p < np; p++) {
            int n = draw(chance(20) ? 16 : 6);
            for (int i = 0; i < n; i++) {
                Op o;
                o.kind = pick<int>({T_PUT, T_PUTNBI, T_P, T_IPUT, T_ADD, T_ADD, T_FADD, T_SET, T_GET, T_GETNBI, T_FETCH, T_COMPUTE, T_COMPUTE, T_QUIET, T_QUERY, T_REINIT});
                o.target = draw(np);
                o.heap = draw(2);
                o.n = 1 + draw(chance(10) ? 600 : 24);
                o.v = 1 + draw(10000);
                if (o.kind == T_COMPUTE) o.n = draw(chance(20) ? 1500 : 50);
                if (o.kind == T_GET || o.kind == T_GETNBI) o.off = draw(2000);
                else if (o.kind == T_ADD || o.kind == T_FADD) o.off = draw(8) * 8;
                else {
                    int &c = cursor[o.heap][p][o.target];
                    c = (c + 7) / 8 * 8;
                    int len = o.kind == T_P ? 2 : o.kind == T_SET ? 8 : o.kind == T_IPUT ? o.n + 6 : o.n;
                    if (c + len > (int)SLOT - 8) continue;
                    o.off = c;
                    if (o.kind <= T_IPUT || o.kind == T_SET) c += len;
                }
                desc("phase %d PE %d: %s", f, p, show(o).c_str());
                prog[f][p].push_back(o);
            }
        }
    int exit_pe = -1, exit_at = 0, exit_code = 0, nexit2 = 0;
    if (gexit) {
        exit_pe = draw(np);
        exit_at = draw((uint32_t)prog[phases - 1][exit_pe].size() + 1);
        exit_code = pickw({3, 1}) ? pick<int>({0, 1, 2, 255, 127}) : (int)draw(256);
        nexit2 = draw(2);
        desc("PE %d calls shmem_global_exit(%d) in phase %d before its operation %d%s", exit_pe, exit_code, phases - 1, exit_at, nexit2 ? "" : " (others may be waiting in finalize)");
    }
    int levels[MAXPE];
    vector<bool> exits(256, false);
    auto body = [&](int me) {
        void *world = pe_sym(me, "sim_comm_world");
        int lev = sp.provided;
        if (user) {
            MPI_Init_thread(nullptr, nullptr, ulev, &levels[me]);
            lev = levels[me];
            if (chance(0)) return;
        }
        int prov = -7, want = -1;
        switch (form) {
        case 0: call("shmem_init"); break;
        case 1: {
            int r = call<int>("shmem_init_thread", req, &prov);
            if (bad) fail("PE %d: shmem_init_thread accepted the level %d", me, req);
            want = std::min(std::min(async ? 3 : req, cfg_level()), lev);
            if (prov != want) fail("PE %d: shmem_init_thread(%d) provided %d, expected %d (library %d, MPI %d)", me, req, prov, want, cfg_level(), lev);
            if ((r == 0) != (prov >= req)) fail("PE %d: shmem_init_thread(%d) returned %d with %d provided", me, req, r, prov);
            break;
        }
        case 2: call("start_pes", me % 2 ? 0 : np); break;
        }
        if (low) fail("PE %d: initialisation accepted the asynchronous progress thread with MPI level %d", me, lev);
        int t = -7;
        call("shmem_query_thread", &t);
        if (form == 1 && t != prov) fail("PE %d: shmem_query_thread gives %d, initialisation provided %d", me, t, prov);
        if (t < 0 || t > 3 || t > lev) fail("PE %d: shmem_query_thread gives %d with MPI level %d", me, t, lev);
        provided0[me] = t;
        if (!sim_mpi_initialized(me)) fail("PE %d: MPI is not initialised after init", me);
        if (call<int>("shmem_my_pe") != me || call<int>("shmem_n_pes") != np) fail("PE %d of %d: my_pe %d n_pes %d", me, np, call<int>("shmem_my_pe"), call<int>("shmem_n_pes"));
        int live0[6] = {};
        heap[me] = call<char *>("shmem_malloc", (size_t)(SLOTS + MAXPE * SLOT));
        if (!heap[me]) fail("shmem_malloc failed");
        memset(heap[me], 0, SLOTS + MAXPE * SLOT);
        memset(pe_sym(me, "oshv_sdata"), 0, SLOTS + MAXPE * SLOT);
        for (int i = 0; i < 4096; i++) ((unsigned char *)pe_sym(me, "oshv_sbss"))[i] = cval(me, i);
        call("shmem_barrier_all");
        sim_live(me, live0);
        for (int f = 0; f < phases; f++) {
            int k = 0;
            for (auto &o : prog[f][me]) {
                if (gexit && me == exit_pe && f == phases - 1 && k == exit_at) break;
                do_op(me, o);
                k++;
            }
            if (gexit && f == phases - 1) {
                if (me == exit_pe) {
                    n_exit++;
                    call("shmem_global_exit", exit_code);
                    fail("PE %d: shmem_global_exit returned", me);
                }
                break;
            }
            if (f + 1 < phases) call("shmem_barrier_all");
        }
        // heap memory is inspected before it goes away only by the implicit barrier's guarantee on static memory
        atfini[me] = true;
        for (int i = 0; i < nfin; i++) call("shmem_finalize");
        if (atex) call("oshv_run_atexit");
        if (implicit) n_implicit++;
        if (gexit) fail("PE %d left finalize before PE %d reached it", me, exit_pe);
        for (int q = 0; q < np; q++)
            if (!atfini[q]) fail("PE %d left finalize before PE %d entered it", me, q);
        unsigned char *s = (unsigned char *)pe_sym(me, "oshv_sdata");
        for (int c = 0; c < 8; c++)
            if (((long *)s)[c] != cnt[0][me][c]) fail("PE %d: counter %d holds %ld after finalize, expected %ld", me, c, ((long *)s)[c], cnt[0][me][c]);
        for (int i = SLOTS; i < (int)(SLOTS + np * SLOT); i++)
            if (s[i] != expect_[0][me][i]) fail("PE %d: an update of PE %d is missing after finalize (byte %d of its static data is %02x, expected %02x)", me, (i - (int)SLOTS) / (int)SLOT, i, s[i], expect_[0][me][i]);
        for (auto &g : gets[me])
            for (int i = 0; i < g.n; i++)
                if (g.b[i] != cval(g.target, g.off + i)) fail("PE %d: get_nbi from PE %d has not delivered byte %d after finalize", me, g.target, i);
        if (user) {
            n_user++;
            if (sim_mpi_finalized(me)) fail("PE %d: finalize ended the MPI library that the user initialised", me);
            int left[6];
            sim_live(me, left);
            static const char *kn[] = {"communicator", "group", "window", "datatype", "request", "info"};
            for (int i = 0; i < 6; i++)
                if (left[i]) fail("PE %d: %d MPI %s object(s) remain after finalize", me, left[i], kn[i]);
            MPI_Barrier((MPI_Comm)world);
            MPI_Finalize();
        } else if (!sim_mpi_finalized(me))
            fail("PE %d: finalize left the MPI library it had initialised", me);
        done_[me] = true;
    };
    SimResult r;
    if (gexit || bad || low) {
        r = run_raw(sp, body);
        if (r.outcome == SIM_LIMIT) discard();
        if (bad) {
            if (r.outcome != SIM_ABORT || r.code == 0) fail("initialisation with level %d: outcome %d, %s", req, r.outcome, r.msg.c_str());
            if (captured_output().find("thread") == string::npos) fail("initialisation with level %d: no diagnostic", req);
        } else if (low) {
            if (r.outcome != SIM_ABORT || r.code == 0) fail("initialisation with the asynchronous thread and too low a level: outcome %d, %s", r.outcome, r.msg.c_str());
            if (captured_output().find("THREAD_MULTIPLE") == string::npos) fail("initialisation with the asynchronous thread and too low a level: no diagnostic");
        } else {
            if (r.outcome != SIM_ABORT) fail("shmem_global_exit: outcome %d, %s", r.outcome, r.msg.c_str());
            if (r.code != exit_code) fail("shmem_global_exit(%d) ended the program with status %d: %s", exit_code, r.code, r.msg.c_str());
        }
    } else
        run_case(sp, body);
    count(0, n_pending);
    count(1, n_late);
    count(2, n_user);
    count(3, n_reinit);
    count(4, n_implicit);
    count(5, n_exit);
    if (n_pending && np > 1) nontrivial();
}
RegProp r22("C22", c22, "Random lives: MPI initialised by the user or not, every form and level of init, repeated init/finalize, implicit finalize, global exit, traffic of every kind outstanding when the PEs enter finalize at different times; static memory, handles and MPI's state are inspected afterwards; non-trivial: at least two PEs and one operation not completed by the program itself.",
            {"operations without completion by the program", "operations on a PE inside finalize", "PEs with MPI initialised by the user", "repeated inits", "implicit finalizations", "global exits"});
} // namespace
