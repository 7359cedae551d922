// C24: environment variables.
#include "drf.hpp"
#include <algorithm>
#include <set>
using std::string;
using std::vector;
namespace {
typedef unsigned __int128 u128;
const char *AMO[] = {"cswap", "finc", "inc", "fadd", "add", "fetch", "set", "swap", "fand", "and", "for", "or", "fxor", "xor"};
const char *GPU[] = {"pt2pt", "put", "get", "acc"};
// ceil(digits / 10^frac * 2^shift)
u128 exact(const string &digits, int frac, int shift) {
    u128 v = 0, d = 1;
    for (char c : digits) v = v * 10 + (c - '0');
    for (int i = 0; i < frac; i++) d *= 10;
    v <<= shift;
    return (v + d - 1) / d;
}
string size_str(u128 *want, int *kind) {
    // kinds: 0 plain, 1 suffix, 2 fraction with suffix, 3 fraction without suffix, 4 unset/empty, 5 malformed, 6 unsatisfiable
    int k = *kind = pickw({5, 5, 6, 1, 1, 2, 2});
    static const char up[] = "KMGT", lo[] = "kmgt";
    auto num = [](uint64_t v) { return std::to_string(v); };
    switch (k) {
    case 0: {
        uint64_t v = 1 + (pickw({2, 2, 2, 1}) == 0 ? draw(100000) : chance(50) ? draw(70000000) : (1u << 24) + draw(3000));
        *want = v;
        string s = num(v);
        if (chance(10)) s = "000" + s;
        return s;
    }
    case 1: {
        int u = draw(4);
        uint64_t v = u == 0 ? 1 + draw(chance(30) ? 200000 : 600) : u == 1 ? 1 + draw(200) : u == 2 ? 1 : 0;
        if (u == 3) v = 0, u = 1 + draw(2), v = 1;
        *want = (u128)v << (10 * (u + 1));
        string s = num(v) + (chance(50) ? up : lo)[u];
        if (chance(15)) s += pick({"k", "B", "iB", " bytes", "M"});
        return s;
    }
    case 2: {
        int u = draw(4);
        int nd = 1 + draw(8);
        uint64_t whole = u == 0 ? draw(3000) : u == 1 ? draw(60) : 0;
        uint64_t fr = 0;
        string fs;
        int zeros = u == 2 ? draw(2) : u == 3 ? 3 + draw(2) : 0;
        for (int i = 0; i < nd + zeros; i++) fs += i < zeros ? '0' : (char)('0' + draw(10));
        if (fs.find_first_not_of('0') == string::npos) fs += '5';
        (void)fr;
        string ws = whole || chance(70) ? num(whole) : "";
        *want = exact(num(whole) + fs, (int)fs.size(), 10 * (u + 1));
        return ws + "." + fs + (chance(50) ? up : lo)[u];
    }
    case 3: {
        uint64_t v = 1000 + draw(1000000);
        *want = (u128)v + 1;
        return num(v) + pick({".5", ".25", ".000001", ".9"});
    }
    case 4: return "";
    case 5: return pick<const char *>({"abc", "-1", "-4096", "-3M", "K", "m", "huge", "nan", "-inf", "x100", "-0.5G"});
    default: return pick<const char *>({"100000T", "9999999T", "16777216T", "99999999T", "20000000T", "99999999999999999999999", "18446744073709551615", "9223372036854775807", "1e30T", "inf", "33554432.5T", "9007199254740993G"});
    }
}
int n_exact, n_reject, n_switch, n_list, n_default;
void c24() {
    int np = 1 + pickw({3, 4, 2});
    SimParams sp = draw_sim(np, 0);
    desc("%s", sim_str(sp).c_str());
    u128 want = 0;
    int kind = 0;
    string sz = size_str(&want, &kind);
    if (kind != 4 || chance(50)) setenv_case("SHMEM_SYMMETRIC_SIZE", sz.c_str());
    else unsetenv("SHMEM_SYMMETRIC_SIZE");
    if (kind == 4) want = 128u << 20;
    auto boolean = [&](const char *name, bool *on) {
        *on = false;
        switch (pickw({3, 3, 1, 1})) {
        case 0: break;
        case 1: {
            const char *v = pick<const char *>({"1", "1", "1", "2", "-1", "01", "10"});
            *on = true;
            setenv_case(name, v);
            n_switch++;
            break;
        }
        case 2: setenv_case(name, "0"); n_switch++; break;
        case 3: setenv_case(name, ""); break;
        }
    };
    bool debug, version, info, verbose;
    boolean("SHMEM_DEBUG", &debug);
    boolean("SHMEM_VERSION", &version);
    boolean("SHMEM_INFO", &info);
    boolean("OSHMPI_VERBOSE", &verbose);
    if (chance(20)) setenv_case("OSHMPI_ENABLE_MPI_T", pick({"0", "1", ""}));
    auto list = [&](const char *name, const char **all, int n, std::set<string> *got) {
        switch (pickw({2, 2, 1, 4, 1})) {
        case 0: got->insert(all, all + n); break;
        case 1: got->insert(all, all + n); setenv_case(name, "all"); n_list++; break;
        case 2: setenv_case(name, "none"); n_list++; break;
        case 3: {
            string s;
            int m = 1 + draw(chance(70) ? 3 : n);
            for (int i = 0; i < m; i++) {
                string t = all[draw(n)];
                got->insert(t);
                if (!s.empty()) s += ",";
                s += t;
                if (chance(10)) s += pick({",bogus", ",,", ",", ",7", ",Zorro"});
            }
            setenv_case(name, s.c_str());
            n_list++;
            break;
        }
        case 4: got->insert(all, all + n); setenv_case(name, ""); break;
        }
    };
    std::set<string> amo, gpu;
    list("OSHMPI_AMO_OPS", AMO, 14, &amo);
    list("OSHMPI_MPI_GPU_FEATURES", GPU, 4, &gpu);
    string amode = "auto", rmode = "auto";
    if (chance(25)) setenv_case("OSHMPI_AMO_DBG_MODE", (amode = pick<const char *>({"am", "direct", "auto"})).c_str());
    if (chance(25)) setenv_case("OSHMPI_RMA_DBG_MODE", (rmode = pick<const char *>({"am", "direct", "auto"})).c_str());
    bool reject = kind == 5 || kind == 6;
    // the classes of MPI accumulate operation that the promised atomics need
    std::set<string> cls;
    for (auto &a : amo) cls.insert(a == "cswap" ? a : a == "fetch" ? a : a == "set" || a == "swap" ? "swap" : a[0] == 'f' ? (a == "finc" || a == "fadd" ? string("add") : a.substr(1)) : a == "inc" ? "add" : a);
    bool direct = cls.size() == 1 || (cls.size() == 2 && cls.count("fetch"));
    if (g_cfg == "am") direct = false;
    if (g_cfg == "direct") direct = true;
    if (g_cfg != "fast" && g_cfg != "am" && g_cfg != "direct") {
        if (amode == "am") direct = false;
        if (amode == "direct") direct = true;
    }
    vector<string> use(amo.begin(), amo.end());
    int rounds = 1 + draw(4);
    vector<int> what;
    if (!use.empty())
        for (int i = 0; i < rounds; i++) what.push_back(draw((uint32_t)use.size()));
    uint64_t sends = 0;
    int arrived = 0;
    auto body = [&](int me) {
        call("shmem_init");
        if (reject) fail("PE %d: SHMEM_SYMMETRIC_SIZE \"%s\" was accepted", me, sz.c_str());
        void *ge = pe_sym(me, "__wrap_getenv");
        for (const char *v : {"SHMEM_SYMMETRIC_SIZE", "OSHMPI_AMO_OPS", "OSHMPI_MPI_GPU_FEATURES", "OSHMPI_AMO_DBG_MODE", "OSHMPI_RMA_DBG_MODE"}) {
            const char *o = getenv(v), *n = callp<const char *>(ge, v);
            if (string(o ? o : "(unset)") != (n ? n : "(unset)")) fail("PE %d: the program sees %s as \"%s\" after shmem_init, it was \"%s\"", me, v, n ? n : "(unset)", o ? o : "(unset)");
        }
        size_t S = (size_t)want;
        char *p = call<char *>("shmem_malloc", S);
        if (!p) fail("PE %d: SHMEM_SYMMETRIC_SIZE \"%s\": shmem_malloc(%zu) on the empty heap failed", me, sz.c_str(), S);
        p[0] = 1;
        p[S - 1] = (char)(100 + me);
        call("shmem_barrier_all");
        char c = 0;
        call("shmem_getmem", (void *)&c, (const void *)(p + S - 1), (size_t)1, (me + 1) % np);
        if (c != (char)(100 + (me + 1) % np)) fail("PE %d: the last byte of the heap of PE %d cannot be read", me, (me + 1) % np);
        call("shmem_barrier_all");
        call("shmem_free", (void *)p);
        p = call<char *>("shmem_malloc", S + 5 * 4096);
        if (p) fail("PE %d: SHMEM_SYMMETRIC_SIZE \"%s\": shmem_malloc(%zu) succeeded", me, sz.c_str(), S + 5 * 4096);
        // atomics that keep the promise of OSHMPI_AMO_OPS
        long *cell = (long *)pe_sym(me, "oshv_sdata");
        *cell = 0;
        call("shmem_barrier_all");
        if (arrived++ == 0) sends = sim_stats().sends;
        for (int w : what) {
            const string &o = use[w];
            unsigned long *u = (unsigned long *)cell;
            if (o == "cswap") call<unsigned long>("shmem_ulong_atomic_compare_swap", u, 0ul, 0ul, 0);
            else if (o == "finc") call<unsigned long>("shmem_ulong_atomic_fetch_inc", u, 0);
            else if (o == "inc") call("shmem_ulong_atomic_inc", u, 0);
            else if (o == "fadd") call<unsigned long>("shmem_ulong_atomic_fetch_add", u, 3ul, 0);
            else if (o == "add") call("shmem_ulong_atomic_add", u, 2ul, 0);
            else if (o == "fetch") call<unsigned long>("shmem_ulong_atomic_fetch", (const unsigned long *)u, 0);
            else if (o == "set") call("shmem_ulong_atomic_set", u, 7ul, 0);
            else if (o == "swap") call<unsigned long>("shmem_ulong_atomic_swap", u, 9ul, 0);
            else if (o[0] == 'f') call<unsigned long>(("shmem_ulong_atomic_fetch_" + o.substr(1)).c_str(), u, 6ul, 0);
            else call(("shmem_ulong_atomic_" + o).c_str(), u, 6ul, 0);
        }
        arrived++;
        while (arrived < 2 * np && !direct) { // the others may need this PE's service
            call("shmem_fence");
            call<long>("shmem_long_atomic_fetch", (const long *)cell, 0);
            sim_pause(2);
        }
        while (arrived < 2 * np) sim_pause(2);
        if (me == 0 && !what.empty()) {
            uint64_t n = sim_stats().sends - sends;
            if (direct && n) fail("the atomics go through active messages (%d messages) although OSHMPI_AMO_OPS allows direct ones", (int)n);
            if (!direct && !n) fail("the atomics use MPI accumulate operations although OSHMPI_AMO_OPS does not allow it");
        }
        long sum = 0;
        bool known = true;
        for (int w : what) {
            const string &o = use[w];
            sum += o == "finc" || o == "inc" ? 1 : o == "fadd" ? 3 : o == "add" ? 2 : 0;
            known &= o != "set" && o != "swap" && o != "cswap" && o.find("or") == string::npos && o.find("and") == string::npos;
        }
        call("shmem_barrier_all");
        if (known && me == 0 && *(volatile long *)cell != sum * np) fail("the atomics left %ld, expected %ld", *cell, sum * np);
        call("shmem_finalize");
    };
    if (reject) {
        SimResult r = run_raw(sp, body);
        if (r.outcome == SIM_LIMIT) discard();
        if (r.outcome != SIM_ABORT || r.code == 0) fail("SHMEM_SYMMETRIC_SIZE \"%s\": outcome %d code %d %s", sz.c_str(), r.outcome, r.code, r.msg.c_str());
        string o = captured_output();
        if (o.empty()) fail("SHMEM_SYMMETRIC_SIZE \"%s\" ended the program without a diagnostic", sz.c_str());
        n_reject++;
    } else {
        run_case(sp, body);
        string o = captured_output();
        bool dbg = debug && g_cfg != "fast";
        auto has = [&](const char *s) { return o.find(s) != string::npos; };
        if (!dbg && !version && !info && !verbose && !o.empty()) fail("output although every switch is off: %s", o.substr(0, 300).c_str());
        if (version != has("SHMEM_MAJOR_VERSION")) fail("SHMEM_VERSION is %s but the version was %sprinted", version ? "on" : "off", version ? "not " : "");
        if (dbg && o.empty()) fail("SHMEM_DEBUG is on but nothing was printed");
        if ((info || verbose) != has("SHMEM_SYMMETRIC_SIZE ")) fail("SHMEM_INFO is %s, OSHMPI_VERBOSE is %s but the variables were %sprinted", info ? "on" : "off", verbose ? "on" : "off", info || verbose ? "not " : "");
        if (verbose != has("OSHMPI_AMO_OPS")) fail("OSHMPI_VERBOSE is %s but the OSHMPI variables were %sprinted", verbose ? "on" : "off", verbose ? "not " : "");
        auto value = [&](const string &name) {
            size_t i = o.find(name + " ");
            if (i == string::npos) return string("(not printed)");
            i += name.size();
            while (i < o.size() && o[i] == ' ') i++;
            size_t j = o.find_first_of(" \n", i);
            return o.substr(i, j - i);
        };
        auto same = [&](const char *name, const string &w) {
            string g = value(name);
            if (g != w) fail("%s is reported as %s, expected %s", name, g.c_str(), w.c_str());
        };
        auto join = [](const std::set<string> &s, const char **all, int n) {
            string r;
            for (int i = 0; i < n; i++)
                if (s.count(all[i])) r += (r.empty() ? "" : ",") + string(all[i]);
            return r.empty() ? string("none") : r;
        };
        if (info || verbose) {
            unsigned long long g = strtoull(value("SHMEM_SYMMETRIC_SIZE").c_str(), nullptr, 10);
            if (g < want || g >= want + 4096) fail("SHMEM_SYMMETRIC_SIZE \"%s\" is reported as %llu, expected %llu", sz.c_str(), g, (unsigned long long)want);
            n_exact++;
            same("SHMEM_DEBUG", debug ? "1" : "0");
            same("SHMEM_VERSION", version ? "1" : "0");
            same("SHMEM_INFO", info ? "1" : "0");
        }
        if (verbose) {
            same("OSHMPI_VERBOSE", "1");
            same("OSHMPI_AMO_OPS", join(amo, AMO, 14));
            same("OSHMPI_MPI_GPU_FEATURES", join(gpu, GPU, 4));
            if (g_cfg != "fast") {
                same("OSHMPI_AMO_DBG_MODE", amode);
                same("OSHMPI_RMA_DBG_MODE", rmode);
            }
        }
        if (kind == 4) n_default++;
    }
    count(0, n_exact);
    count(1, n_reject);
    count(2, n_switch);
    count(3, n_list);
    count(4, n_default);
    if (kind != 4 || n_list) nontrivial();
}
RegProp r24("C24", c24, "Random values of SHMEM_SYMMETRIC_SIZE (plain, suffixed, fractional, malformed, unsatisfiable), of the switches and of the list variables; the allocatable and the reported size, the printed configuration and the way atomics travel are compared with exact arithmetic and the documented meaning; non-trivial: a size was set or a list was given.",
            {"reported sizes compared", "sizes rejected", "switches set", "lists set", "default sizes"});
} // namespace
