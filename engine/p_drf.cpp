// Properties decided with race-free programs against the sequential reference model.
#include "drf.hpp"
namespace {
const std::vector<std::string> CN = {"remote updates", "remote reads", "bytes verified in final checks", "waits", "synchronisations", "atomics", "updates ordered by a fence",
                                     "third-party or multi-writer patterns", "strided transfers of more than one element", "non-blocking operations", "context operations", "reads that rely on another PE's update"};
void tally(const DrfStats &s) {
    const int v[] = {s.remote_updates, s.remote_reads, s.verified_bytes, s.waits, s.syncs, s.amos, s.fenced, s.third, s.strided, s.nbi, s.ctxops, s.relies};
    for (int i = 0; i < 12; i++) count(i, v[i]);
}
void c01() {
    DrfOpts o;
    o.put = 14; o.p = 10; o.get = 14; o.g = 8; o.putnbi = 4; o.getnbi = 4;
    o.quiet = 5; o.barrier_all = 3; o.fence = 1; o.signal = 3; o.quiet_relay = 2;
    o.spaces_pct = 15; o.big_pct = 12;
    DrfStats s = drf_case(o);
    tally(s);
    if (s.remote_updates >= 2 && (s.relies || s.verified_bytes)) nontrivial();
}
RegProp r01("C01", c01, "Race-free program of contiguous transfers over random types, sizes, alignments, targets and regions with random transport schedule; non-trivial: at least two updates of which results are read back or verified.", CN);
void c02() {
    DrfOpts o;
    o.iput = 20; o.iget = 18; o.put = 2; o.get = 2; o.p = 1; o.quiet = 5; o.barrier_all = 3; o.fence = 2; o.overwrite = 1; o.signal = 2;
    o.spaces_pct = 15; o.ctx_pct = 20;
    DrfStats s = drf_case(o);
    tally(s);
    if (s.strided >= 2) nontrivial();
}
RegProp r02("C02", c02, "Race-free program dominated by strided transfers with random shapes; non-trivial: at least two strided transfers of more than one element.", CN);
void c03() {
    DrfOpts o;
    o.putnbi = 18; o.getnbi = 14; o.amonbi = 8; o.put = 3; o.get = 3; o.quiet = 8; o.barrier_all = 2; o.quiet_relay = 3; o.signal = 3; o.big_pct = 12;
    o.spaces_pct = 20; o.ctx_pct = 10;
    DrfStats s = drf_case(o);
    tally(s);
    if (s.nbi >= 3) nontrivial();
}
RegProp r03("C03", c03, "Race-free program dominated by non-blocking operations completed by quiet; non-trivial: at least three non-blocking operations.", CN);
void c04() {
    DrfOpts o;
    o.put = 6; o.p = 5; o.iput = 3; o.putnbi = 6; o.amo = 6; o.get = 2; o.fence = 6; o.overwrite = 8; o.fenced_sig = 12; o.signal = 6; o.counter = 2; o.quiet = 1; o.barrier_all = 1;
    o.spaces_pct = 15; o.big_pct = 12; o.minpe = 2;
    DrfStats s = drf_case(o);
    tally(s);
    if (s.fenced >= 1 && s.waits + s.relies >= 1) nontrivial();
}
RegProp r04("C04", c04, "Race-free program whose only ordering between updates is fence, observed by waits at the target or by overlapping later updates; non-trivial: an update ordered by a fence and an observation.", CN);
void c05() {
    DrfOpts o;
    o.put = 6; o.p = 4; o.iput = 3; o.putnbi = 6; o.amo = 7; o.amofetch = 2; o.amonbi = 2; o.get = 6; o.g = 4; o.quiet = 6; o.quiet_relay = 14; o.signal = 6; o.counter = 3; o.barrier_all = 1; o.sync_all = 2; o.sync_aset = 1;
    o.fence = 2;
    o.spaces_pct = 20; o.minpe = 2; o.big_pct = 10;
    DrfStats s = drf_case(o);
    tally(s);
    if (s.relies >= 1 && s.syncs >= 1) nontrivial();
}
RegProp r05("C05", c05, "Race-free program whose updates are published by quiet and then a flag, and read by the target or a third PE; non-trivial: a read that relies on another PE's quieted update.", CN);
void c06() {
    DrfOpts o;
    o.put = 8; o.p = 5; o.iput = 3; o.putnbi = 8; o.amo = 6; o.amonbi = 2; o.get = 6; o.getnbi = 3; o.g = 3; o.lload = 8; o.lstore = 8; o.quiet = 0; o.barrier_all = 8; o.barrier_aset = 10; o.signal = 2; o.pause = 4;
    o.spaces_pct = 20; o.minpe = 1; o.maxpe = 6;
    DrfStats s = drf_case(o);
    tally(s);
    if (s.syncs >= 2 && s.remote_updates >= 1) nontrivial();
}
RegProp r06("C06", c06, "Race-free program whose completion comes only from barriers over all PEs and over random active sets; non-trivial: at least two barriers and one remote update.", CN);
void c07() {
    DrfOpts o;
    o.put = 5; o.p = 3; o.putnbi = 3; o.amo = 4; o.get = 6; o.g = 3; o.lload = 8; o.lstore = 8; o.quiet = 6; o.barrier_all = 1; o.sync_all = 7; o.sync_aset = 10; o.team_sync = 4; o.signal = 1; o.pause = 4;
    o.spaces_pct = 10; o.maxpe = 6;
    DrfStats s = drf_case(o);
    tally(s);
    if (s.syncs >= 2) nontrivial();
}
RegProp r07("C07", c07, "Race-free program synchronised by sync over all PEs, random active sets and the world team; non-trivial: at least two synchronisations.", CN);
void c08() {
    DrfOpts o;
    o.amo = 14; o.amofetch = 20; o.amonbi = 8; o.get = 3; o.put = 3; o.p = 2; o.g = 2; o.quiet = 5; o.fence = 2; o.barrier_all = 2; o.signal = 2; o.counter = 2; o.overwrite = 1; o.fenced_sig = 1;
    o.spaces_pct = 20; o.ctx_pct = 15; o.modes_pct = 50;
    DrfStats s = drf_case(o);
    tally(s);
    if (s.amos >= 3) nontrivial();
}
RegProp r08("C08", c08, "Race-free program dominated by atomics of random type, operation, API form and operands; non-trivial: at least three atomics.", CN);
void c10() {
    DrfOpts o;
    o.put = 6; o.p = 5; o.get = 6; o.g = 4; o.iput = 4; o.iget = 4; o.putnbi = 4; o.getnbi = 4; o.amo = 6; o.amofetch = 6; o.amonbi = 3; o.quiet = 5; o.fence = 3; o.barrier_all = 2; o.barrier_aset = 2; o.sync_all = 1; o.sync_aset = 1;
    o.signal = 4; o.counter = 2; o.overwrite = 2; o.fenced_sig = 3; o.quiet_relay = 3; o.team_sync = 1;
    o.spaces_pct = 25; o.ctx_pct = 15; o.modes_pct = 90; o.all_modes = true;
    DrfStats s = drf_case(o);
    tally(s);
    if (s.remote_updates + s.remote_reads >= 4) nontrivial();
}
RegProp r10("C10", c10, "Race-free program of all operation kinds under random run-time options in each build configuration, judged against the option-independent model; non-trivial: at least four remote accesses.", CN);
void c20() {
    DrfOpts o;
    o.put = 8; o.p = 5; o.get = 8; o.g = 5; o.iput = 4; o.iget = 3; o.putnbi = 7; o.getnbi = 6; o.amo = 7; o.amofetch = 5; o.amonbi = 3; o.quiet = 8; o.fence = 4; o.barrier_all = 2; o.signal = 4; o.overwrite = 3; o.fenced_sig = 5; o.quiet_relay = 6; o.sync_all = 1;
    o.spaces_pct = 100; o.ctx_pct = 60;
    DrfStats s = drf_case(o);
    tally(s);
    if (s.ctxops >= 2) nontrivial();
}
RegProp r20("C20", c20, "Race-free program over memory spaces with several contexts mixed with default-context operations; non-trivial: at least two context operations.", CN);
void c26b() {
    DrfOpts o;
    o.put = 7; o.p = 5; o.get = 6; o.g = 4; o.iput = 4; o.iget = 3; o.putnbi = 7; o.getnbi = 6; o.amo = 6; o.amofetch = 5; o.amonbi = 4; o.quiet = 8; o.fence = 4; o.barrier_all = 2; o.barrier_aset = 2; o.sync_all = 1; o.sync_aset = 1;
    o.signal = 5; o.counter = 2; o.overwrite = 4; o.fenced_sig = 6; o.quiet_relay = 6; o.team_sync = 1;
    o.spaces_pct = 30; o.ctx_pct = 40; o.turns_pct = 100; o.minpe = 2; o.big_pct = 10;
    DrfStats s = drf_case(o);
    tally(s);
    if (s.remote_updates >= 2 && s.remote_updates + s.remote_reads >= 4) nontrivial();
}
RegProp r26b("C26B", c26b, "Race-free program whose calls are issued by several threads of each PE taking turns, at SHMEM_THREAD_SERIALIZED; non-trivial: at least two updates and four remote accesses.", CN);
} // namespace
