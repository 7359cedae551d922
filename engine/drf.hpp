// Race-free random programs with a sequential reference model.
#pragma once
#include "core.hpp"
struct DrfOpts {
    // weights of operation kinds
    int put = 0, p = 0, get = 0, g = 0, iput = 0, iget = 0, putnbi = 0, getnbi = 0;
    int amo = 0, amofetch = 0, amonbi = 0;
    int lstore = 4, lload = 4, pause = 2;
    int quiet = 4, fence = 0, barrier_all = 2, barrier_aset = 0, sync_all = 0, sync_aset = 0, team_sync = 0;
    int signal = 4, counter = 0, wait = 6, check = 1;
    int overwrite = 0;      // composite: update, fence, update of overlapping bytes
    int fenced_sig = 0;     // composite: updates to q, fence, signal to q
    int quiet_relay = 0;    // composite: updates to q, quiet, signal r, r reads q
    bool heap = true, sdata = true, sbss = true;
    int spaces_pct = 0;     // probability that memory spaces are used
    int ctx_pct = 0;        // given a space: probability of contexts and of their use
    int minpe = 1, maxpe = 5;
    int minops = 4, maxops = 60;
    int big_pct = 6;        // probability of large regions / transfers
    int modes_pct = 25;     // probability of non-default run-time modes
    bool all_modes = false; // C10: also tracing variables
    int turns_pct = 5;      // probability that several threads of each PE take turns, where the build provides that
    bool am_allowed = true; // RMA through active messages may be forced
};
struct DrfStats { int remote_updates = 0, remote_reads = 0, verified_bytes = 0, waits = 0, syncs = 0, amos = 0, fenced = 0, third = 0, strided = 0, nbi = 0, ctxops = 0, kinds = 0, relies = 0; };
DrfStats drf_case(const DrfOpts &);
void draw_env_modes(int pct, bool all, bool am);
