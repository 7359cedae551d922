// Interface of the simulated MPI to the check engine.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
struct SimParams {
    int npes = 2;
    uint64_t seed = 1;
    int sched = 0;        // 0 uniform, 1 bursty, 2 one PE starved, 3 priorities with change points
    int yield_pct = 100;  // probability that an MPI call is a scheduling point
    int bg_pct = 30;      // probability that an MPI call lets one pending transfer happen
    int spurious_pct = 20;// probability that a Test/Iprobe that could succeed reports "not yet"
    int eager = 1024;     // messages above this size use a rendezvous
    int coll_sync = 0;    // every collective waits for all ranks
    int tag_ub = 32767;
    int node[16] = {0};   // the node each PE runs on
    int provided = 3;     // thread level MPI provides
    int split_puts = 1;   // large puts may land in pieces
    int late_put = 1;     // origin buffer of a put may be read as late as local completion
    int preempt = 0;      // threads of one PE: mean number of memory accesses of the library between preemptions, 0 none
    int hop = 0;          // drivers: several threads of each PE take turns, percentage of calls made by another than the first
    int strict_hints = 1; // accumulates outside the window's accumulate_ops hint are not atomic
};
struct SimPE { void *dl; };
enum SimOutcome { SIM_OK = 0, SIM_DEADLOCK, SIM_HANG, SIM_ABORT, SIM_MISUSE, SIM_LIMIT };
struct SimResult { int outcome = SIM_OK; int pe = -1; int code = 0; std::string msg; uint64_t steps = 0, events = 0, switches = 0; };
void sim_attach_pe(int pe, void *dl);            // once per loaded image
SimResult sim_run(const SimParams &, const std::function<void(int)> &body);
int sim_me();
uint64_t sim_now();                              // logical clock, strictly increasing
void sim_pause(int n = 1);                       // give other PEs a chance (models local computation)
extern "C" void sim_big_memory(bool on);                   // windows beyond 4 GiB can be allocated
void sim_api_mark();                             // a library call has returned
void sim_progress_mark();                        // the driver says that something was achieved
uint64_t sim_calls(int pe);                      // MPI calls the PE's program has made
bool sim_mpi_initialized(int pe);
bool sim_mpi_finalized(int pe);
void sim_live(int pe, int n[6]);                 // live handles: communicators, groups, windows, datatypes, requests, infos
std::vector<std::pair<char *, long>> sim_exposed(int pe); // memory of the PE in live windows
int sim_spawn(const std::function<void()> &body); // starts another thread of the running PE
void sim_join(int id);
void sim_block(const char *what, const std::function<bool()> &until); // waits inside the program, making no library call
int sim_thread();                                // the running thread
// in-process checks of what the simulated MPI saw
struct SimStats { uint64_t puts, gets, accs, fops, cass, sends, recvs, colls, wins, maxtag; };
const SimStats &sim_stats();
