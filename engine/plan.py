"""How many cases of which driver run in which build configuration, per property and tier: (config, cases[, driver])."""


ALL = 'base fast dynwin am direct mt'


def spread(n, cfgs=ALL, t=40):
    names = cfgs.split()
    w = {'base': 2.0}
    s = sum(w.get(c, 1.0) for c in names)
    q = [(c, int(n * w.get(c, 1.0) / s)) for c in names]
    if cfgs == ALL:  # programs of one thread per PE, with and without the library's asynchronous progress thread
        q += [('thr', n // 12), ('thrdyn', n // 15)]
    return {'quick': q, 'thorough': [(c, k * t) for c, k in q]}


PLAN = {p: spread(60000) for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C10', 'C20')}
PLAN['C12'] = spread(20000)
PLAN.update({p: spread(40000) for p in ('C13', 'C14', 'C15', 'C16', 'C17')})

PLAN.update({p: spread(40000) for p in ('C09', 'C11', 'C18', 'C19')})
PLAN.update({p: spread(40000) for p in ('C21', 'C22', 'C23', 'C24', 'C25')})
for _p, _n in (('C02', 1500), ('C10', 1000), ('C13', 1000), ('C15', 1000)):  # strides beyond 32 bits
    for _t, _k in (('quick', 1), ('thorough', 40)):
        PLAN[_p][_t] += [(c, _n * _k, _p + 'B') for c in ('base', 'am', 'dynwin')]
for _p in ('C18', 'C19'):  # blocks of many GB
    for _t, _k in (('quick', 1), ('thorough', 40)):
        PLAN[_p][_t] += [(c, 1500 * _k, _p + 'B') for c in ('base', 'am', 'dynwin')]
PLAN['C26'] = spread(40000, 'thr thrdyn mt')
for _t, _k in (('quick', 1), ('thorough', 40)):  # threads taking turns, in builds that provide less than multiple
    PLAN['C26'][_t] += [(c, 5000 * _k, 'C26B') for c in ('base', 'am', 'direct', 'mt', 'thrdyn')]
PLAN['C27'] = None  # engine/wrap.py: no simulated MPI

_SIM = 'the real library, one image per PE, over a simulated MPI whose scheduling, message delivery and RMA application the generator decides; failures shrunk to a replay file'
_DRF = 'generated race-free programs (phases of transfers, atomics, fences, quiets, barriers, syncs) judged against a sequential reference model of all symmetric and private memory; ' + _SIM
TECHNIQUE = {
    '*': _DRF,
    'C09': 'generated concurrent atomic histories on one object, searched for a linearization consistent with real time, program order and the final value; ' + _SIM,
    'C10': 'the same generated race-free program under every build configuration and generated environment settings against one reference outcome; ' + _DRF,
    'C11': 'generated wait/test programs with one or more updaters against the comparison evaluated on the true object history, plus visibility of ordered earlier updates; ' + _SIM,
    'C12': 'generated lock programs (set, test, clear on several locks) with a monitor of mutual exclusion, completion of every request and hand-over of unprotected data; ' + _SIM,
    'C13': 'generated sequences of active-set collectives against a functional model of every destination; ' + _SIM,
    'C14': 'generated sequences of active-set reductions of every type and operation against an elementwise reference; ' + _SIM,
    'C15': 'generated trees of teams and sequences of team collectives against a functional model of every destination; ' + _SIM,
    'C16': 'generated trees of teams and sequences of team reductions against an elementwise reference; ' + _SIM,
    'C17': 'stateful generation of nested splits, destroys and translations against a model of team membership; ' + _SIM,
    'C18': 'stateful generation of heap call histories against a model of live blocks and their contents; ' + _SIM,
    'C19': 'stateful generation of space call histories (create, attach, allocate, communicate, detach, destroy) against a model of spaces and blocks; ' + _SIM,
    'C20': 'generated race-free programs on space contexts alongside the default context; ' + _DRF,
    'C21': 'generated programs that must end under the specification, run under adversarial and starving schedules with deadlock and livelock detection; ' + _SIM,
    'C22': 'generated life cycles (who initialises MPI, levels, repeated init/finalize, exit paths, operations in flight) against the specified outcome and an account of MPI objects; ' + _SIM,
    'C23': 'generated query sequences with boundary and out-of-range arguments against the known layout and a state snapshot; ' + _SIM,
    'C24': 'grammar-based generation of environment values against an independent exact interpreter of the documented syntax, and what start-up then does and reports; ' + _SIM,
    'C25': 'differential: every spelling compiled as user code for every type, each generated call judged by the one reference of its operation and type; ' + _SIM,
    'C26': 'generated programs of several threads per PE (own and shared objects, messages, quiets, fences, locks, collectives, contexts, spaces) with preemption at every memory access of the library, judged by what each thread wrote and by invariants of the shared objects; ' + _SIM,
    'C27': 'generated settings and command lines run through the wrappers made by the project\'s own rules, against what a recording stub compiler was given and what the caller got back; a part with the real compiler, linked and run; failures shrunk to a replay file',
}
_N = 'Generated-input search: bounded program length, at most 10 PEs, MPI is a model. '
NOTE = {
    '*': _N + 'Eight build configurations (two with several threads); run-time modes and transport schedules drawn per case.',
    'C04': _N + 'Observers are PEs that poll a flag with get, atomic fetch or wait on the target.',
    'C09': _N + 'At most about a dozen operations per history so that the linearizability search is exhaustive.',
    'C21': _N + 'Liveness is judged by deadlock detection and by fair rescue phases of bounded length, never by a clock.',
    'C22': _N + 'Process life cycle is the simulated one; exit handlers, exit codes and object accounting are observed.',
    'C25': _N + 'The build defines no profiling-prefixed names; spellings that do not compile as a C11 user program are violations.',
    'C26': _N + 'At most four threads per PE; threads are coroutines switched at memory accesses and calls, so weak memory orders are not explored.',
    'C27': 'Generated-input search over settings and argument vectors; directories and configured flags are of the characters autotools accepts.',
}
