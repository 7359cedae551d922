/* First object of every simulated process (PE) image: start of the data segment, handle anchors and the
 * statically allocated symmetric objects that generated programs use. One private copy per PE. */
#include <mpi.h>
#include <stdlib.h>
#include <string.h>
char __data_start[64] __attribute__((aligned(64), section(".data"))) = { 1 };

struct sim_type_h sim_types[SIM_NTYPES] = { {1, 0, 0} };
struct sim_op_h sim_ops[SIM_NOPS] = { {1, 0} };
struct sim_comm_h sim_comm_world = { 1 }, sim_comm_self = { 1 }, sim_comm_null = { 1 };
struct sim_group_h sim_group_null = { 1 }, sim_group_empty = { 1 };
struct sim_win_h sim_win_null = { 1 };
struct sim_req_h sim_req_null = { 1 };
struct sim_msg_h sim_msg_null = { 1 }, sim_msg_noproc = { 1 };
struct sim_info_h sim_info_null = { 1 }, sim_info_env = { 1 };
struct sim_errh_h sim_errh_null = { 1 }, sim_errh_fatal = { 1 }, sim_errh_return = { 1 };
char sim_in_place[8] = { 1 }, sim_bottom[8] = { 1 };
MPI_Status sim_status_ignore[1] = { {1} }, sim_statuses_ignore[1] = { {1} };

/* symmetric static objects: one initialised, one in bss */
char oshv_sdata[16384] __attribute__((aligned(64))) = { 1 };
char oshv_sbss[16384] __attribute__((aligned(64)));

/* every process has its own environment block and its own exit handlers */
static struct { const char *name; char *copy; } envs[32];
static int nenvs;
char *__real_getenv(const char *);
char *__wrap_getenv(const char *name)
{
    int i;
    char *v;
    for (i = 0; i < nenvs; i++)
        if (!strcmp(envs[i].name, name))
            return envs[i].copy;
    v = __real_getenv(name);
    if (v && nenvs < 32) {
        envs[nenvs].name = strdup(name);
        envs[nenvs].copy = v = strdup(v);
        nenvs++;
    }
    return v;
}

static void (*exits[32]) (void);
static int nexits;
int __wrap_atexit(void (*f)(void))
{
    if (nexits < 32)
        exits[nexits++] = f;
    return 0;
}

void oshv_run_atexit(void)
{
    while (nexits > 0)
        exits[--nexits] ();
}

/* process termination goes to the simulator */
void sim_process_exit(int code);
void __wrap_exit(int code)
{
    oshv_run_atexit();
    sim_process_exit(code);
    for (;;);
}

void __wrap__exit(int code)
{
    sim_process_exit(code);
    for (;;);
}

void __wrap_abort(void)
{
    sim_process_exit(134);
    for (;;);
}

/* threads of the process are threads of the simulator */
#include <pthread.h>
int sim_mutex_lock(void *), sim_mutex_trylock(void *), sim_mutex_unlock(void *), sim_mutex_init(void *), sim_mutex_destroy(void *);
int sim_cond_init(void *), sim_cond_destroy(void *), sim_cond_signal(void *), sim_cond_wait(void *, void *);
int sim_thread_create(void *(*)(void *), void *);
void sim_thread_join(int);
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { return sim_mutex_init(m); }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { return sim_mutex_destroy(m); }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { return sim_mutex_lock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return sim_mutex_trylock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { return sim_mutex_unlock(m); }
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { return sim_cond_init(c); }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) { return sim_cond_destroy(c); }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return sim_cond_wait(c, m); }
int __wrap_pthread_cond_signal(pthread_cond_t *c) { return sim_cond_signal(c); }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { return sim_cond_signal(c); }
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg)
{
    *t = (pthread_t) sim_thread_create(f, arg);
    return 0;
}
int __wrap_pthread_join(pthread_t t, void **r)
{
    sim_thread_join((int) t);
    if (r)
        *r = 0;
    return 0;
}
int __wrap_pthread_detach(pthread_t t) { return 0; }

/* thread-local variables: the threads are the simulator's, so their copies are too */
void *sim_tls(unsigned long module, unsigned long off);
typedef struct { unsigned long module, off; } oshv_tls_index;
void *__tls_get_addr(oshv_tls_index *i) { return sim_tls(i->module, i->off); }
