/* stand-in for the OpenPA submodule (not checked out here): the few primitives OSHMPI uses */
#ifndef OPA_PRIMITIVES_H
#define OPA_PRIMITIVES_H
typedef struct { volatile int v; } OPA_int_t;
#define OPA_store_int(p, x) __atomic_store_n(&(p)->v, (x), __ATOMIC_SEQ_CST)
#define OPA_load_int(p) __atomic_load_n(&(p)->v, __ATOMIC_SEQ_CST)
static inline int OPA_cas_int(OPA_int_t *p, int o, int n)
{
    __atomic_compare_exchange_n(&p->v, &o, n, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
    return o;
}
#define OPA_incr_int(p) ((void) __atomic_fetch_add(&(p)->v, 1, __ATOMIC_SEQ_CST))
#define OPA_decr_int(p) ((void) __atomic_fetch_sub(&(p)->v, 1, __ATOMIC_SEQ_CST))
#define OPA_fetch_and_incr_int(p) __atomic_fetch_add(&(p)->v, 1, __ATOMIC_SEQ_CST)
#define OPA_fetch_and_decr_int(p) __atomic_fetch_sub(&(p)->v, 1, __ATOMIC_SEQ_CST)
#endif
