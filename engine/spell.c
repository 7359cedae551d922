/* Every spelling of every operation for one type (-DT=, -DN=, category switches), as a C11 program calls it through
 * the public header.  Values are passed by address so that the check engine needs no knowledge of the type. */
#include <stddef.h>
#include <stdint.h>
#include <shmem.h>
#define CAT3_(a, b, c) a##b##c
#define CAT3(a, b, c) CAT3_(a, b, c)
#define NAME(op) CAT3(shmem_, N, op)
#define CNAME(op) CAT3(shmem_ctx_, N, op)
#define FN(op) CAT3(oshv_sp_, N, op)
#define D SHMEM_CTX_DEFAULT
/* forms: 0 typed, 1 typed with context, 2 generic, 3 generic with context, 4 deprecated typed, 5 deprecated generic,
 * 6 deprecated generic with context; returns 0 if the operation has no such form */
#define FORMS4(t, c, g, gc) switch (form) { case 0: t; return 1; case 1: c; return 1; case 2: g; return 1; case 3: gc; return 1; } return 0
#define FORMS7(t, c, g, gc, dt, dg, dgc) switch (form) { case 0: t; return 1; case 1: c; return 1; case 2: g; return 1; case 3: gc; return 1; \
    case 4: dt; return 1; case 5: dg; return 1; case 6: dgc; return 1; } return 0
#ifndef NOGEN
#define GEN(x) x
#else
#define GEN(x) return 0
#endif

#ifdef RMA
int FN(_rma)(int op, int form, void *dv, void *sv, ptrdiff_t a, ptrdiff_t b, size_t n, int pe, void *val);
int FN(_rma)(int op, int form, void *dv, void *sv, ptrdiff_t a, ptrdiff_t b, size_t n, int pe, void *val)
{
    T *d = dv, *s = sv, *v = val;
    switch (op) {
        case 0: FORMS4(NAME(_put)(d, s, n, pe), CNAME(_put)(D, d, s, n, pe), GEN(shmem_put(d, s, n, pe)), GEN(shmem_put(D, d, s, n, pe)));
        case 1: FORMS4(NAME(_get)(d, s, n, pe), CNAME(_get)(D, d, s, n, pe), GEN(shmem_get(d, s, n, pe)), GEN(shmem_get(D, d, s, n, pe)));
        case 2: FORMS4(NAME(_put_nbi)(d, s, n, pe), CNAME(_put_nbi)(D, d, s, n, pe), GEN(shmem_put_nbi(d, s, n, pe)), GEN(shmem_put_nbi(D, d, s, n, pe)));
        case 3: FORMS4(NAME(_get_nbi)(d, s, n, pe), CNAME(_get_nbi)(D, d, s, n, pe), GEN(shmem_get_nbi(d, s, n, pe)), GEN(shmem_get_nbi(D, d, s, n, pe)));
        case 4: FORMS4(NAME(_iput)(d, s, a, b, n, pe), CNAME(_iput)(D, d, s, a, b, n, pe), GEN(shmem_iput(d, s, a, b, n, pe)), GEN(shmem_iput(D, d, s, a, b, n, pe)));
        case 5: FORMS4(NAME(_iget)(d, s, a, b, n, pe), CNAME(_iget)(D, d, s, a, b, n, pe), GEN(shmem_iget(d, s, a, b, n, pe)), GEN(shmem_iget(D, d, s, a, b, n, pe)));
        case 6: FORMS4(NAME(_p)(d, *v, pe), CNAME(_p)(D, d, *v, pe), GEN(shmem_p(d, *v, pe)), GEN(shmem_p(D, d, *v, pe)));
        case 7: FORMS4(*v = NAME(_g)(s, pe), *v = CNAME(_g)(D, s, pe), GEN(*v = shmem_g(s, pe)), GEN(*v = shmem_g(D, s, pe)));
    }
    return 0;
}
#endif

#ifdef STD
int FN(_std)(int op, int form, void *f, void *dv, void *val, void *cmp, int pe);
int FN(_std)(int op, int form, void *f, void *dv, void *val, void *cmp, int pe)
{
    T *d = dv, *r = f, v = *(T *) val, c = *(T *) cmp;
    switch (op) {
        case 0: FORMS7(*r = NAME(_atomic_compare_swap)(d, c, v, pe), *r = CNAME(_atomic_compare_swap)(D, d, c, v, pe), GEN(*r = shmem_atomic_compare_swap(d, c, v, pe)),
                       GEN(*r = shmem_atomic_compare_swap(D, d, c, v, pe)), *r = NAME(_cswap)(d, c, v, pe), GEN(*r = shmem_cswap(d, c, v, pe)), GEN(*r = shmem_cswap(D, d, c, v, pe)));
        case 1: FORMS7(*r = NAME(_atomic_fetch_inc)(d, pe), *r = CNAME(_atomic_fetch_inc)(D, d, pe), GEN(*r = shmem_atomic_fetch_inc(d, pe)), GEN(*r = shmem_atomic_fetch_inc(D, d, pe)),
                       *r = NAME(_finc)(d, pe), GEN(*r = shmem_finc(d, pe)), GEN(*r = shmem_finc(D, d, pe)));
        case 2: FORMS7(NAME(_atomic_inc)(d, pe), CNAME(_atomic_inc)(D, d, pe), GEN(shmem_atomic_inc(d, pe)), GEN(shmem_atomic_inc(D, d, pe)), NAME(_inc)(d, pe), GEN(shmem_inc(d, pe)), GEN(shmem_inc(D, d, pe)));
        case 3: FORMS7(*r = NAME(_atomic_fetch_add)(d, v, pe), *r = CNAME(_atomic_fetch_add)(D, d, v, pe), GEN(*r = shmem_atomic_fetch_add(d, v, pe)),
                       GEN(*r = shmem_atomic_fetch_add(D, d, v, pe)), *r = NAME(_fadd)(d, v, pe), GEN(*r = shmem_fadd(d, v, pe)), GEN(*r = shmem_fadd(D, d, v, pe)));
        case 4: FORMS7(NAME(_atomic_add)(d, v, pe), CNAME(_atomic_add)(D, d, v, pe), GEN(shmem_atomic_add(d, v, pe)), GEN(shmem_atomic_add(D, d, v, pe)),
                       NAME(_add)(d, v, pe), GEN(shmem_add(d, v, pe)), GEN(shmem_add(D, d, v, pe)));
        case 5: FORMS4(NAME(_atomic_compare_swap_nbi)(r, d, c, v, pe), CNAME(_atomic_compare_swap_nbi)(D, r, d, c, v, pe), GEN(shmem_atomic_compare_swap_nbi(r, d, c, v, pe)),
                       GEN(shmem_atomic_compare_swap_nbi(D, r, d, c, v, pe)));
        case 6: FORMS4(NAME(_atomic_fetch_inc_nbi)(r, d, pe), CNAME(_atomic_fetch_inc_nbi)(D, r, d, pe), GEN(shmem_atomic_fetch_inc_nbi(r, d, pe)), GEN(shmem_atomic_fetch_inc_nbi(D, r, d, pe)));
        case 7: FORMS4(NAME(_atomic_fetch_add_nbi)(r, d, v, pe), CNAME(_atomic_fetch_add_nbi)(D, r, d, v, pe), GEN(shmem_atomic_fetch_add_nbi(r, d, v, pe)),
                       GEN(shmem_atomic_fetch_add_nbi(D, r, d, v, pe)));
    }
    return 0;
}
#endif

#ifdef EXT
int FN(_ext)(int op, int form, void *f, void *dv, void *val, void *cmp, int pe);
int FN(_ext)(int op, int form, void *f, void *dv, void *val, void *cmp, int pe)
{
    T *d = dv, *r = f, v = *(T *) val;
    switch (op) {
        case 0: FORMS7(*r = NAME(_atomic_fetch)(d, pe), *r = CNAME(_atomic_fetch)(D, d, pe), GEN(*r = shmem_atomic_fetch(d, pe)), GEN(*r = shmem_atomic_fetch(D, d, pe)),
                       *r = NAME(_fetch)(d, pe), GEN(*r = shmem_fetch(d, pe)), GEN(*r = shmem_fetch(D, d, pe)));
        case 1: FORMS7(NAME(_atomic_set)(d, v, pe), CNAME(_atomic_set)(D, d, v, pe), GEN(shmem_atomic_set(d, v, pe)), GEN(shmem_atomic_set(D, d, v, pe)),
                       NAME(_set)(d, v, pe), GEN(shmem_set(d, v, pe)), GEN(shmem_set(D, d, v, pe)));
        case 2: FORMS7(*r = NAME(_atomic_swap)(d, v, pe), *r = CNAME(_atomic_swap)(D, d, v, pe), GEN(*r = shmem_atomic_swap(d, v, pe)), GEN(*r = shmem_atomic_swap(D, d, v, pe)),
                       *r = NAME(_swap)(d, v, pe), GEN(*r = shmem_swap(d, v, pe)), GEN(*r = shmem_swap(D, d, v, pe)));
        case 3: FORMS4(NAME(_atomic_fetch_nbi)(r, d, pe), CNAME(_atomic_fetch_nbi)(D, r, d, pe), GEN(shmem_atomic_fetch_nbi(r, d, pe)), GEN(shmem_atomic_fetch_nbi(D, r, d, pe)));
        case 4: FORMS4(NAME(_atomic_swap_nbi)(r, d, v, pe), CNAME(_atomic_swap_nbi)(D, r, d, v, pe), GEN(shmem_atomic_swap_nbi(r, d, v, pe)), GEN(shmem_atomic_swap_nbi(D, r, d, v, pe)));
    }
    return 0;
}
#endif

#ifdef BIT
int FN(_bit)(int op, int form, void *f, void *dv, void *val, void *cmp, int pe);
#define BITOP(x) FORMS4(NAME(_atomic_##x)(d, v, pe), CNAME(_atomic_##x)(D, d, v, pe), GEN(shmem_atomic_##x(d, v, pe)), GEN(shmem_atomic_##x(D, d, v, pe)))
#define BITFOP(x) FORMS4(*r = NAME(_atomic_##x)(d, v, pe), *r = CNAME(_atomic_##x)(D, d, v, pe), GEN(*r = shmem_atomic_##x(d, v, pe)), GEN(*r = shmem_atomic_##x(D, d, v, pe)))
#define BITNOP(x) FORMS4(NAME(_atomic_##x)(r, d, v, pe), CNAME(_atomic_##x)(D, r, d, v, pe), GEN(shmem_atomic_##x(r, d, v, pe)), GEN(shmem_atomic_##x(D, r, d, v, pe)))
int FN(_bit)(int op, int form, void *f, void *dv, void *val, void *cmp, int pe)
{
    T *d = dv, *r = f, v = *(T *) val;
    switch (op) {
        case 0: BITOP(and);
        case 1: BITOP(or);
        case 2: BITOP(xor);
        case 3: BITFOP(fetch_and);
        case 4: BITFOP(fetch_or);
        case 5: BITFOP(fetch_xor);
        case 6: BITNOP(fetch_and_nbi);
        case 7: BITNOP(fetch_or_nbi);
        case 8: BITNOP(fetch_xor_nbi);
    }
    return 0;
}
#endif

#ifdef P2P
/* forms: 0 typed, 2 generic, 4 deprecated; the result goes to *res */
int FN(_p2p)(int op, int form, void *iv, int cmp, void *val, int *res);
int FN(_p2p)(int op, int form, void *iv, int cmp, void *val, int *res)
{
    T *i = iv, v = *(T *) val;
    *res = 1;
    if (op == 0) {
        switch (form) {
            case 0: NAME(_wait_until)(i, cmp, v); return 1;
            case 2: GEN(shmem_wait_until(i, cmp, v)); return 1;
#ifdef WAIT
            case 4:
                if (cmp != SHMEM_CMP_NE)
                    return 0;
                NAME(_wait)(i, v);
                return 1;
#endif
        }
        return 0;
    }
    switch (form) {
        case 0: *res = NAME(_test)(i, cmp, v); return 1;
        case 2: GEN(*res = shmem_test(i, cmp, v)); return 1;
    }
    return 0;
}
#endif

#ifdef COLL
/* forms: 0 typed, 2 generic */
int FN(_coll)(int op, int form, void *team, void *dv, void *sv, ptrdiff_t a, ptrdiff_t b, size_t n, int root, int *res);
int FN(_coll)(int op, int form, void *team, void *dv, void *sv, ptrdiff_t a, ptrdiff_t b, size_t n, int root, int *res)
{
    T *d = dv, *s = sv;
    shmem_team_t t = team;
    switch (op * 10 + form) {
        case 0: *res = NAME(_broadcast)(t, d, s, n, root); return 1;
        case 2: GEN(*res = shmem_broadcast(t, d, s, n, root)); return 1;
        case 10: *res = NAME(_collect)(t, d, s, n); return 1;
        case 12: GEN(*res = shmem_collect(t, d, s, n)); return 1;
        case 20: *res = NAME(_fcollect)(t, d, s, n); return 1;
        case 22: GEN(*res = shmem_fcollect(t, d, s, n)); return 1;
        case 30: *res = NAME(_alltoall)(t, d, s, n); return 1;
        case 32: GEN(*res = shmem_alltoall(t, d, s, n)); return 1;
        case 40: *res = NAME(_alltoalls)(t, d, s, a, b, n); return 1;
        case 42: GEN(*res = shmem_alltoalls(t, d, s, a, b, n)); return 1;
    }
    return 0;
}
#endif

/* forms: 0 typed team, 2 generic team, 4 active set */
#define RED(x, y) case 0: *res = NAME(_##x##_reduce)(t, d, s, n); return 1; case 2: GEN(*res = shmem_##x##_reduce(t, d, s, n)); return 1
#define REDA(x) case 4: *res = 0; NAME(_##x##_to_all)(d, s, (int) n, 0, 0, npes, w, sync); return 1
#define REDFN(cat) int FN(cat)(int op, int form, void *team, void *dv, void *sv, size_t n, int npes, void *wv, long *sync, int *res)
#define REDVARS T *d = dv, *s = sv, *w = wv; shmem_team_t t = team; (void) w; (void) d; (void) s; (void) t
REDFN(_red);
REDFN(_red)
{
    REDVARS;
    if (op == 0)
        switch (form) {
#ifdef MM_T
            RED(max, 0);
#endif
#ifdef MM_A
            REDA(max);
#endif
        }
    if (op == 1)
        switch (form) {
#ifdef MM_T
            RED(min, 0);
#endif
#ifdef MM_A
            REDA(min);
#endif
        }
    if (op == 2)
        switch (form) {
#ifdef SP_T
            RED(sum, 0);
#endif
#ifdef SP_A
            REDA(sum);
#endif
        }
    if (op == 3)
        switch (form) {
#ifdef SP_T
            RED(prod, 0);
#endif
#ifdef SP_A
            REDA(prod);
#endif
        }
    if (op == 4)
        switch (form) {
#ifdef BIT_T
            RED(and, 0);
#endif
#ifdef BIT_A
            REDA(and);
#endif
        }
    if (op == 5)
        switch (form) {
#ifdef BIT_T
            RED(or, 0);
#endif
#ifdef BIT_A
            REDA(or);
#endif
        }
    if (op == 6)
        switch (form) {
#ifdef BIT_T
            RED(xor, 0);
#endif
#ifdef BIT_A
            REDA(xor);
#endif
        }
    return 0;
}
