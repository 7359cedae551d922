// The deprecated untyped names, as a C++ program (or one before C11) calls them through the public header.
#include <shmem.h>
extern "C" {
int oshv_cxx_wait(int op, long *ivar, int cmp, long value);
void oshv_cxx_sync(int start, int stride, int size, long *sync);
int oshv_cxx_wait(int op, long *ivar, int cmp, long value)
{
    if (op == 0) shmem_wait_until(ivar, cmp, value);
    else if (cmp == SHMEM_CMP_NE) shmem_wait(ivar, value);
    else return 0;
    return 1;
}
void oshv_cxx_sync(int start, int stride, int size, long *sync) { shmem_sync(start, stride, size, sync); }
}
