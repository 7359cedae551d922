/* The generic sync, as a C11 program calls it. */
#include <shmem.h>
void oshv_sync_aset(int start, int stride, int size, long *sync);
int oshv_sync_team(void *team);
void oshv_sync_aset(int start, int stride, int size, long *sync) { shmem_sync(start, stride, size, sync); }
int oshv_sync_team(void *team) { shmem_team_t t = team; return shmem_sync(t); }
