/* Constants of the public header, as a program sees them. */
#include <shmem.h>
int oshv_const(int i);
const char *oshv_vendor(void);
const char *oshv_vendor_old(void);
int oshv_const(int i)
{
    switch (i) {
        case 0: return SHMEM_MAJOR_VERSION;
        case 1: return SHMEM_MINOR_VERSION;
        case 2: return SHMEM_MAX_NAME_LEN;
        case 4: return _SHMEM_MAJOR_VERSION;
        case 5: return _SHMEM_MINOR_VERSION;
        case 6: return _SHMEM_MAX_NAME_LEN;
    }
    return -1;
}
const char *oshv_vendor(void) { return SHMEM_VENDOR_STRING; }
const char *oshv_vendor_old(void) { return _SHMEM_VENDOR_STRING; }
