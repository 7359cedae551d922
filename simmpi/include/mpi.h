/* mpi.h of simMPI, the in-process simulated MPI used by the checks in /verif.
 * Handles are pointers whose targets live in each simulated process, so a handle that leaks from one
 * process to another (in a message, for instance) is detected. */
#ifndef SIMMPI_MPI_H
#define SIMMPI_MPI_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

#define MPI_VERSION 3
#define MPI_SUBVERSION 1
#define SIMMPI 1

typedef struct sim_comm_h *MPI_Comm;
typedef struct sim_win_h *MPI_Win;
typedef struct sim_type_h *MPI_Datatype;
typedef struct sim_op_h *MPI_Op;
typedef struct sim_req_h *MPI_Request;
typedef struct sim_msg_h *MPI_Message;
typedef struct sim_info_h *MPI_Info;
typedef struct sim_group_h *MPI_Group;
typedef struct sim_errh_h *MPI_Errhandler;
typedef intptr_t MPI_Aint;
typedef long long MPI_Offset;
typedef long long MPI_Count;
typedef int MPI_Fint;
typedef struct MPI_Status {
    int MPI_SOURCE, MPI_TAG, MPI_ERROR;
    size_t sim_bytes;
    int sim_cancelled;
} MPI_Status;

/* per-process anchors of the predefined handles (defined in pe_base.c, one copy per process) */
struct sim_type_h { unsigned magic; int idx; void *ext; };
struct sim_op_h { unsigned magic; int idx; };
struct sim_comm_h { unsigned magic; int owner; void *obj; };
struct sim_group_h { unsigned magic; int owner; void *obj; };
struct sim_win_h { unsigned magic; int owner; void *obj; };
struct sim_req_h { unsigned magic; int owner; void *obj; };
struct sim_msg_h { unsigned magic; int owner; void *obj; };
struct sim_info_h { unsigned magic; int owner; void *obj; };
struct sim_errh_h { unsigned magic; int owner; void *obj; };
#define SIM_NTYPES 64
#define SIM_NOPS 24
#ifndef SIM_NO_ANCHORS
#define SIM_VIS __attribute__((visibility("default")))
extern struct sim_type_h sim_types[SIM_NTYPES] SIM_VIS;
extern struct sim_op_h sim_ops[SIM_NOPS] SIM_VIS;
extern struct sim_comm_h sim_comm_world SIM_VIS, sim_comm_self SIM_VIS, sim_comm_null SIM_VIS;
extern struct sim_group_h sim_group_null SIM_VIS, sim_group_empty SIM_VIS;
extern struct sim_win_h sim_win_null SIM_VIS;
extern struct sim_req_h sim_req_null SIM_VIS;
extern struct sim_msg_h sim_msg_null SIM_VIS, sim_msg_noproc SIM_VIS;
extern struct sim_info_h sim_info_null SIM_VIS, sim_info_env SIM_VIS;
extern struct sim_errh_h sim_errh_null SIM_VIS, sim_errh_fatal SIM_VIS, sim_errh_return SIM_VIS;
extern char sim_in_place[8] SIM_VIS, sim_bottom[8] SIM_VIS;
extern MPI_Status sim_status_ignore[1] SIM_VIS, sim_statuses_ignore[1] SIM_VIS;
#endif

#define SIM_T(i) ((MPI_Datatype)&sim_types[i])
#define MPI_DATATYPE_NULL SIM_T(0)
#define MPI_CHAR SIM_T(1)
#define MPI_SIGNED_CHAR SIM_T(2)
#define MPI_UNSIGNED_CHAR SIM_T(3)
#define MPI_BYTE SIM_T(4)
#define MPI_WCHAR SIM_T(5)
#define MPI_SHORT SIM_T(6)
#define MPI_UNSIGNED_SHORT SIM_T(7)
#define MPI_INT SIM_T(8)
#define MPI_UNSIGNED SIM_T(9)
#define MPI_LONG SIM_T(10)
#define MPI_UNSIGNED_LONG SIM_T(11)
#define MPI_LONG_LONG_INT SIM_T(12)
#define MPI_LONG_LONG SIM_T(12)
#define MPI_UNSIGNED_LONG_LONG SIM_T(13)
#define MPI_FLOAT SIM_T(14)
#define MPI_DOUBLE SIM_T(15)
#define MPI_LONG_DOUBLE SIM_T(16)
#define MPI_INT8_T SIM_T(17)
#define MPI_UINT8_T SIM_T(18)
#define MPI_INT16_T SIM_T(19)
#define MPI_UINT16_T SIM_T(20)
#define MPI_INT32_T SIM_T(21)
#define MPI_UINT32_T SIM_T(22)
#define MPI_INT64_T SIM_T(23)
#define MPI_UINT64_T SIM_T(24)
#define MPI_C_BOOL SIM_T(25)
#define MPI_C_FLOAT_COMPLEX SIM_T(26)
#define MPI_C_COMPLEX SIM_T(26)
#define MPI_C_DOUBLE_COMPLEX SIM_T(27)
#define MPI_C_LONG_DOUBLE_COMPLEX SIM_T(28)
#define MPI_PACKED SIM_T(29)
#define MPI_AINT SIM_T(30)
#define MPI_OFFSET SIM_T(31)
#define MPI_COUNT SIM_T(32)
#define MPI_FLOAT_INT SIM_T(33)
#define MPI_DOUBLE_INT SIM_T(34)
#define MPI_LONG_INT SIM_T(35)
#define MPI_SHORT_INT SIM_T(36)
#define MPI_2INT SIM_T(37)
#define MPI_LONG_DOUBLE_INT SIM_T(38)
#define MPI_CXX_BOOL SIM_T(25)

#define SIM_O(i) ((MPI_Op)&sim_ops[i])
#define MPI_OP_NULL SIM_O(0)
#define MPI_MAX SIM_O(1)
#define MPI_MIN SIM_O(2)
#define MPI_SUM SIM_O(3)
#define MPI_PROD SIM_O(4)
#define MPI_LAND SIM_O(5)
#define MPI_BAND SIM_O(6)
#define MPI_LOR SIM_O(7)
#define MPI_BOR SIM_O(8)
#define MPI_LXOR SIM_O(9)
#define MPI_BXOR SIM_O(10)
#define MPI_MINLOC SIM_O(11)
#define MPI_MAXLOC SIM_O(12)
#define MPI_REPLACE SIM_O(13)
#define MPI_NO_OP SIM_O(14)

#define MPI_COMM_WORLD ((MPI_Comm)&sim_comm_world)
#define MPI_COMM_SELF ((MPI_Comm)&sim_comm_self)
#define MPI_COMM_NULL ((MPI_Comm)&sim_comm_null)
#define MPI_GROUP_NULL ((MPI_Group)&sim_group_null)
#define MPI_GROUP_EMPTY ((MPI_Group)&sim_group_empty)
#define MPI_WIN_NULL ((MPI_Win)&sim_win_null)
#define MPI_REQUEST_NULL ((MPI_Request)&sim_req_null)
#define MPI_MESSAGE_NULL ((MPI_Message)&sim_msg_null)
#define MPI_MESSAGE_NO_PROC ((MPI_Message)&sim_msg_noproc)
#define MPI_INFO_NULL ((MPI_Info)&sim_info_null)
#define MPI_INFO_ENV ((MPI_Info)&sim_info_env)
#define MPI_ERRHANDLER_NULL ((MPI_Errhandler)&sim_errh_null)
#define MPI_ERRORS_ARE_FATAL ((MPI_Errhandler)&sim_errh_fatal)
#define MPI_ERRORS_RETURN ((MPI_Errhandler)&sim_errh_return)
#define MPI_IN_PLACE ((void *)sim_in_place)
#define MPI_BOTTOM ((void *)0)
#define MPI_STATUS_IGNORE ((MPI_Status *)sim_status_ignore)
#define MPI_STATUSES_IGNORE ((MPI_Status *)sim_statuses_ignore)
#define MPI_ERRCODES_IGNORE ((int *)0)
#define MPI_UNWEIGHTED ((int *)0)

enum { MPI_SUCCESS = 0, MPI_ERR_BUFFER, MPI_ERR_COUNT, MPI_ERR_TYPE, MPI_ERR_TAG, MPI_ERR_COMM,
    MPI_ERR_RANK, MPI_ERR_REQUEST, MPI_ERR_ROOT, MPI_ERR_GROUP, MPI_ERR_OP, MPI_ERR_TOPOLOGY,
    MPI_ERR_DIMS, MPI_ERR_ARG, MPI_ERR_UNKNOWN, MPI_ERR_TRUNCATE, MPI_ERR_OTHER, MPI_ERR_INTERN,
    MPI_ERR_IN_STATUS, MPI_ERR_PENDING, MPI_ERR_INFO, MPI_ERR_INFO_KEY, MPI_ERR_INFO_VALUE,
    MPI_ERR_NO_MEM, MPI_ERR_WIN, MPI_ERR_BASE, MPI_ERR_SIZE, MPI_ERR_DISP, MPI_ERR_RMA_RANGE,
    MPI_ERR_RMA_ATTACH, MPI_ERR_RMA_SYNC, MPI_ERR_LASTCODE = 92 };
enum { MPI_T_ERR_NOT_INITIALIZED = 60, MPI_T_ERR_INVALID_NAME, MPI_T_ERR_INVALID_INDEX,
    MPI_T_ERR_INVALID_HANDLE, MPI_T_ERR_CVAR_SET_NEVER, MPI_T_ERR_CVAR_SET_NOT_NOW };
enum { MPI_THREAD_SINGLE = 0, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED, MPI_THREAD_MULTIPLE };
enum { MPI_IDENT = 0, MPI_CONGRUENT, MPI_SIMILAR, MPI_UNEQUAL };
enum { MPI_COMM_TYPE_SHARED = 1 };
enum { MPI_MODE_NOCHECK = 1, MPI_MODE_NOPRECEDE = 2, MPI_MODE_NOPUT = 4, MPI_MODE_NOSTORE = 8,
    MPI_MODE_NOSUCCEED = 16 };
enum { MPI_LOCK_EXCLUSIVE = 1, MPI_LOCK_SHARED = 2 };
enum { MPI_WIN_FLAVOR_CREATE = 1, MPI_WIN_FLAVOR_ALLOCATE, MPI_WIN_FLAVOR_DYNAMIC, MPI_WIN_FLAVOR_SHARED };
enum { MPI_WIN_SEPARATE = 1, MPI_WIN_UNIFIED };
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_ROOT (-4)
#define MPI_UNDEFINED (-32766)
#define MPI_MAX_PROCESSOR_NAME 128
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_OBJECT_NAME 64
#define MPI_MAX_INFO_KEY 36
#define MPI_MAX_INFO_VAL 256
#define MPI_MAX_LIBRARY_VERSION_STRING 256
#define MPI_MAX_PORT_NAME 256
#define MPI_BSEND_OVERHEAD 96
#define MPI_KEYVAL_INVALID (-1)
enum { MPI_TAG_UB = 1001, MPI_HOST, MPI_IO, MPI_WTIME_IS_GLOBAL, MPI_UNIVERSE_SIZE, MPI_LASTUSEDCODE,
    MPI_APPNUM, MPI_WIN_BASE, MPI_WIN_SIZE, MPI_WIN_DISP_UNIT, MPI_WIN_CREATE_FLAVOR, MPI_WIN_MODEL };

typedef void (MPI_User_function)(void *, void *, int *, MPI_Datatype *);
typedef void (MPI_Comm_errhandler_function)(MPI_Comm *, int *, ...);
typedef void (MPI_Win_errhandler_function)(MPI_Win *, int *, ...);
typedef int (MPI_Comm_copy_attr_function)(MPI_Comm, int, void *, void *, void *, int *);
typedef int (MPI_Comm_delete_attr_function)(MPI_Comm, int, void *, void *);
#define MPI_COMM_NULL_COPY_FN ((MPI_Comm_copy_attr_function *)0)
#define MPI_COMM_NULL_DELETE_FN ((MPI_Comm_delete_attr_function *)0)
typedef struct sim_cvar_h *MPI_T_cvar_handle;
typedef struct sim_enum_h *MPI_T_enum;

/* environment */
int MPI_Init(int *, char ***);
int MPI_Init_thread(int *, char ***, int, int *);
int MPI_Initialized(int *);
int MPI_Finalized(int *);
int MPI_Finalize(void);
int MPI_Query_thread(int *);
int MPI_Is_thread_main(int *);
int MPI_Abort(MPI_Comm, int);
double MPI_Wtime(void);
double MPI_Wtick(void);
int MPI_Get_processor_name(char *, int *);
int MPI_Get_version(int *, int *);
int MPI_Get_library_version(char *, int *);
int MPI_Get_address(const void *, MPI_Aint *);
int MPI_Address(void *, MPI_Aint *);
MPI_Aint MPI_Aint_add(MPI_Aint, MPI_Aint);
MPI_Aint MPI_Aint_diff(MPI_Aint, MPI_Aint);
int MPI_Alloc_mem(MPI_Aint, MPI_Info, void *);
int MPI_Free_mem(void *);
int MPI_Error_string(int, char *, int *);
int MPI_Error_class(int, int *);
int MPI_Pcontrol(const int, ...);
/* info */
int MPI_Info_create(MPI_Info *);
int MPI_Info_dup(MPI_Info, MPI_Info *);
int MPI_Info_set(MPI_Info, const char *, const char *);
int MPI_Info_get(MPI_Info, const char *, int, char *, int *);
int MPI_Info_get_valuelen(MPI_Info, const char *, int *, int *);
int MPI_Info_get_nkeys(MPI_Info, int *);
int MPI_Info_get_nthkey(MPI_Info, int, char *);
int MPI_Info_delete(MPI_Info, const char *);
int MPI_Info_free(MPI_Info *);
/* groups and communicators */
int MPI_Comm_size(MPI_Comm, int *);
int MPI_Comm_rank(MPI_Comm, int *);
int MPI_Comm_dup(MPI_Comm, MPI_Comm *);
int MPI_Comm_dup_with_info(MPI_Comm, MPI_Info, MPI_Comm *);
int MPI_Comm_idup(MPI_Comm, MPI_Comm *, MPI_Request *);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm *);
int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm *);
int MPI_Comm_create(MPI_Comm, MPI_Group, MPI_Comm *);
int MPI_Comm_create_group(MPI_Comm, MPI_Group, int, MPI_Comm *);
int MPI_Comm_free(MPI_Comm *);
int MPI_Comm_disconnect(MPI_Comm *);
int MPI_Comm_group(MPI_Comm, MPI_Group *);
int MPI_Comm_compare(MPI_Comm, MPI_Comm, int *);
int MPI_Comm_get_attr(MPI_Comm, int, void *, int *);
int MPI_Comm_set_attr(MPI_Comm, int, void *);
int MPI_Comm_create_keyval(MPI_Comm_copy_attr_function *, MPI_Comm_delete_attr_function *, int *, void *);
int MPI_Comm_free_keyval(int *);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Comm_get_errhandler(MPI_Comm, MPI_Errhandler *);
int MPI_Comm_set_name(MPI_Comm, const char *);
int MPI_Comm_get_name(MPI_Comm, char *, int *);
int MPI_Comm_set_info(MPI_Comm, MPI_Info);
int MPI_Comm_get_info(MPI_Comm, MPI_Info *);
int MPI_Comm_test_inter(MPI_Comm, int *);
int MPI_Errhandler_free(MPI_Errhandler *);
int MPI_Group_size(MPI_Group, int *);
int MPI_Group_rank(MPI_Group, int *);
int MPI_Group_incl(MPI_Group, int, const int *, MPI_Group *);
int MPI_Group_excl(MPI_Group, int, const int *, MPI_Group *);
int MPI_Group_range_incl(MPI_Group, int, int (*)[3], MPI_Group *);
int MPI_Group_range_excl(MPI_Group, int, int (*)[3], MPI_Group *);
int MPI_Group_union(MPI_Group, MPI_Group, MPI_Group *);
int MPI_Group_intersection(MPI_Group, MPI_Group, MPI_Group *);
int MPI_Group_difference(MPI_Group, MPI_Group, MPI_Group *);
int MPI_Group_translate_ranks(MPI_Group, int, const int *, MPI_Group, int *);
int MPI_Group_compare(MPI_Group, MPI_Group, int *);
int MPI_Group_free(MPI_Group *);
/* datatypes and ops */
int MPI_Type_size(MPI_Datatype, int *);
int MPI_Type_size_x(MPI_Datatype, MPI_Count *);
int MPI_Type_get_extent(MPI_Datatype, MPI_Aint *, MPI_Aint *);
int MPI_Type_get_true_extent(MPI_Datatype, MPI_Aint *, MPI_Aint *);
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype *);
int MPI_Type_vector(int, int, int, MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_hvector(int, int, MPI_Aint, MPI_Datatype, MPI_Datatype *);
int MPI_Type_indexed(int, const int *, const int *, MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_hindexed(int, const int *, const MPI_Aint *, MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_indexed_block(int, int, const int *, MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_hindexed_block(int, int, const MPI_Aint *, MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_struct(int, const int *, const MPI_Aint *, const MPI_Datatype *, MPI_Datatype *);
int MPI_Type_create_resized(MPI_Datatype, MPI_Aint, MPI_Aint, MPI_Datatype *);
int MPI_Type_dup(MPI_Datatype, MPI_Datatype *);
int MPI_Type_commit(MPI_Datatype *);
int MPI_Type_free(MPI_Datatype *);
int MPI_Op_create(MPI_User_function *, int, MPI_Op *);
int MPI_Op_free(MPI_Op *);
int MPI_Reduce_local(const void *, void *, int, MPI_Datatype, MPI_Op);
int MPI_Pack(const void *, int, MPI_Datatype, void *, int, int *, MPI_Comm);
int MPI_Unpack(const void *, int, int *, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Pack_size(int, MPI_Datatype, MPI_Comm, int *);
/* point to point */
int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Bsend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Rsend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Issend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Ibsend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Irsend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Sendrecv(const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Probe(int, int, MPI_Comm, MPI_Status *);
int MPI_Iprobe(int, int, MPI_Comm, int *, MPI_Status *);
int MPI_Improbe(int, int, MPI_Comm, int *, MPI_Message *, MPI_Status *);
int MPI_Mprobe(int, int, MPI_Comm, MPI_Message *, MPI_Status *);
int MPI_Mrecv(void *, int, MPI_Datatype, MPI_Message *, MPI_Status *);
int MPI_Imrecv(void *, int, MPI_Datatype, MPI_Message *, MPI_Request *);
int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *);
int MPI_Get_elements(const MPI_Status *, MPI_Datatype, int *);
int MPI_Test(MPI_Request *, int *, MPI_Status *);
int MPI_Testall(int, MPI_Request *, int *, MPI_Status *);
int MPI_Testany(int, MPI_Request *, int *, int *, MPI_Status *);
int MPI_Testsome(int, MPI_Request *, int *, int *, MPI_Status *);
int MPI_Wait(MPI_Request *, MPI_Status *);
int MPI_Waitall(int, MPI_Request *, MPI_Status *);
int MPI_Waitany(int, MPI_Request *, int *, MPI_Status *);
int MPI_Waitsome(int, MPI_Request *, int *, int *, MPI_Status *);
int MPI_Request_free(MPI_Request *);
int MPI_Request_get_status(MPI_Request, int *, MPI_Status *);
int MPI_Cancel(MPI_Request *);
int MPI_Test_cancelled(const MPI_Status *, int *);
int MPI_Send_init(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Recv_init(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Start(MPI_Request *);
int MPI_Startall(int, MPI_Request *);
/* collectives */
#define SIM_COLL(name, args) int MPI_##name args
int MPI_Barrier(MPI_Comm);
int MPI_Ibarrier(MPI_Comm, MPI_Request *);
int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Ibcast(void *, int, MPI_Datatype, int, MPI_Comm, MPI_Request *);
int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Ireduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm, MPI_Request *);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Iallreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request *);
int MPI_Scan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Igather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm, MPI_Request *);
int MPI_Gatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int, MPI_Comm);
int MPI_Igatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int, MPI_Comm, MPI_Request *);
int MPI_Scatter(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Iscatter(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm, MPI_Request *);
int MPI_Scatterv(const void *, const int *, const int *, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Iallgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm, MPI_Request *);
int MPI_Allgatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Iallgatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm, MPI_Request *);
int MPI_Alltoall(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Ialltoall(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm, MPI_Request *);
int MPI_Alltoallv(const void *, const int *, const int *, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Ialltoallv(const void *, const int *, const int *, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm, MPI_Request *);
int MPI_Reduce_scatter_block(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
/* one sided */
int MPI_Win_create(void *, MPI_Aint, int, MPI_Info, MPI_Comm, MPI_Win *);
int MPI_Win_allocate(MPI_Aint, int, MPI_Info, MPI_Comm, void *, MPI_Win *);
int MPI_Win_allocate_shared(MPI_Aint, int, MPI_Info, MPI_Comm, void *, MPI_Win *);
int MPI_Win_shared_query(MPI_Win, int, MPI_Aint *, int *, void *);
int MPI_Win_create_dynamic(MPI_Info, MPI_Comm, MPI_Win *);
int MPI_Win_attach(MPI_Win, void *, MPI_Aint);
int MPI_Win_detach(MPI_Win, const void *);
int MPI_Win_free(MPI_Win *);
int MPI_Win_get_group(MPI_Win, MPI_Group *);
int MPI_Win_get_attr(MPI_Win, int, void *, int *);
int MPI_Win_set_info(MPI_Win, MPI_Info);
int MPI_Win_get_info(MPI_Win, MPI_Info *);
int MPI_Win_set_errhandler(MPI_Win, MPI_Errhandler);
int MPI_Win_set_name(MPI_Win, const char *);
int MPI_Win_fence(int, MPI_Win);
int MPI_Win_lock(int, int, int, MPI_Win);
int MPI_Win_unlock(int, MPI_Win);
int MPI_Win_lock_all(int, MPI_Win);
int MPI_Win_unlock_all(MPI_Win);
int MPI_Win_flush(int, MPI_Win);
int MPI_Win_flush_all(MPI_Win);
int MPI_Win_flush_local(int, MPI_Win);
int MPI_Win_flush_local_all(MPI_Win);
int MPI_Win_sync(MPI_Win);
int MPI_Put(const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win);
int MPI_Get(void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win);
int MPI_Accumulate(const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win);
int MPI_Get_accumulate(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win);
int MPI_Fetch_and_op(const void *, void *, MPI_Datatype, int, MPI_Aint, MPI_Op, MPI_Win);
int MPI_Compare_and_swap(const void *, const void *, void *, MPI_Datatype, int, MPI_Aint, MPI_Win);
int MPI_Rput(const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win, MPI_Request *);
int MPI_Rget(void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win, MPI_Request *);
int MPI_Raccumulate(const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win, MPI_Request *);
int MPI_Rget_accumulate(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win, MPI_Request *);
/* tools */
int MPI_T_init_thread(int, int *);
int MPI_T_finalize(void);
int MPI_T_cvar_get_num(int *);
int MPI_T_cvar_get_index(const char *, int *);
int MPI_T_cvar_handle_alloc(int, void *, MPI_T_cvar_handle *, int *);
int MPI_T_cvar_handle_free(MPI_T_cvar_handle *);
int MPI_T_cvar_read(MPI_T_cvar_handle, void *);
int MPI_T_cvar_write(MPI_T_cvar_handle, const void *);

#ifdef __cplusplus
}
#endif
#endif
