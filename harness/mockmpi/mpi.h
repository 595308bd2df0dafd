// A simulated MPI: every rank is a fiber, a seeded scheduler decides which rank runs at every MPI
// call and when one-sided operations complete, and every call is checked against the standard.
// Only what the code under test (and plausible rewrites of it) uses is there.
#ifndef MOCK_MPI_H
#define MOCK_MPI_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef long MPI_Aint;
typedef int MPI_Comm;
typedef int MPI_Info;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Win;
typedef int MPI_Group;
typedef int MPI_Errhandler;
typedef int MPI_Request;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; size_t bytes; } MPI_Status;
#define MPI_SUCCESS 0
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 91
#define MPI_COMM_SELF 92
#define MPI_INFO_NULL 0
#define MPI_WIN_NULL 0
#define MPI_STATUS_IGNORE ((MPI_Status*) 0)
#define MPI_IN_PLACE ((void*) -1)
#define MPI_BYTE 1
#define MPI_CHAR 2
#define MPI_INT 3
#define MPI_UNSIGNED 4
#define MPI_LONG 5
#define MPI_UNSIGNED_LONG 6
#define MPI_LONG_LONG 7
#define MPI_LONG_LONG_INT 7
#define MPI_UNSIGNED_LONG_LONG 8
#define MPI_FLOAT 9
#define MPI_DOUBLE 10
#define MPI_INT64_T 11
#define MPI_UINT64_T 12
#define MPI_C_BOOL 13
#define MPI_CXX_BOOL 14
#define MPI_SUM 1
#define MPI_MIN 2
#define MPI_MAX 3
#define MPI_PROD 4
#define MPI_LAND 5
#define MPI_LOR 6
#define MPI_MODE_NOCHECK 1
#define MPI_MODE_NOSTORE 2
#define MPI_MODE_NOPUT 4
#define MPI_MODE_NOPRECEDE 8
#define MPI_MODE_NOSUCCEED 16
#define MPI_LOCK_EXCLUSIVE 1
#define MPI_LOCK_SHARED 2
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_PROC_NULL -2
#define MPI_ANY_SOURCE -1
#define MPI_ANY_TAG -1
#define MPI_REQUEST_NULL 0
#define MPI_STATUSES_IGNORE ((MPI_Status*) 0)
#define MPI_REPLACE 99
#define MPI_UNDEFINED -32766
#define MPI_MAX_PROCESSOR_NAME 64
#define MPI_MAX_ERROR_STRING 64
#define MPI_MAX_LIBRARY_VERSION_STRING 64
#define MPI_GROUP_NULL 0
#define MPI_DATATYPE_NULL 0
#define MPI_ERRORS_RETURN 1
#define MPI_ERRORS_ARE_FATAL 2
int MPI_Init(int* argc, char*** argv);
int MPI_Init_thread(int* argc, char*** argv, int required, int* provided);
int MPI_Initialized(int* flag);
int MPI_Finalized(int* flag);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm comm, int code);
int MPI_Comm_rank(MPI_Comm comm, int* rank);
int MPI_Comm_size(MPI_Comm comm, int* size);
double MPI_Wtime(void);
double MPI_Wtick(void);
int MPI_Get_processor_name(char* name, int* len);
int MPI_Alloc_mem(MPI_Aint size, MPI_Info info, void* baseptr);
int MPI_Free_mem(void* base);
int MPI_Win_create(void* base, MPI_Aint size, int disp_unit, MPI_Info info, MPI_Comm comm,
                   MPI_Win* win);
int MPI_Win_allocate(MPI_Aint size, int disp_unit, MPI_Info info, MPI_Comm comm, void* baseptr,
                     MPI_Win* win);
int MPI_Win_free(MPI_Win* win);
int MPI_Win_fence(int assert_, MPI_Win win);
int MPI_Win_lock(int type, int rank, int assert_, MPI_Win win);
int MPI_Win_unlock(int rank, MPI_Win win);
int MPI_Win_lock_all(int assert_, MPI_Win win);
int MPI_Win_unlock_all(MPI_Win win);
int MPI_Win_flush(int rank, MPI_Win win);
int MPI_Win_flush_all(MPI_Win win);
int MPI_Win_sync(MPI_Win win);
int MPI_Get(void* origin, int ocount, MPI_Datatype otype, int target, MPI_Aint disp, int tcount,
            MPI_Datatype ttype, MPI_Win win);
int MPI_Put(const void* origin, int ocount, MPI_Datatype otype, int target, MPI_Aint disp,
            int tcount, MPI_Datatype ttype, MPI_Win win);
int MPI_Barrier(MPI_Comm comm);
int MPI_Bcast(void* buf, int count, MPI_Datatype type, int root, MPI_Comm comm);
int MPI_Reduce(const void* s, void* r, int count, MPI_Datatype type, MPI_Op op, int root,
               MPI_Comm comm);
int MPI_Allreduce(const void* s, void* r, int count, MPI_Datatype type, MPI_Op op, MPI_Comm comm);
int MPI_Gather(const void* s, int scount, MPI_Datatype stype, void* r, int rcount,
               MPI_Datatype rtype, int root, MPI_Comm comm);
int MPI_Allgather(const void* s, int scount, MPI_Datatype stype, void* r, int rcount,
                  MPI_Datatype rtype, MPI_Comm comm);
int MPI_Gatherv(const void* s, int scount, MPI_Datatype stype, void* r, const int* rcounts,
                const int* displs, MPI_Datatype rtype, int root, MPI_Comm comm);
int MPI_Scatter(const void* s, int scount, MPI_Datatype stype, void* r, int rcount,
                MPI_Datatype rtype, int root, MPI_Comm comm);
int MPI_Type_size(MPI_Datatype t, int* size);
int MPI_Comm_dup(MPI_Comm comm, MPI_Comm* copy);
int MPI_Comm_free(MPI_Comm* comm);
int MPI_Send(const void* b, int count, MPI_Datatype t, int dst, int tag, MPI_Comm comm);
int MPI_Ssend(const void* b, int count, MPI_Datatype t, int dst, int tag, MPI_Comm comm);
int MPI_Isend(const void* b, int count, MPI_Datatype t, int dst, int tag, MPI_Comm comm, MPI_Request* q);
int MPI_Issend(const void* b, int count, MPI_Datatype t, int dst, int tag, MPI_Comm comm, MPI_Request* q);
int MPI_Recv(void* b, int count, MPI_Datatype t, int src, int tag, MPI_Comm comm, MPI_Status* st);
int MPI_Irecv(void* b, int count, MPI_Datatype t, int src, int tag, MPI_Comm comm, MPI_Request* q);
int MPI_Sendrecv(const void* sb, int sc, MPI_Datatype st, int dst, int stag, void* rb, int rc, MPI_Datatype rt,
                 int src, int rtag, MPI_Comm comm, MPI_Status* status);
int MPI_Wait(MPI_Request* q, MPI_Status* st);
int MPI_Waitall(int n, MPI_Request* q, MPI_Status* st);
int MPI_Test(MPI_Request* q, int* flag, MPI_Status* st);
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* count);
int MPI_Rget(void* origin, int ocount, MPI_Datatype otype, int target, MPI_Aint disp, int tcount,
             MPI_Datatype ttype, MPI_Win win, MPI_Request* q);
int MPI_Accumulate(const void* origin, int ocount, MPI_Datatype otype, int target, MPI_Aint disp,
                   int tcount, MPI_Datatype ttype, MPI_Op op, MPI_Win win);
int MPI_Ibarrier(MPI_Comm comm, MPI_Request* q);
int MPI_Ibcast(void* b, int count, MPI_Datatype type, int root, MPI_Comm comm, MPI_Request* q);
int MPI_Ireduce(const void* s, void* r, int count, MPI_Datatype type, MPI_Op op, int root, MPI_Comm comm, MPI_Request* q);
int MPI_Iallreduce(const void* s, void* r, int count, MPI_Datatype type, MPI_Op op, MPI_Comm comm, MPI_Request* q);
int MPI_Testall(int n, MPI_Request* q, int* flag, MPI_Status* st);
int MPI_Waitany(int n, MPI_Request* q, int* index, MPI_Status* st);
int MPI_Request_free(MPI_Request* q);
int MPI_Probe(int src, int tag, MPI_Comm comm, MPI_Status* st);
int MPI_Iprobe(int src, int tag, MPI_Comm comm, int* flag, MPI_Status* st);
int MPI_Comm_group(MPI_Comm comm, MPI_Group* g);
int MPI_Group_incl(MPI_Group g, int n, const int* ranks, MPI_Group* sub);
int MPI_Group_size(MPI_Group g, int* n);
int MPI_Group_free(MPI_Group* g);
int MPI_Win_post(MPI_Group g, int assert_, MPI_Win win);
int MPI_Win_start(MPI_Group g, int assert_, MPI_Win win);
int MPI_Win_complete(MPI_Win win);
int MPI_Win_wait(MPI_Win win);
int MPI_Type_contiguous(int n, MPI_Datatype old, MPI_Datatype* t);
int MPI_Type_commit(MPI_Datatype* t);
int MPI_Type_free(MPI_Datatype* t);
int MPI_Info_create(MPI_Info* i);
int MPI_Info_set(MPI_Info i, const char* key, const char* value);
int MPI_Info_free(MPI_Info* i);
int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler h);
int MPI_Win_set_errhandler(MPI_Win w, MPI_Errhandler h);
int MPI_Error_string(int e, char* s, int* n);
int MPI_Error_class(int e, int* c);
int MPI_Query_thread(int* provided);
int MPI_Is_thread_main(int* flag);
int MPI_Get_version(int* a, int* b);
int MPI_Get_library_version(char* s, int* n);
int MPI_Get_address(const void* p, MPI_Aint* a);
#ifdef __cplusplus
}
#endif
#endif
