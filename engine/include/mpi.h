#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Request; typedef int MPI_Info;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR, count_; } MPI_Status;
#define MPI_SUCCESS 0
#define MPI_COMM_WORLD 91
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_DATATYPE_NULL 0
#define MPI_CHAR 1
#define MPI_BYTE 1
#define MPI_INT 2
#define MPI_UNSIGNED 2
#define MPI_LONG 3
#define MPI_UNSIGNED_LONG 4
#define MPI_LONG_LONG 3
#define MPI_LONG_LONG_INT 3
#define MPI_UNSIGNED_LONG_LONG 4
#define MPI_UINT64_T 4
#define MPI_INT64_T 3
#define MPI_UINT32_T 2
#define MPI_DOUBLE 5
#define MPI_C_BOOL 6
#define MPI_FLOAT 7
#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_PROD 4
#define MPI_LAND 5
#define MPI_LOR 6
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
int MPI_Init(int*, char***); int MPI_Finalize(void); int MPI_Comm_rank(MPI_Comm, int*); int MPI_Comm_size(MPI_Comm, int*);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm); int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm); int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm); int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Scatter(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Scatterv(const void*, const int*, const int*, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Barrier(MPI_Comm); int MPI_Abort(MPI_Comm, int); int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*); int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
double MPI_Wtime(void); int MPI_Initialized(int*);
#ifdef __cplusplus
}
#endif
