/* Stand-in for <mpi.h>: the interface of the simulated message-passing layer
 * (implemented in sim.c).  Only the include path of the simulation builds
 * contains this file; the shipped builds never see it. */
#ifndef SIM_MPI_H
#define SIM_MPI_H
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm;
typedef int MPI_Group;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Request;
typedef long MPI_Aint;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; long bytes_; } MPI_Status;
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_GROUP_NULL 0
#define MPI_GROUP_EMPTY (-1)
#define MPI_REQUEST_NULL 0
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_UNDEFINED (-32766)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_BOTTOM ((void*)0)
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_MAX_ERROR_STRING 256
#define MPI_TAG_UB 7
enum { MPI_DATATYPE_NULL=0, MPI_CHAR=1, MPI_BYTE, MPI_INT, MPI_LONG, MPI_FLOAT,
       MPI_DOUBLE, MPI_SHORT, MPI_UNSIGNED, MPI_UNSIGNED_LONG, MPI_LONG_LONG,
       MPI_UNSIGNED_CHAR, MPI_PACKED, MPI_DOUBLE_INT };
#define MPI_LONG_LONG_INT MPI_LONG_LONG
enum { MPI_OP_NULL=0, MPI_SUM=1, MPI_MIN, MPI_MAX, MPI_PROD, MPI_LAND, MPI_LOR,
       MPI_BAND, MPI_BOR, MPI_MINLOC, MPI_MAXLOC };
int MPI_Init(int*,char***); int MPI_Initialized(int*); int MPI_Finalized(int*);
int MPI_Finalize(void); int MPI_Abort(MPI_Comm,int);
int MPI_Comm_rank(MPI_Comm,int*); int MPI_Comm_size(MPI_Comm,int*);
int MPI_Comm_group(MPI_Comm,MPI_Group*); int MPI_Group_incl(MPI_Group,int,const int*,MPI_Group*);
int MPI_Group_free(MPI_Group*); int MPI_Group_rank(MPI_Group,int*); int MPI_Group_size(MPI_Group,int*);
int MPI_Comm_create(MPI_Comm,MPI_Group,MPI_Comm*); int MPI_Comm_dup(MPI_Comm,MPI_Comm*);
int MPI_Comm_split(MPI_Comm,int,int,MPI_Comm*); int MPI_Comm_free(MPI_Comm*);
int MPI_Send(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Ssend(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Rsend(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Recv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*);
int MPI_Isend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Issend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Irecv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Sendrecv(const void*,int,MPI_Datatype,int,int,void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*);
int MPI_Wait(MPI_Request*,MPI_Status*); int MPI_Waitall(int,MPI_Request*,MPI_Status*);
int MPI_Waitany(int,MPI_Request*,int*,MPI_Status*);
int MPI_Waitsome(int,MPI_Request*,int*,int*,MPI_Status*);
int MPI_Test(MPI_Request*,int*,MPI_Status*); int MPI_Testall(int,MPI_Request*,int*,MPI_Status*);
int MPI_Testany(int,MPI_Request*,int*,int*,MPI_Status*);
int MPI_Probe(int,int,MPI_Comm,MPI_Status*); int MPI_Iprobe(int,int,MPI_Comm,int*,MPI_Status*);
int MPI_Get_count(const MPI_Status*,MPI_Datatype,int*);
int MPI_Request_free(MPI_Request*);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Reduce(const void*,void*,int,MPI_Datatype,MPI_Op,int,MPI_Comm);
int MPI_Allreduce(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
int MPI_Allgather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm);
int MPI_Gather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Scatter(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Alltoall(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm);
double MPI_Wtime(void); double MPI_Wtick(void);
int MPI_Get_processor_name(char*,int*); int MPI_Error_string(int,char*,int*);
int MPI_Type_size(MPI_Datatype,int*);
#ifdef __cplusplus
}
#endif
#endif
