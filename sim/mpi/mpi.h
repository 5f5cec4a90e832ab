/* MPI interface implemented by the simulator (sim/simmpi.cpp). */
#ifndef SIM_MPI_H
#define SIM_MPI_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Info;
typedef int MPI_Errhandler;
typedef int MPI_Group;
typedef long MPI_Aint;
typedef long long MPI_Offset;
typedef long long MPI_Count;
typedef struct SimMpiRequest_ *MPI_Request;
typedef struct SimMpiMessage_ *MPI_Message;
typedef struct MPI_Status {
    int MPI_SOURCE;
    int MPI_TAG;
    int MPI_ERROR;
    int sim_bytes;
    int sim_cancelled;
} MPI_Status;

#define MPI_COMM_NULL  ((MPI_Comm) 0)
#define MPI_COMM_WORLD ((MPI_Comm) 1)
#define MPI_COMM_SELF  ((MPI_Comm) 2)
#define MPI_REQUEST_NULL ((MPI_Request) 0)
#define MPI_MESSAGE_NULL ((MPI_Message) 0)
#define MPI_INFO_NULL 0
#define MPI_ERRORS_ARE_FATAL 0
#define MPI_ERRORS_RETURN 1
#define MPI_STATUS_IGNORE ((MPI_Status *) 0)
#define MPI_STATUSES_IGNORE ((MPI_Status *) 0)
#define MPI_IN_PLACE ((void *) -1)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_UNDEFINED (-32766)
#define MPI_TAG_UB 1
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_MAX_ERROR_STRING 512

#define MPI_SUCCESS 0
#define MPI_ERR_BUFFER 1
#define MPI_ERR_COUNT 2
#define MPI_ERR_TYPE 3
#define MPI_ERR_TAG 4
#define MPI_ERR_COMM 5
#define MPI_ERR_RANK 6
#define MPI_ERR_REQUEST 7
#define MPI_ERR_TRUNCATE 15
#define MPI_ERR_OTHER 16
#define MPI_ERR_IN_STATUS 18

enum { MPI_THREAD_SINGLE, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED, MPI_THREAD_MULTIPLE };

/* high byte: size */
#define SIM_DT(id, size) (((size) << 8) | (id))
#define MPI_DATATYPE_NULL 0
#define MPI_CHAR SIM_DT(1, 1)
#define MPI_SIGNED_CHAR SIM_DT(2, 1)
#define MPI_UNSIGNED_CHAR SIM_DT(3, 1)
#define MPI_BYTE SIM_DT(4, 1)
#define MPI_SHORT SIM_DT(5, 2)
#define MPI_UNSIGNED_SHORT SIM_DT(6, 2)
#define MPI_INT SIM_DT(7, 4)
#define MPI_UNSIGNED SIM_DT(8, 4)
#define MPI_LONG SIM_DT(9, 8)
#define MPI_UNSIGNED_LONG SIM_DT(10, 8)
#define MPI_LONG_LONG_INT SIM_DT(11, 8)
#define MPI_LONG_LONG MPI_LONG_LONG_INT
#define MPI_UNSIGNED_LONG_LONG SIM_DT(12, 8)
#define MPI_FLOAT SIM_DT(13, 4)
#define MPI_DOUBLE SIM_DT(14, 8)
#define MPI_LONG_DOUBLE SIM_DT(15, 16)
#define MPI_INT8_T SIM_DT(16, 1)
#define MPI_INT16_T SIM_DT(17, 2)
#define MPI_INT32_T SIM_DT(18, 4)
#define MPI_INT64_T SIM_DT(19, 8)
#define MPI_UINT8_T SIM_DT(20, 1)
#define MPI_UINT16_T SIM_DT(21, 2)
#define MPI_UINT32_T SIM_DT(22, 4)
#define MPI_UINT64_T SIM_DT(23, 8)
#define MPI_C_BOOL SIM_DT(24, 1)
#define MPI_CXX_BOOL SIM_DT(25, 1)

enum { MPI_OP_NULL, MPI_SUM, MPI_MIN, MPI_MAX, MPI_PROD, MPI_LAND, MPI_LOR, MPI_BAND, MPI_BOR };

int MPI_Init(int *, char ***);
int MPI_Init_thread(int *, char ***, int, int *);
int MPI_Initialized(int *);
int MPI_Finalize(void);
int MPI_Finalized(int *);
int MPI_Query_thread(int *);
int MPI_Abort(MPI_Comm, int);
int MPI_Comm_rank(MPI_Comm, int *);
int MPI_Comm_size(MPI_Comm, int *);
int MPI_Comm_dup(MPI_Comm, MPI_Comm *);
int MPI_Comm_free(MPI_Comm *);
int MPI_Comm_compare(MPI_Comm, MPI_Comm, int *);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Get_processor_name(char *, int *);
int MPI_Error_string(int, char *, int *);
double MPI_Wtime(void);
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Issend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Sendrecv(const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Test(MPI_Request *, int *, MPI_Status *);
int MPI_Testall(int, MPI_Request[], int *, MPI_Status[]);
int MPI_Testany(int, MPI_Request[], int *, int *, MPI_Status *);
int MPI_Testsome(int, MPI_Request[], int *, int[], MPI_Status[]);
int MPI_Wait(MPI_Request *, MPI_Status *);
int MPI_Waitall(int, MPI_Request[], MPI_Status[]);
int MPI_Waitany(int, MPI_Request[], int *, MPI_Status *);
int MPI_Cancel(MPI_Request *);
int MPI_Test_cancelled(const MPI_Status *, int *);
int MPI_Request_free(MPI_Request *);
int MPI_Request_get_status(MPI_Request, int *, MPI_Status *);
int MPI_Probe(int, int, MPI_Comm, MPI_Status *);
int MPI_Iprobe(int, int, MPI_Comm, int *, MPI_Status *);
int MPI_Improbe(int, int, MPI_Comm, int *, MPI_Message *, MPI_Status *);
int MPI_Mprobe(int, int, MPI_Comm, MPI_Message *, MPI_Status *);
int MPI_Imrecv(void *, int, MPI_Datatype, MPI_Message *, MPI_Request *);
int MPI_Mrecv(void *, int, MPI_Datatype, MPI_Message *, MPI_Status *);
int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *);
int MPI_Type_size(MPI_Datatype, int *);
int MPI_Barrier(MPI_Comm);
int MPI_Ibarrier(MPI_Comm, MPI_Request *);
int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
#ifdef __cplusplus
}
#endif
#endif
