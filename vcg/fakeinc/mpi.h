#ifndef VCG_MPI
#define VCG_MPI
#include "_types.h"
/* opaque handles, as in Open MPI: pointers to incomplete objects */
typedef struct ompi_communicator_t *MPI_Comm;
typedef struct ompi_datatype_t *MPI_Datatype;
typedef struct ompi_op_t *MPI_Op;
typedef struct ompi_request_t *MPI_Request;
typedef struct ompi_info_t *MPI_Info;
typedef struct ompi_group_t *MPI_Group;
typedef struct ompi_status_public_t { int MPI_SOURCE; int MPI_TAG; int MPI_ERROR; int _cancelled; size_t _ucount; } MPI_Status;
typedef long MPI_Aint;
extern MPI_Comm MPI_COMM_WORLD, MPI_COMM_NULL, MPI_COMM_SELF;
extern MPI_Request MPI_REQUEST_NULL;
extern MPI_Datatype MPI_INT, MPI_LONG, MPI_DOUBLE, MPI_FLOAT, MPI_CHAR, MPI_LONG_INT, MPI_BYTE, MPI_UNSIGNED_LONG;
extern MPI_Op MPI_SUM, MPI_MIN, MPI_MAX, MPI_BAND, MPI_BOR;
extern MPI_Info MPI_INFO_NULL;
#define MPI_SUCCESS 0
#define MPI_ERR_INTERN 17
#define MPI_UNDEFINED (-32766)
#define MPI_COMM_TYPE_SHARED 0
extern MPI_Status *VCG_STATUS_IGNORE, *VCG_STATUSES_IGNORE;
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
extern void *VCG_IN_PLACE;
#define MPI_IN_PLACE VCG_IN_PLACE
#include "mpi_protos.h"
#endif
