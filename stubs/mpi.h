// stand-in for MPI: one rank by default; harnesses that reason about several ranks use the ghost variables
#ifndef VC_MPI
#define VC_MPI
#include <cstring>
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Request;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; };
#define MPI_COMM_WORLD 0
#define MPI_COMM_SELF 1
#define MPI_DOUBLE 8
#define MPI_INT 4
#define MPI_BYTE 1
#define MPI_CHAR 1
#define MPI_LONG 9
#define MPI_LONG_LONG 10
#define MPI_UNSIGNED 11
#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_IN_PLACE ((void *)-1)
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_SUCCESS 0
#define MPI_DATATYPE_NULL 0
extern "C" {
#ifdef VC_MPI_CUSTOM
extern int vc_mpi_rank, vc_mpi_size;
#else
static int vc_mpi_rank = 0, vc_mpi_size = 1;
#endif
inline int MPI_Comm_rank(MPI_Comm, int *r) { *r = vc_mpi_rank; return 0; }
inline int MPI_Comm_size(MPI_Comm, int *r) { *r = vc_mpi_size; return 0; }
inline int MPI_Barrier(MPI_Comm) { return 0; }
inline int MPI_Initialized(int *f) { *f = 1; return 0; }
inline int MPI_Finalized(int *f) { *f = 0; return 0; }
inline int MPI_Init(int *, char ***) { return 0; }
inline int MPI_Finalize() { return 0; }
inline int MPI_Abort(MPI_Comm, int) { return 0; }
// a contiguous type of n bytes is the handle 1000 + n
inline int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype *r) { *r = 1000 + n * (t >= 1000 ? t - 1000 : t); return 0; }
inline int MPI_Type_commit(MPI_Datatype *) { return 0; }
inline int MPI_Type_free(MPI_Datatype *t) { *t = 0; return 0; }
inline long vc_mpi_bytes(MPI_Datatype t) { return t >= 1000 ? t - 1000 : t == MPI_INT ? 4 : t == MPI_BYTE ? 1 : t == MPI_UNSIGNED ? 4 : 8; }
#ifdef VC_MPI_COLL   // the harness gives the contracts of the collectives
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op, MPI_Comm);
int MPI_Gather(const void *s, int ns, MPI_Datatype, void *r, int nr, MPI_Datatype, int root, MPI_Comm);
int MPI_Scatterv(const void *s, const int *ns, const int *disp, MPI_Datatype, void *r, int nr, MPI_Datatype, int root, MPI_Comm);
int MPI_Allgather(const void *s, int ns, MPI_Datatype, void *r, int nr, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void *s, int ns, MPI_Datatype, void *r, const int *nr, const int *disp, MPI_Datatype, MPI_Comm);
int MPI_Alltoall(const void *s, int ns, MPI_Datatype, void *r, int nr, MPI_Datatype, MPI_Comm);
int MPI_Alltoallv(const void *s, const int *ns, const int *ds, MPI_Datatype, void *r, const int *nr, const int *dr, MPI_Datatype, MPI_Comm);
#else                // one rank
inline int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op, MPI_Comm) { if (s != MPI_IN_PLACE) memcpy(r, s, n * vc_mpi_bytes(t)); return 0; }
inline int MPI_Gather(const void *s, int ns, MPI_Datatype t, void *r, int, MPI_Datatype, int, MPI_Comm) { memcpy(r, s, ns * vc_mpi_bytes(t)); return 0; }
inline int MPI_Scatterv(const void *s, const int *ns, const int *disp, MPI_Datatype t, void *r, int nr, MPI_Datatype, int, MPI_Comm) { memcpy(r, (const char *)s + disp[0] * vc_mpi_bytes(t), ns[0] * vc_mpi_bytes(t)); return 0; }
inline int MPI_Allgather(const void *s, int ns, MPI_Datatype t, void *r, int, MPI_Datatype, MPI_Comm) { memcpy(r, s, ns * vc_mpi_bytes(t)); return 0; }
inline int MPI_Allgatherv(const void *s, int ns, MPI_Datatype t, void *r, const int *, const int *disp, MPI_Datatype, MPI_Comm) { memcpy((char *)r + disp[0] * vc_mpi_bytes(t), s, ns * vc_mpi_bytes(t)); return 0; }
inline int MPI_Alltoall(const void *s, int ns, MPI_Datatype t, void *r, int, MPI_Datatype, MPI_Comm) { memcpy(r, s, ns * vc_mpi_bytes(t)); return 0; }
inline int MPI_Alltoallv(const void *s, const int *ns, const int *ds, MPI_Datatype t, void *r, const int *, const int *dr, MPI_Datatype, MPI_Comm) { memcpy((char *)r + dr[0] * vc_mpi_bytes(t), (const char *)s + ds[0] * vc_mpi_bytes(t), ns[0] * vc_mpi_bytes(t)); return 0; }
#endif
}
#endif
