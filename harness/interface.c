/* C04: the MPI layer forwards plain MPI traffic untouched and drives exactly the right accelerated handle.
 * Everything outside ext_mpi_interface.c is a recording stub with an arbitrary result. */
#include "vh.h"
#include <mpi.h>
#include <stdint.h>
#include "ext_mpi.h"
#include "ext_mpi_blocking.h"

enum { E_NONE, E_PMPI, E_RECV_INIT, E_EXT_INIT, E_INSERT, E_DELETE, E_START, E_WAIT, E_TEST, E_DONE, E_BINSERT, E_BDELETE, E_BINIT, E_BFINAL, E_BCALL, E_TYPESIZE };
#ifndef NEV
#define NEV 64
#endif
#define NA 14
static struct ev { int kind; const char *name; intptr_t a[NA]; long ret; } L[NEV];
static int nl;
#define MAXR 4
static MPI_Request rq[MAXR];          /* the requests of a call */
static int acc[MAXR];                 /* accelerated: handle, else -1 */
static int nrq;
static int last[MAXR];                /* result of the last test of request i */
static int polls;
static int pret;                      /* result of the PMPI call */
static int eret;                      /* result of the accelerated call */
static int bhandle;                   /* handle of the communicator */
static int newhandle;
static MPI_Request placeholder;
static MPI_Comm newcomm_v;
static int tsize;

static struct ev *ev(int kind, const char *name, int n, const intptr_t *a) {
  struct ev *e = &L[nl < NEV ? nl : NEV - 1];
  int i;
  nl++;
  e->kind = kind; e->name = name; e->ret = 0;
  for (i = 0; i < NA; i++) e->a[i] = i < n ? a[i] : 0;
  return e;
}
#define P(x) ((intptr_t)(x))
#define EVT(kind, name, ...) ev(kind, name, (int)(sizeof((intptr_t[]){__VA_ARGS__}) / sizeof(intptr_t)), (intptr_t[]){__VA_ARGS__})

/* ---- stubs: the request table */
static int idx_of(MPI_Request r) { int i; for (i = 0; i < nrq; i++) if (rq[i] == r) return i; return -1; }
static int idx_ptr(MPI_Request *r, MPI_Request *base) { return (int)(r - base); }
int ext_mpi_hash_init(void) { return 0; }
int ext_mpi_hash_done(void) { return 0; }
static MPI_Request *cur_base;
static MPI_Request orig[MAXR];
int ext_mpi_hash_search(MPI_Request *k) { int i; for (i = 0; i < nrq; i++) if (orig[i] == *k && *k != MPI_REQUEST_NULL) return acc[i]; return -1; }
void ext_mpi_hash_insert(MPI_Request *k, int h) { EVT(E_INSERT, "insert", P(*k), h); }
int ext_mpi_hash_delete(MPI_Request *k) { EVT(E_DELETE, "delete", P(*k)); return ext_mpi_hash_search(k); }
int ext_mpi_hash_init_blocking(void) { return 0; }
int ext_mpi_hash_done_blocking(void) { return 0; }
int ext_mpi_hash_search_blocking(MPI_Comm *c) { return bhandle; }
void ext_mpi_hash_insert_blocking(MPI_Comm *c, int h) { EVT(E_BINSERT, "binsert", P(*c), h); }
int ext_mpi_hash_delete_blocking(MPI_Comm *c) { EVT(E_BDELETE, "bdelete", P(*c)); return bhandle; }

/* ---- stubs: accelerated calls */
int EXT_MPI_Init(void) { return 0; }
int EXT_MPI_Finalize(void) { return 0; }
int EXT_MPI_Init_blocking_comm(MPI_Comm c, int i) { EVT(E_BINIT, "binit", P(c), i); return 0; }
int EXT_MPI_Finalize_blocking_comm(int i) { EVT(E_BFINAL, "bfinal", i); return 0; }
int EXT_MPI_Start(int h) { EVT(E_START, "start", h); return 0; }
int EXT_MPI_Done(int h) { EVT(E_DONE, "done", h); return 0; }
int EXT_MPI_Wait(int h) { EVT(E_WAIT, "wait", h); return 0; }
int EXT_MPI_Progress(void) { return 0; }
static int poll_result(void) { polls++; return polls > 5 ? 1 : (int)vh_int("done", 0, 1); }
static int inactive_acc;
int EXT_MPI_Test(int h) { int i, r = inactive_acc && h == inactive_acc ? 1 : poll_result(); EVT(E_TEST, "test", h)->ret = r; for (i = 0; i < nrq; i++) if (acc[i] == h) last[i] = r; return r; }
static int arrs_seen, arrs_n, arr_c[MAXR], arr_d[MAXR];
static void grab(const int *c, const int *d, int n) { int i; arrs_seen++; for (i = 0; i < n && i < MAXR; i++) { arr_c[i] = c[i]; arr_d[i] = d ? d[i] : 0; } }
static int csize;
int EXT_MPI_Allreduce_init(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c, MPI_Info f, int *h) { EVT(E_EXT_INIT, "Allreduce", P(s), P(r), n, P(t), P(o), P(c), P(f)); *h = newhandle; return eret; }
int EXT_MPI_Allgatherv_init(const void *s, int n, MPI_Datatype t, void *r, const int *rc, const int *d, MPI_Datatype rt, MPI_Comm c, MPI_Info f, int *h) { EVT(E_EXT_INIT, "Allgatherv", P(s), n, P(t), P(r), P(rc), P(d), P(rt), P(c), P(f)); if (csize) grab(rc, d, csize); *h = newhandle; return eret; }
int EXT_MPI_Reduce_scatter_init(const void *s, void *r, const int *rc, MPI_Datatype t, MPI_Op o, MPI_Comm c, MPI_Info f, int *h) { EVT(E_EXT_INIT, "Reduce_scatter", P(s), P(r), P(rc), P(t), P(o), P(c), P(f)); if (csize) grab(rc, NULL, csize); *h = newhandle; return eret; }
int EXT_MPI_Bcast_init(void *b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Info f, int *h) { EVT(E_EXT_INIT, "Bcast", P(b), n, P(t), root, P(c), P(f)); *h = newhandle; return eret; }
int EXT_MPI_Reduce_init(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c, MPI_Info f, int *h) { EVT(E_EXT_INIT, "Reduce", P(s), P(r), n, P(t), P(o), root, P(c), P(f)); *h = newhandle; return eret; }
int EXT_MPI_Gatherv_init(const void *s, int n, MPI_Datatype t, void *r, const int *rc, const int *d, MPI_Datatype rt, int root, MPI_Comm c, MPI_Info f, int *h) { EVT(E_EXT_INIT, "Gatherv", P(s), n, P(t), P(r), P(rc), P(d), P(rt), root, P(c), P(f)); if (csize) grab(rc, d, csize); *h = newhandle; return eret; }
int EXT_MPI_Scatterv_init(const void *s, const int *sc, const int *d, MPI_Datatype t, void *r, int n, MPI_Datatype rt, int root, MPI_Comm c, MPI_Info f, int *h) { EVT(E_EXT_INIT, "Scatterv", P(s), P(sc), P(d), P(t), P(r), n, P(rt), root, P(c), P(f)); if (csize) grab(sc, d, csize); *h = newhandle; return eret; }
int EXT_MPI_Allreduce(const void *s, void *r, int n, int op, int i) { EVT(E_BCALL, "Allreduce", P(s), P(r), n, op, i); return eret; }
int EXT_MPI_Reduce_scatter_block(const void *s, void *r, int n, int op, int i) { EVT(E_BCALL, "Reduce_scatter_block", P(s), P(r), n, op, i); return eret; }
int EXT_MPI_Allgather(const void *s, int n, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, MPI_Comm c, int i) { EVT(E_BCALL, "Allgather", P(s), n, P(t), P(r), rn, P(rt), P(c), i); return eret; }

/* ---- stubs: MPI itself */
int MPI_Recv_init(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *r) { EVT(E_RECV_INIT, "Recv_init", P(t), P(c)); *r = placeholder; return 0; }
int PMPI_Recv_init(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *r) { return MPI_Recv_init(b, n, t, src, tag, c, r); }
int PMPI_Init(int *a, char ***b) { return 0; }
int PMPI_Finalize(void) { return 0; }
int PMPI_Comm_rank(MPI_Comm c, int *r) { *r = 0; return 0; }
int MPI_Comm_size(MPI_Comm c, int *r) { *r = csize; return 0; }
int PMPI_Comm_size(MPI_Comm c, int *r) { *r = csize; return 0; }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { return 0; }
int PMPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { return 0; }
int MPI_Type_size(MPI_Datatype t, int *s) { EVT(E_TYPESIZE, "Type_size", P(t)); *s = tsize; return 0; }
int PMPI_Type_size(MPI_Datatype t, int *s) { return MPI_Type_size(t, s); }
int PMPI_Request_free(MPI_Request *r) { EVT(E_PMPI, "Request_free", P(r), P(*r)); return pret; }
int PMPI_Start(MPI_Request *r) { EVT(E_PMPI, "Start", P(r), P(*r)); return pret; }
int PMPI_Startall(int n, MPI_Request *r) { EVT(E_PMPI, "Startall", n, P(r)); return pret; }
int PMPI_Wait(MPI_Request *r, MPI_Status *s) { EVT(E_PMPI, "Wait", P(r), P(s)); return pret; }
int PMPI_Test(MPI_Request *r, int *f, MPI_Status *s) { int d = poll_result(); EVT(E_PMPI, "Test", P(r), P(f), P(s))->ret = d; if (cur_base) last[r - cur_base] = d; *f = d; return pret; }
int PMPI_Waitall(int n, MPI_Request r[], MPI_Status s[]) { EVT(E_PMPI, "Waitall", n, P(r), P(s)); return pret; }
int PMPI_Waitany(int n, MPI_Request r[], int *i, MPI_Status *s) { EVT(E_PMPI, "Waitany", n, P(r), P(i), P(s)); return pret; }
int PMPI_Waitsome(int n, MPI_Request r[], int *o, int ix[], MPI_Status s[]) { EVT(E_PMPI, "Waitsome", n, P(r), P(o), P(ix), P(s)); return pret; }
int PMPI_Testall(int n, MPI_Request r[], int *f, MPI_Status s[]) { EVT(E_PMPI, "Testall", n, P(r), P(f), P(s)); return pret; }
int PMPI_Testany(int n, MPI_Request r[], int *i, int *f, MPI_Status *s) { EVT(E_PMPI, "Testany", n, P(r), P(i), P(f), P(s)); return pret; }
int PMPI_Testsome(int n, MPI_Request r[], int *o, int ix[], MPI_Status s[]) { EVT(E_PMPI, "Testsome", n, P(r), P(o), P(ix), P(s)); return pret; }
int PMPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { EVT(E_PMPI, "Allreduce", P(s), P(r), n, P(t), P(o), P(c)); return pret; }
int PMPI_Reduce_scatter_block(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { EVT(E_PMPI, "Reduce_scatter_block", P(s), P(r), n, P(t), P(o), P(c)); return pret; }
int PMPI_Allgather(const void *s, int n, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, MPI_Comm c) { EVT(E_PMPI, "Allgather", P(s), n, P(t), P(r), rn, P(rt), P(c)); return pret; }
int PMPI_Comm_dup(MPI_Comm c, MPI_Comm *n) { EVT(E_PMPI, "Comm_dup", P(c), P(n)); *n = newcomm_v; return pret; }
int PMPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *n) { EVT(E_PMPI, "Comm_create", P(c), P(g), P(n)); *n = newcomm_v; return pret; }
int PMPI_Comm_split(MPI_Comm c, int col, int key, MPI_Comm *n) { EVT(E_PMPI, "Comm_split", P(c), col, key, P(n)); *n = newcomm_v; return pret; }
int PMPI_Comm_split_type(MPI_Comm c, int st, int key, MPI_Info f, MPI_Comm *n) { EVT(E_PMPI, "Comm_split_type", P(c), st, key, P(f), P(n)); *n = newcomm_v; return pret; }
int PMPI_Comm_free(MPI_Comm *c) { EVT(E_PMPI, "Comm_free", P(c), P(*c)); return pret; }

#include "src/mpi/ext_mpi_interface.c"

static int count(int kind) { int i, n = 0; for (i = 0; i < nl && i < NEV; i++) n += L[i].kind == kind; return n; }
static struct ev *find(int kind) { int i; for (i = 0; i < nl && i < NEV; i++) if (L[i].kind == kind) return &L[i]; return NULL; }
static int is(struct ev *e, const char *name, int n, const intptr_t *a) {
  int i;
  if (!e || strcmp(e->name, name)) return 0;
  for (i = 0; i < n; i++) if (e->a[i] != a[i]) return 0;
  return 1;
}
#define IS(e, name, ...) is(e, name, (int)(sizeof((intptr_t[]){__VA_ARGS__}) / sizeof(intptr_t)), (intptr_t[]){__VA_ARGS__})
#define OPQ(name) ((void *)(intptr_t)vh_bits(name, 4096, 1ll << 40))
#define I32(name) ((int)vh_bits(name, -2147483647ll - 1, 2147483647))

static void reset(void) {
  nl = 0; nrq = 0; polls = 0; arrs_seen = 0; csize = 0; cur_base = NULL;
  pret = I32("result of MPI"); eret = I32("result of the accelerated call");
  newhandle = (int)vh_int("handle", 0, 5);
  placeholder = (MPI_Request)OPQ("placeholder request");
  bhandle = -1;
  tsize = 8;
  ext_mpi_is_blocking = (int)vh_int("blocking mode", 0, 1);
}
static int n_calls_elsewhere(void) { return count(E_PMPI) + count(E_START) + count(E_WAIT) + count(E_TEST) + count(E_DONE) + count(E_BCALL); }

/* ---- persistent initialisation: identical arguments, result passed on, registered exactly on success */
static void check_init(int ret, MPI_Request req) {
  struct ev *e = find(E_INSERT);
  VH_CHECK(count(E_EXT_INIT) == 1, "one accelerated initialisation per call");
  VH_CHECK(ret == eret, "the result of the initialisation is returned");
  VH_CHECK(count(E_RECV_INIT) == 1 && req == placeholder, "the request is a fresh MPI request");
  VH_CHECK(count(E_INSERT) == (eret == 0), "registered exactly when the initialisation succeeded");
  if (e) VH_CHECK(e->a[0] == P(placeholder) && e->a[1] == newhandle, "the request is registered under the handle of this collective");
  VH_CHECK(n_calls_elsewhere() == 0, "nothing is started or completed by an initialisation");
}
void h_init(void) {
  int which;
  const void *s; void *r; int n, root; MPI_Datatype t, t2; MPI_Op o; MPI_Comm c; MPI_Info f; int *a, *b, ret; MPI_Request req = NULL;
  which = (int)vh_int("function", 0, 6);
  reset();
  s = OPQ("sendbuf"); r = OPQ("recvbuf"); n = I32("count"); root = I32("root"); t = OPQ("datatype"); t2 = OPQ("datatype2"); o = OPQ("op"); c = OPQ("comm"); f = OPQ("info"); a = OPQ("counts"); b = OPQ("displs");
  switch (which) {
  case 0: ret = MPI_Allreduce_init(s, r, n, t, o, c, f, &req); VH_CHECK(IS(find(E_EXT_INIT), "Allreduce", P(s), P(r), n, P(t), P(o), P(c), P(f)), "arguments of allreduce passed on"); break;
  case 1: ret = MPI_Allgatherv_init(s, n, t, r, a, b, t2, c, f, &req); VH_CHECK(IS(find(E_EXT_INIT), "Allgatherv", P(s), n, P(t), P(r), P(a), P(b), P(t2), P(c), P(f)), "arguments of allgatherv passed on"); break;
  case 2: ret = MPI_Reduce_scatter_init(s, r, a, t, o, c, f, &req); VH_CHECK(IS(find(E_EXT_INIT), "Reduce_scatter", P(s), P(r), P(a), P(t), P(o), P(c), P(f)), "arguments of reduce_scatter passed on"); break;
  case 3: ret = MPI_Bcast_init(r, n, t, root, c, f, &req); VH_CHECK(IS(find(E_EXT_INIT), "Bcast", P(r), n, P(t), root, P(c), P(f)), "arguments of bcast passed on"); break;
  case 4: ret = MPI_Reduce_init(s, r, n, t, o, root, c, f, &req); VH_CHECK(IS(find(E_EXT_INIT), "Reduce", P(s), P(r), n, P(t), P(o), root, P(c), P(f)), "arguments of reduce passed on"); break;
  case 5: ret = MPI_Gatherv_init(s, n, t, r, a, b, t2, root, c, f, &req); VH_CHECK(IS(find(E_EXT_INIT), "Gatherv", P(s), n, P(t), P(r), P(a), P(b), P(t2), root, P(c), P(f)), "arguments of gatherv passed on"); break;
  default: ret = MPI_Scatterv_init(s, a, b, t, r, n, t2, root, c, f, &req); VH_CHECK(IS(find(E_EXT_INIT), "Scatterv", P(s), P(a), P(b), P(t), P(r), n, P(t2), root, P(c), P(f)), "arguments of scatterv passed on"); break;
  }
  check_init(ret, req);
  VH_COVER("h_init");
}
/* ---- the uniform variants expand to equal counts and consecutive displacements */
void h_uniform(void) {
  int which = (int)vh_int("function", 0, 3), k, i, n, root, ret;
  const void *s; void *r; MPI_Datatype t, t2; MPI_Op o; MPI_Comm c; MPI_Info f; MPI_Request req = NULL; struct ev *e;
  reset();
  csize = (int)vh_int("communicator size", 1, MAXR);
  s = OPQ("sendbuf"); r = OPQ("recvbuf"); n = (int)vh_bits("sendcount", 0, 1 << 28); k = (int)vh_bits("recvcount", 0, 1 << 28); root = I32("root"); t = OPQ("datatype"); t2 = OPQ("datatype2"); o = OPQ("op"); c = OPQ("comm"); f = OPQ("info");
  switch (which) {
  case 0: ret = MPI_Allgather_init(s, n, t, r, k, t2, c, f, &req); break;
  case 1: ret = MPI_Reduce_scatter_block_init(s, r, k, t, o, c, f, &req); break;
  case 2: ret = MPI_Gather_init(s, n, t, r, k, t2, root, c, f, &req); break;
  default: ret = MPI_Scatter_init(s, k, t, r, n, t2, root, c, f, &req); break;
  }
  check_init(ret, req);
  e = find(E_EXT_INIT);
  if (which == 0) VH_CHECK(!strcmp(e->name, "Allgatherv") && e->a[0] == P(s) && e->a[1] == n && e->a[2] == P(t) && e->a[3] == P(r) && e->a[6] == P(t2) && e->a[7] == P(c) && e->a[8] == P(f), "arguments of allgather passed on");
  if (which == 1) VH_CHECK(!strcmp(e->name, "Reduce_scatter") && e->a[0] == P(s) && e->a[1] == P(r) && e->a[3] == P(t) && e->a[4] == P(o) && e->a[5] == P(c) && e->a[6] == P(f), "arguments of reduce_scatter_block passed on");
  if (which == 2) VH_CHECK(!strcmp(e->name, "Gatherv") && e->a[0] == P(s) && e->a[1] == n && e->a[2] == P(t) && e->a[3] == P(r) && e->a[6] == P(t2) && e->a[7] == root && e->a[8] == P(c) && e->a[9] == P(f), "arguments of gather passed on");
  if (which == 3) VH_CHECK(!strcmp(e->name, "Scatterv") && e->a[0] == P(s) && e->a[3] == P(t) && e->a[4] == P(r) && e->a[5] == n && e->a[6] == P(t2) && e->a[7] == root && e->a[8] == P(c) && e->a[9] == P(f), "arguments of scatter passed on");
  for (i = 0; i < csize; i++) {
    VH_CHECK(arr_c[i] == k, "every rank gets the uniform count");
    if (which != 1) VH_CHECK(arr_d[i] == i * k, "displacements are consecutive");
  }
  VH_COVER("h_uniform");
}
/* ---- single request operations */
static void setup_requests(int n) {
  int i, j;
  nrq = n;
  for (i = 0; i < n; i++) {
    rq[i] = (MPI_Request)OPQ("request");
    for (j = 0; j < i; j++) VH_ASSUME(rq[i] != rq[j]);
    VH_ASSUME(rq[i] != MPI_REQUEST_NULL);
    orig[i] = rq[i];
    acc[i] = (int)vh_int("accelerated", 0, 1) ? 10 + i : -1;
    last[i] = -1;
  }
  cur_base = rq;
}
void h_single(void) {
  int which, ret, flag = 77, h;
  MPI_Status *st;
  which = (int)vh_int("function", 0, 3);
  reset();
  setup_requests(1);
  h = acc[0];
  st = OPQ("status");
  switch (which) {
  case 0:
    ret = MPI_Start(&rq[0]);
    if (h >= 0) VH_CHECK(nl == 1 && IS(&L[0], "start", h) && ret == MPI_SUCCESS, "start of an accelerated request starts its handle only");
    else VH_CHECK(nl == 1 && IS(&L[0], "Start", P(&rq[0]), P(orig[0])) && L[0].kind == E_PMPI && ret == pret, "start of a plain request goes to MPI");
    break;
  case 1:
    ret = MPI_Wait(&rq[0], st);
    if (h >= 0) VH_CHECK(nl == 1 && IS(&L[0], "wait", h) && ret == MPI_SUCCESS, "wait for an accelerated request waits for its handle only");
    else VH_CHECK(nl == 1 && IS(&L[0], "Wait", P(&rq[0]), P(st)) && ret == pret, "wait for a plain request goes to MPI");
    break;
  case 2:
    ret = MPI_Test(&rq[0], &flag, st);
    if (h >= 0) VH_CHECK(nl == 1 && IS(&L[0], "test", h) && ret == MPI_SUCCESS && flag == L[0].ret, "test of an accelerated request reports its handle");
    else VH_CHECK(nl == 1 && IS(&L[0], "Test", P(&rq[0]), P(&flag), P(st)) && ret == pret && flag == L[0].ret, "test of a plain request goes to MPI");
    break;
  default:
    ret = MPI_Request_free(&rq[0]);
    VH_CHECK(ret == pret && L[nl - 1].kind == E_PMPI && IS(&L[nl - 1], "Request_free", P(&rq[0]), P(orig[0])), "the MPI request is released last, unchanged");
    if (h >= 0) VH_CHECK(nl == 3 && count(E_DONE) == 1 && find(E_DONE)->a[0] == h && count(E_DELETE) == 1 && find(E_DELETE)->a[0] == P(orig[0]), "freeing an accelerated request releases its handle and its registration");
    else VH_CHECK(nl == 1, "freeing a plain request touches nothing else");
  }
  VH_COVER("h_single");
}
/* ---- several requests */
static MPI_Status sts[MAXR];
static int any_acc(void) { int i, r = 0; for (i = 0; i < nrq; i++) r |= acc[i] >= 0; return r; }
static int all_last(void) { int i, r = 1; for (i = 0; i < nrq; i++) r &= last[i] == 1; return r; }
#ifndef NR
#define NR 3
#endif
void h_many(void) {
  int which, ret, i, ign, n, flag = 77, outc = 77, ix[MAXR], ind = 77, w[MAXR];
  MPI_Status *st;
#ifdef WHICH
  which = WHICH;
#else
  which = (int)vh_int("function", 0, 6);
#endif
  n = (int)vh_int("requests", 0, NR);
  reset();
  setup_requests(n);
  ign = (int)vh_int("statuses ignored", 0, 1);
  st = ign ? MPI_STATUSES_IGNORE : sts;
  for (i = 0; i < MAXR; i++) ix[i] = 77;
  if (which == 6) {
    ret = MPI_Startall(n, rq);
    if (!any_acc()) {
      VH_CHECK((n == 0 || count(E_PMPI) >= 1) && count(E_START) == 0 && ret == (count(E_PMPI) ? pret : 0), "starting plain requests goes to MPI");
    } else if (pret == MPI_SUCCESS) {
      for (i = 0; i < n; i++) w[i] = 0;
      for (i = 0; i < nl; i++) {
        int j;
        for (j = 0; j < n; j++) {
          if (L[i].kind == E_START && L[i].a[0] == acc[j]) w[j]++;
          if (L[i].kind == E_PMPI && !strcmp(L[i].name, "Start") && L[i].a[0] == P(&rq[j])) w[j] += acc[j] < 0 ? 1 : 100;
        }
      }
      for (i = 0; i < n; i++) VH_CHECK(w[i] == 1, "every listed request is started exactly once");
    }
    VH_COVER("h_many");
    return;
  }
  if (which >= 1 && which != 3) VH_ASSUME(pret == MPI_SUCCESS || !any_acc());
  switch (which) {
  case 0: ret = MPI_Waitall(n, rq, st); break;
  case 1: VH_ASSUME(n > 0); ret = MPI_Waitany(n, rq, &ind, st); break;
  case 2: VH_ASSUME(n > 0); ret = MPI_Waitsome(n, rq, &outc, ix, st); break;
  case 3: ret = MPI_Testall(n, rq, &flag, st); break;
  case 4: ret = MPI_Testany(n, rq, &ind, &flag, st); break;
  default: ret = MPI_Testsome(n, rq, &outc, ix, st); break;
  }
  if (!any_acc()) {
    static const char *nm[] = {"Waitall", "Waitany", "Waitsome", "Testall", "Testany", "Testsome"};
    VH_CHECK(nl == 1 && L[0].kind == E_PMPI && ret == pret, "a list of plain requests is one call to MPI, its result returned");
    if (which == 0) VH_CHECK(IS(&L[0], "Waitall", n, P(rq), P(st)), "arguments of waitall unchanged");
    if (which == 1) VH_CHECK(IS(&L[0], "Waitany", n, P(rq), P(&ind), P(st)), "arguments of waitany unchanged");
    if (which == 2) VH_CHECK(IS(&L[0], "Waitsome", n, P(rq), P(&outc), P(ix), P(st)), "arguments of waitsome unchanged");
    if (which == 3) VH_CHECK(IS(&L[0], "Testall", n, P(rq), P(&flag), P(st)), "arguments of testall unchanged");
    if (which == 4) VH_CHECK(IS(&L[0], "Testany", n, P(rq), P(&ind), P(&flag), P(st)), "arguments of testany unchanged");
    if (which == 5) VH_CHECK(IS(&L[0], "Testsome", n, P(rq), P(&outc), P(ix), P(st)), "arguments of testsome unchanged");
    VH_COVER("h_many plain");
    return;
  }
  for (i = 0; i < nl && i < NEV; i++) {   /* only requests of the list are touched, each in its own way */
    int j, ok = 0;
    for (j = 0; j < n; j++) {
      if ((L[i].kind == E_WAIT || L[i].kind == E_TEST) && L[i].a[0] == acc[j]) ok = 1;
      if (L[i].kind == E_PMPI && acc[j] < 0 && L[i].a[0] == P(&rq[j])) {
        intptr_t s = L[i].a[!strcmp(L[i].name, "Wait") ? 1 : 2];
        ok = 1;
        if (which == 0 || which == 3) VH_CHECK(ign ? s == P(MPI_STATUS_IGNORE) : s == P(&sts[j]), "each plain request reports into its own status");
        else VH_CHECK(ign ? s == P(MPI_STATUS_IGNORE) : s == P(&sts[0]), "the status of the completed request is reported");
      }
    }
    VH_CHECK(ok, "only the listed requests are touched");
  }
  if (which == 0) {
    if (pret == MPI_SUCCESS) {
      VH_CHECK(ret == MPI_SUCCESS, "waitall succeeds");
      for (i = 0; i < n; i++) {
        int j, k = 0;
        for (j = 0; j < nl && j < NEV; j++) k += acc[i] >= 0 ? L[j].kind == E_WAIT && L[j].a[0] == acc[i] : L[j].kind == E_PMPI && L[j].a[0] == P(&rq[i]);
        VH_CHECK(k == 1, "waitall waits for every listed request once");
      }
    } else {
      VH_CHECK(ret == (count(E_PMPI) ? pret : MPI_SUCCESS), "an MPI error is returned");
    }
  } else if (which == 1) {
    VH_CHECK(ret == MPI_SUCCESS && ind >= 0 && ind < n && last[ind] == 1, "waitany names a request that is complete");
  } else if (which == 2) {
    VH_CHECK(ret == MPI_SUCCESS && outc >= 1 && outc <= n, "waitsome completes at least one");
    for (i = 0; i < outc && i < MAXR; i++) VH_CHECK(ix[i] >= 0 && ix[i] < n && last[ix[i]] == 1, "waitsome names complete requests only");
  } else if (which == 3) {
    if (pret == MPI_SUCCESS) {
      VH_CHECK(ret == MPI_SUCCESS && (flag != 0) == all_last(), "testall is true exactly when every listed request is complete");
      for (i = 0; i < n; i++) VH_CHECK(last[i] != -1 || flag == 0, "testall looks at every request before it says true");
    }
  } else if (which == 4) {
    int some = 0;
    for (i = 0; i < n; i++) some |= last[i] == 1;
    VH_CHECK(ret == MPI_SUCCESS && (flag != 0) == some, "testany is true exactly when a request is found complete");
    if (flag) VH_CHECK(ind >= 0 && ind < n && last[ind] == 1, "testany names a request that is complete");
    else { VH_CHECK(ind == MPI_UNDEFINED, "testany without completion gives an undefined index"); for (i = 0; i < n; i++) VH_CHECK(last[i] == 0, "testany looks at every request before it says no"); }
  } else {
    int some = 0;
    for (i = 0; i < n; i++) some |= last[i] == 1;
    VH_CHECK(ret == MPI_SUCCESS && outc >= 0 && outc <= n && (outc > 0) == some, "testsome reports zero exactly when nothing is complete");
    for (i = 0; i < outc && i < MAXR; i++) VH_CHECK(ix[i] >= 0 && ix[i] < n && last[ix[i]] == 1, "testsome names complete requests only");
  }
  VH_COVER("h_many");
}
/* ---- blocking collectives */
void h_blocking(void) {
  int which = (int)vh_int("function", 0, 2), n, n2, ret, op = -1, sz = 1, dt, o;
  const void *s; void *r; MPI_Comm c; MPI_Datatype t, t2; MPI_Op ops[3] = {MPI_SUM, MPI_MAX, MPI_MIN};
  MPI_Datatype types[7] = {MPI_DOUBLE, MPI_LONG, MPI_FLOAT, MPI_INT, MPI_CHAR, MPI_UNSIGNED, MPI_LONG_LONG};
  reset();
  bhandle = (int)vh_int("communicator handle", -1, 3);
  s = OPQ("sendbuf"); r = OPQ("recvbuf"); c = OPQ("comm"); n = (int)vh_bits("count", 0, 1 << 26); n2 = (int)vh_bits("count2", 0, 1 << 26);
  dt = (int)vh_int("datatype", 0, 6); o = (int)vh_int("operation", 0, 2);
  t = types[dt]; t2 = OPQ("datatype2");
  tsize = (int)vh_int("type size", 1, 16);
  switch (dt) {
  case 0: op = OPCODE_REDUCE_SUM_DOUBLE; sz = sizeof(double); break;
  case 1: op = OPCODE_REDUCE_SUM_LONG_INT; sz = sizeof(long); break;
  case 2: op = OPCODE_REDUCE_SUM_FLOAT; sz = sizeof(float); break;
  case 3: op = OPCODE_REDUCE_SUM_INT; sz = sizeof(int); break;
  }
  if (which == 0) {
    ret = MPI_Allreduce(s, r, n, t, ops[o], c);
    if (ext_mpi_is_blocking && o == 0 && op >= 0 && bhandle >= 0) VH_CHECK(count(E_BCALL) == 1 && count(E_PMPI) == 0 && IS(find(E_BCALL), "Allreduce", P(s), P(r), n, op, bhandle) && ret == eret, "a sum the library implements runs on the handle of its communicator with the matching operation");
    else VH_CHECK(count(E_BCALL) == 0 && count(E_PMPI) == 1 && IS(find(E_PMPI), "Allreduce", P(s), P(r), n, P(t), P(ops[o]), P(c)) && ret == pret, "any other allreduce goes to MPI unchanged");
  } else if (which == 1) {
    ret = MPI_Reduce_scatter_block(s, r, n, t, ops[o], c);
    if (ext_mpi_is_blocking && o == 0 && op >= 0 && bhandle >= 0) VH_CHECK(count(E_BCALL) == 1 && count(E_PMPI) == 0 && IS(find(E_BCALL), "Reduce_scatter_block", P(s), P(r), n * sz, op, bhandle) && ret == eret, "a reduce_scatter the library implements runs with its byte count and the matching operation");
    else VH_CHECK(count(E_BCALL) == 0 && count(E_PMPI) == 1 && IS(find(E_PMPI), "Reduce_scatter_block", P(s), P(r), n, P(t), P(ops[o]), P(c)) && ret == pret, "any other reduce_scatter goes to MPI unchanged");
  } else {
    ret = MPI_Allgather(s, n, t, r, n2, t2, c);
    if (ext_mpi_is_blocking && bhandle >= 0) VH_CHECK(count(E_BCALL) == 1 && count(E_PMPI) == 0 && IS(find(E_BCALL), "Allgather", P(s), (intptr_t)(tsize * n), P(t), P(r)) && find(E_BCALL)->a[7] == bhandle && ret == eret, "an allgather runs on the handle of its communicator with its byte count");
    else VH_CHECK(count(E_BCALL) == 0 && count(E_PMPI) == 1 && IS(find(E_PMPI), "Allgather", P(s), n, P(t), P(r), n2, P(t2), P(c)) && ret == pret, "any other allgather goes to MPI unchanged");
  }
  VH_COVER("h_blocking");
}
/* ---- communicators */
void h_comm(void) {
  int which = (int)vh_int("function", 0, 4), ret, a, b, i, slot = -1, nul;
  MPI_Comm c = OPQ("comm"), nc = NULL; MPI_Group g = OPQ("group"); MPI_Info f = OPQ("info");
  int used = (int)vh_int("slots in use", 0, 3), hole = (int)vh_int("free slot", 0, 3);
  reset();
  for (i = 0; i < (int)(sizeof(comms_blocking) / sizeof(int)); i++) comms_blocking[i] = i < used;
  if (hole < used) comms_blocking[hole] = 0;
  for (i = 0; i < 5 && slot < 0; i++) if (!comms_blocking[i]) slot = i;
  a = I32("a"); b = I32("b");
  nul = (int)vh_int("no communicator", 0, 1);
  newcomm_v = nul ? MPI_COMM_NULL : (MPI_Comm)OPQ("new communicator");
  VH_ASSUME(nul || newcomm_v != MPI_COMM_NULL);
  VH_ASSUME(pret == MPI_SUCCESS);
  if (which < 4) {
    switch (which) {
    case 0: ret = MPI_Comm_dup(c, &nc); VH_CHECK(IS(find(E_PMPI), "Comm_dup", P(c), P(&nc)), "dup passed on"); break;
    case 1: ret = MPI_Comm_create(c, g, &nc); VH_CHECK(IS(find(E_PMPI), "Comm_create", P(c), P(g), P(&nc)), "create passed on"); break;
    case 2: ret = MPI_Comm_split(c, a, b, &nc); VH_CHECK(IS(find(E_PMPI), "Comm_split", P(c), a, b, P(&nc)), "split passed on"); break;
    default: ret = MPI_Comm_split_type(c, a, b, f, &nc); VH_CHECK(IS(find(E_PMPI), "Comm_split_type", P(c), a, b, P(f), P(&nc)), "split_type passed on"); break;
    }
    VH_CHECK(ret == pret && count(E_PMPI) == 1 && nc == newcomm_v, "the new communicator and the result come from MPI");
    if (ext_mpi_is_blocking && !nul) {
      VH_CHECK(count(E_BINSERT) == 1 && IS(find(E_BINSERT), "binsert", P(newcomm_v), slot), "a new communicator is registered under a free slot");
      VH_CHECK(count(E_BINIT) == 1 && IS(find(E_BINIT), "binit", P(newcomm_v), slot) && comms_blocking[slot] == 1, "its collectives are set up under the same slot");
    } else {
      VH_CHECK(count(E_BINSERT) == 0 && count(E_BINIT) == 0, "nothing is registered outside blocking mode or without a communicator");
    }
    for (i = 0; i < 5; i++) if (i != slot) VH_CHECK(comms_blocking[i] == (i < used && i != hole), "other slots unchanged");
  } else {
    bhandle = used ? (int)vh_int("communicator handle", -1, used - 1) : -1;
    if (bhandle >= 0) { comms_blocking[bhandle] = 1; }
    nc = newcomm_v;
    ret = MPI_Comm_free(&nc);
    VH_CHECK(ret == pret && count(E_PMPI) == 1 && IS(find(E_PMPI), "Comm_free", P(&nc), P(newcomm_v)), "the communicator is freed by MPI");
    if (ext_mpi_is_blocking && bhandle >= 0) {
      VH_CHECK(count(E_BFINAL) == 1 && find(E_BFINAL)->a[0] == bhandle && count(E_BDELETE) == 1 && find(E_BDELETE)->a[0] == P(newcomm_v) && comms_blocking[bhandle] == 0, "its collectives, registration and slot are released");
    } else VH_CHECK(count(E_BFINAL) == 0 && count(E_BDELETE) == 0, "a communicator that is not registered releases nothing");
    for (i = 0; i < 5; i++) if (i != bhandle || !ext_mpi_is_blocking) VH_CHECK(comms_blocking[i] == ((i < used && i != hole) || i == bhandle), "other slots unchanged");
  }
  VH_COVER("h_comm");
}
/* ---- completed (inactive) requests in a list: MPI ignores them.  EXT_MPI_Test of a handle that is not started says complete */
static int inactive_acc;
void h_inactive(void) {
  int which = (int)vh_int("function", 0, 1), ret, ind = 77, outc = 77, flag = 0, ix[MAXR], n = 2;
  reset();
  setup_requests(n);
  acc[0] = 10; acc[1] = 11;
  inactive_acc = 10;
  if (which == 0) ret = MPI_Waitany(n, rq, &ind, MPI_STATUS_IGNORE);
  else { ret = MPI_Waitsome(n, rq, &outc, ix, MPI_STATUSES_IGNORE); ind = ix[0]; }
  inactive_acc = 0;
  VH_CHECK(ret == MPI_SUCCESS && ind == 1, "an inactive accelerated request is ignored by waitany and waitsome");
  VH_COVER("h_inactive");
}
#ifndef __CPROVER__
static void all(void) {
  switch (vh_int("group", 0, 5)) {
  case 0: h_init(); break;
  case 1: h_uniform(); break;
  case 2: h_single(); break;
  case 3: h_many(); break;
  case 4: h_blocking(); break;
  default: h_comm(); break;
  }
}
#ifdef ENTRY
VH_MAIN(ENTRY)
#else
VH_MAIN(all)
#endif
#endif
