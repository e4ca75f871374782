/* C03: requests in flight at the same time do not disturb each other: handles, execution state, message tags */
#include "vh.h"
#include <mpi.h>
#include "ext_mpi_native.h"
#include "byte_code.h"
#include "read_write.h"
#include "shmem.h"
#include "ext_mpi_native_exec.h"
#define NR 4
#define NQ 400
#define ext_mpi_exec_native fk_exec
#define ext_mpi_generate_byte_code fk_generate
#define ext_mpi_setup_shared_memory fk_setup
#define ext_mpi_destroy_shared_memory fk_destroy
#define ext_mpi_node_barrier_mpi fk_nbar
#define ext_mpi_read_parameters fk_readp
#define ext_mpi_delete_parameters fk_delp
#undef MPI_Comm_size
static int fk_size(MPI_Comm c, int *n); static int fk_rank(MPI_Comm c, int *n);
static int fk_reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c);
#define MPI_Comm_size fk_size
#define MPI_Comm_rank fk_rank
#define PMPI_Comm_size fk_size
#define PMPI_Comm_rank fk_rank
#define PMPI_Allreduce fk_reduce
#define MPI_Allreduce fk_reduce
static int fk_none() { return 0; }
#define MPI_Gather(...) fk_none()
#define MPI_Bcast(...) fk_none()
#define MPI_Barrier(...) fk_none()
#define PMPI_Comm_split(...) fk_none()
#define PMPI_Comm_free(...) fk_none()
static int fk_exec(char *code, char **ip, int wait);
static int fk_setup(MPI_Comm *a, MPI_Comm *b, MPI_Comm c, int d, MPI_Comm e, int f, int *size, int n, int **shmemid, char ***shmem, char fill, int numfill, char **cc) {
  *a = *b = MPI_COMM_NULL;
  *shmemid = malloc(sizeof(int) * n); *shmem = malloc(sizeof(char *) * n);
  return 0;
}
static int ndestroy;
static int fk_destroy(int s, int n, int *shmemid, char **shmem, char *cc) { free(shmemid); free(shmem); ndestroy++; return 0; }
static void fk_nbar(MPI_Comm a, MPI_Comm b, char *c) {}
static struct parameters_block par;
static int fk_readp(char *b, struct parameters_block **p) { *p = &par; return 1; }
static int fk_delp(struct parameters_block *p) { return 0; }
static int fk_generate(char **shmem, int ss, int *shmemid, char *in, char *sb, char *rb, int my, int bs, char *locmem, int op, int *ranks, char *code, int sc, int sr, void *cr, int nr, void *cc, int nc, int *sg, char **sgp, int *cnt, int tag);
#include "src/mpi/ext_mpi_native.c"
static struct { int max, tag; char **cc, **ep; int *aw; } sv[NR];
static int cur = -1, snap[NR], grid[NR][NR], nrow, ncol, myr, myc, lasttag, ncodes;
static void enter(int r) { cur = r; handle_code_max = sv[r].max; comm_code = sv[r].cc; execution_pointer = sv[r].ep; active_wait = sv[r].aw; tag_max = sv[r].tag; }
static void leave(void) { sv[cur].max = handle_code_max; sv[cur].cc = comm_code; sv[cur].ep = execution_pointer; sv[cur].aw = active_wait; sv[cur].tag = tag_max; }
#define ROW ((MPI_Comm)0x1000)
#define COL ((MPI_Comm)0x2000)
static int fk_size(MPI_Comm c, int *n) { *n = c == ROW ? nrow : c == COL ? ncol : NR; return 0; }
static int fk_rank(MPI_Comm c, int *n) { *n = c == ROW ? myr : c == COL ? myc : cur; return 0; }
static int fk_reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  int i, j, v = s == MPI_IN_PLACE ? *(int *)r : *(int *)s;
  for (i = 0; i < nrow; i++) for (j = 0; j < ncol; j++) {
    if ((c == ROW && j != myc)) continue;
    int x = snap[grid[i][j]];
    if (op == MPI_MAX ? x > v : op == MPI_MIN ? x < v : 0) v = x;
  }
  *(int *)r = v;
  return 0;
}
struct prog { int magic, tag; };
static int fk_generate(char **shmem, int ss, int *shmemid, char *in, char *sb, char *rb, int my, int bs, char *locmem, int op, int *ranks, char *code, int sc, int sr, void *cr, int nr, void *cc, int nc, int *sg, char **sgp, int *cnt, int tag) {
  struct header_byte_code *h = (struct header_byte_code *)code; struct prog *p = (struct prog *)(code + sizeof(*h));
  if (code) {
    memset(code, 0, sizeof(*h) + 64);
    h->locmem = locmem; h->shmem = shmem; h->shmemid = shmemid; h->num_sockets_per_node = 1; h->size_to_return = sizeof(*h) + sizeof(struct prog); h->barrier_shmem_node = malloc(8); h->tag = tag;
    p->magic = 0x1234567; p->tag = lasttag = tag; ncodes++;
    *(MPI_Comm *)(code + h->size_to_return) = *(MPI_Comm *)(code + h->size_to_return + sizeof(MPI_Comm)) = MPI_COMM_NULL;
  }
  return sizeof(*h) + 64;
}
static struct req { int live, handle[NR], mask, alt, tag, run[NR], on[NR]; char *code[NR][2], *at[NR]; } q[NQ];
static int nq;
/* the interpreter: stands still, goes on or finishes */
static struct { char *code, **ip; int wait, n; char *seen; } call[8];
static int ncall, manycalls;
static int fk_exec(char *code, char **ip, int wait) {
  struct prog *p = (struct prog *)(code + sizeof(struct header_byte_code));
  VH_CHECK(p->magic == 0x1234567, "runs a program that is there");
  VH_CHECK(*ip != NULL, "runs a program that has not finished");
  call[0].code = code; call[0].ip = ip; call[0].wait = wait; call[0].seen = *ip; ncall++;
  int i, k = -1;
  for (i = 0; i < nq; i++) if (q[i].live && (q[i].mask >> cur & 1) && execution_pointer + q[i].handle[cur] == ip) k = i;
  VH_CHECK(k >= 0, "runs only requests that exist");
  VH_CHECK(q[k].run[cur], "runs only started requests");
  VH_CHECK(code == q[k].code[cur][q[k].on[cur]], "runs the program the request was started with");
  VH_CHECK(*ip == q[k].at[cur], "goes on where the request stopped");
  if ((wait & 2) || vh_int("finishes", 0, 2) == 0) { *ip = NULL; q[k].run[cur] = 0; q[k].at[cur] = NULL; }
  else { *ip = code + sizeof(struct header_byte_code) + (vh_int("goes on to", 0, 3)); q[k].at[cur] = *ip; }
  return 0;
}
static void check(void) {
  int r, i;
  for (r = 0; r < NR; r++) {
    for (i = 0; i < nq; i++) if (q[i].live && (q[i].mask >> r & 1)) {
      int h = q[i].handle[r];
      VH_CHECK(sv[r].cc && h >= 0 && h % 2 == 0 && h + 1 < sv[r].max, "live requests have a place in the table");
      VH_CHECK(sv[r].cc[h] == q[i].code[r][q[i].on[r]], "every live request keeps its program");
      VH_CHECK(sv[r].cc[h + 1] == (q[i].alt ? q[i].code[r][!q[i].on[r]] : NULL), "every live request keeps its alternate program");
      VH_CHECK(sv[r].ep[h] == q[i].at[r], "every live request keeps its place of execution");
      struct prog *p = (struct prog *)(q[i].code[r][0] + sizeof(struct header_byte_code));
      VH_CHECK(p->magic == 0x1234567 && p->tag == q[i].tag, "every live request keeps its tag");
    }
  }
}
static void create(void) {
  struct req *k = &q[nq]; int i, j, n = 0, r, perm[NR], zero, x, first = 1;
  if (nq >= NQ) return;
  memset(k, 0, sizeof(*k));
  nrow = (int)vh_int("row", 1, NR); ncol = (int)vh_int("column", 1, NR / nrow);
  for (i = 0; i < NR; i++) perm[i] = i;
  for (i = 0; i < NR - 1; i++) { j = (int)vh_int("member", i, NR - 1); r = perm[i]; perm[i] = perm[j]; perm[j] = r; }
  for (i = 0; i < nrow; i++) for (j = 0; j < ncol; j++) k->mask |= 1 << (grid[i][j] = perm[n++]);
  for (i = 0; i < NR; i++) snap[i] = sv[i].tag;
  k->alt = (int)vh_int("alternate", 0, 1); zero = 0; /* requests without segments belong to the blocking mode, which takes them out of the table and never releases them */
  par.locmem_max = 4; par.shmem_max = 256; par.num_sockets_per_node = 1;
  for (i = 0; i < nrow; i++) for (j = 0; j < ncol; j++) {
    r = grid[i][j]; myr = i; myc = j;
    enter(r); ncodes = 0; lasttag = -1;
    k->handle[r] = init_epilogue("", NULL, NULL, 0, ROW, 1, ncol > 1 ? COL : MPI_COMM_NULL, 1, k->alt, zero, NULL);
    leave();
    VH_CHECK(k->handle[r] >= 0, "a handle is returned");
    VH_CHECK(ncodes == 1 + k->alt, "one program, two with an alternate");
    for (x = 0; x < nq; x++) VH_CHECK(!(q[x].live && (q[x].mask >> r & 1) && q[x].handle[r] / 2 == k->handle[r] / 2), "a new request gets a handle of its own");
    VH_CHECK(first || k->tag == lasttag, "all ranks of a request use the same tag");
    k->tag = lasttag; first = 0;
    k->code[r][0] = sv[r].cc[k->handle[r]]; k->code[r][1] = sv[r].cc[k->handle[r] + 1];
  }
  for (x = 0; x < nq; x++) VH_CHECK(!(q[x].live && (q[x].mask & k->mask) && q[x].tag == k->tag), "two requests that share a rank never use the same tag");
  k->live = 1; nq++;
}
static void h_handles(void) {
  int i, r, h, op, n, c, ops = (int)vh_int("operations", 1, 60), pre = (int)vh_int("many", 0, 7) ? 0 : (int)vh_int("first", 40, 130);
  nq = 0;
  for (i = 0; i < NR; i++) { sv[i].max = 100; sv[i].tag = 0; sv[i].cc = sv[i].ep = NULL; sv[i].aw = NULL; }
  for (i = 0; i < pre; i++) create();
  check();
  while (ops--) {
    op = (int)vh_int("operation", 0, 5);
    if (op == 0) { create(); check(); continue; }
    if (op == 1) {
      r = (int)vh_int("rank", 0, NR - 1); n = 0;
      for (i = 0; i < nq; i++) if (q[i].live && (q[i].mask >> r & 1) && q[i].run[r]) n++;
      enter(r); ncall = 0; EXT_MPI_Progress_native(); leave();
      VH_CHECK(ncall == n, "progress goes on with every running request, once");
      check(); continue;
    }
    if (!nq) continue;
    i = (int)vh_int("request", 0, nq - 1);
    if (!q[i].live) continue;
    r = (int)vh_int("rank", 0, NR - 1);
    if (!(q[i].mask >> r & 1)) continue;
    h = q[i].handle[r]; ncall = 0;
    enter(r);
    switch (op) {
    case 2: if (!q[i].run[r]) {
        if (q[i].alt) q[i].on[r] = !q[i].on[r];
        q[i].run[r] = 1; q[i].at[r] = q[i].code[r][q[i].on[r]] + sizeof(struct header_byte_code);
        EXT_MPI_Start_native(h);
        VH_CHECK(ncall <= 1, "start"); } break;
    case 3: n = q[i].run[r]; c = EXT_MPI_Test_native(h);
      VH_CHECK(ncall == n && (!n || !(call[0].wait & 2)), "a test advances its request once and never waits");
      VH_CHECK(!c == !!q[i].run[r], "a test tells whether the request has finished"); break;
    case 4: n = q[i].run[r]; EXT_MPI_Wait_native(h);
      VH_CHECK(ncall == n && !q[i].run[r], "waiting finishes the request");  VH_CHECK(!n || (call[0].wait & 2), "waiting waits"); break;
    case 5: /* released by all its ranks */
      leave(); ndestroy = 0; c = 0;
      for (r = 0; r < NR; r++) if (q[i].mask >> r & 1) { enter(r); EXT_MPI_Done_native(q[i].handle[r]); leave(); VH_CHECK(!q[i].run[r], "releasing finishes the request"); c += 1 + q[i].alt;
        VH_CHECK(!sv[r].cc || (!sv[r].cc[q[i].handle[r]] && !sv[r].cc[q[i].handle[r] + 1] && !sv[r].ep[q[i].handle[r]]), "a released handle is free");
        q[i].mask &= ~(1 << r); check(); }
      VH_CHECK(ndestroy == c, "the segments of every program are released once");
      q[i].live = 0; enter(0); break;
    }
    leave(); check();
  }
}
VH_MAIN(ENTRY)
