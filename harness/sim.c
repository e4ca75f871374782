/* The real library, all ranks of the communicator in one process.
   Every rank is a fiber that runs the real EXT_MPI_*_init, Start, Test, Wait and Done of the configurations drawn
   by e2e.c; MPI underneath is the small implementation below, and the order in which the ranks run is drawn at
   random and made extreme (ranks many times slower than others, messages that arrive late, send buffers read as
   late and receive buffers overwritten as early as MPI allows).  The result has to be that of the collective.
     sim SEED FIRST LAST SECONDS LOG MINRANKS MAXRANKS [key=value ...]                                            */
#define SIM 1
#include "e2e.c"
#include <ucontext.h>
#include <setjmp.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/shm.h>

#define STACK (1 << 20)
#define MAXF 64
typedef struct cm { int n, me_of[MAXF], world[MAXF], magic; long seq[MAXF]; struct op *ops; } cm;
typedef struct op { struct op *next; long seq; int kind, arrived, done, left; struct arg { const void *s; void *r; int count, root, color, key; const int *counts, *displs, *scounts, *sdispls; int scount; MPI_Datatype dt; MPI_Op o; MPI_Comm *newc; } a[MAXF]; } op;
typedef struct rq { int send, done, src, dst, tag, due, matched, eager; size_t n; char *buf, *own; cm *c; struct rq *peer, *next; } rq;
typedef struct fiber { ucontext_t uc; int done, *blocked; int weight; long polls; char *stack; char save[600], *lib; } fiber;

static fiber fb[MAXF];
static ucontext_t sched_uc;
static int nf, cur, policy, failed, cfg_idx, quiet;
static long tick, idle;
static uint64_t sr;
static unsigned srnd(unsigned n) { sr = mix(sr); return (unsigned)((sr >> 11) % n); }
static cm world;
static jmp_buf again;

/* variables every process has for itself: those of e2e.c and all of the library's (the build collects them in two sections) */
static struct { void *p; size_t n; } priv[] = {{&clk_state, sizeof clk_state}, {&clk, sizeof clk}, {&cand_state, sizeof cand_state}, {&cand_on, sizeof cand_on}, {&rs, sizeof rs}, {&wrank, sizeof wrank}};
extern char __start_libdata[], __stop_libdata[], __start_libbss[], __stop_libbss[];
static char *lib0;
static void copy(char *s, int in) {
  size_t d = __stop_libdata - __start_libdata, b = __stop_libbss - __start_libbss;
  if (in) { memcpy(__start_libdata, s, d); memcpy(__start_libbss, s + d, b); } else { memcpy(s, __start_libdata, d); memcpy(s + d, __start_libbss, b); }
}
static void swap(int f, int in) {
  char *s = fb[f].save;
  for (unsigned i = 0; i < sizeof priv / sizeof *priv; i++) { if (in) memcpy(priv[i].p, s, priv[i].n); else memcpy(s, priv[i].p, priv[i].n); s += priv[i].n; }
  copy(fb[f].lib, in);
}

static void bad(const char *what) {
  logf_("DIFF %d %s\n", cfg_idx, what);
  if (forced[K_KEEP] > 0) { differences = 1; longjmp(again, 1); }
  _exit(3);
}

static void yield(void) {
  int me = cur;
  swap(me, 0);
  swapcontext(&fb[me].uc, &sched_uc);
  swap(me, 1);
}
static void block(int *flag) {
  while (!*flag) { fb[cur].blocked = flag; yield(); }
  fb[cur].blocked = NULL;
}

/* ---- communicators and collective calls of the MPI underneath */
static cm *CM(MPI_Comm c) {
  if (c == MPI_COMM_WORLD) return &world;
  if (c == MPI_COMM_NULL || !c) bad("a null communicator is used");
  return (cm *)c;
}
static int rank_in(cm *c) { return c->me_of[wrank]; }
static int tsize(MPI_Datatype t) {
  if (t == MPI_DOUBLE || t == MPI_LONG) return 8;
  if (t == MPI_INT || t == MPI_FLOAT) return 4;
  if (t == MPI_CHAR || t == MPI_BYTE) return 1;
  if (t == MPI_INT64_T || t == MPI_LONG_LONG || t == MPI_UNSIGNED_LONG) return 8;
  bad("unknown datatype");
  return 0;
}
#define RED(T) { T *x = a; const T *y = b; for (i = 0; i < n; i++) x[i] = o == MPI_SUM ? x[i] + y[i] : o == MPI_MAX ? (x[i] > y[i] ? x[i] : y[i]) : (x[i] < y[i] ? x[i] : y[i]); }
static void red(void *a, const void *b, int n, MPI_Datatype t, MPI_Op o) {
  int i;
  if (o != MPI_SUM && o != MPI_MAX && o != MPI_MIN) bad("unknown operation");
  if (t == MPI_DOUBLE) RED(double) else if (t == MPI_LONG) RED(long) else if (t == MPI_FLOAT) RED(float) else if (t == MPI_INT) RED(int) else if (t == MPI_CHAR) RED(char) else bad("unknown datatype");
}
enum { BARRIER, BCASTK, ALLRED, REDK, ALLGATH, ALLGATHV, GATH, GATHV, SCATV, REDSCAT, SPLIT, DUP };
static cm *newcm(void) { cm *c = calloc(1, sizeof *c); return c; }
/* where a variable of rank w is while another rank runs */
static void *at(int w, const void *p) {
  const char *c = p;
  if (w == wrank) return (void *)p;
  if (c >= __start_libdata && c < __stop_libdata) return fb[w].lib + (c - __start_libdata);
  if (c >= __start_libbss && c < __stop_libbss) return fb[w].lib + (__stop_libdata - __start_libdata) + (c - __start_libbss);
  return (void *)p;
}
static void perform(cm *c, op *q) {
  int i, j, n = c->n;
  struct arg *a = q->a;
  for (i = 0; i < n; i++) {
    if (a[i].s != MPI_IN_PLACE) a[i].s = at(c->world[i], a[i].s);
    a[i].r = at(c->world[i], a[i].r);
    a[i].newc = at(c->world[i], a[i].newc);
  }
  int root = a[0].root;
  switch (q->kind) {
  case BARRIER: break;
  case BCASTK:
    for (i = 0; i < n; i++) { if (a[i].root != root) bad("ranks disagree on the root"); if (i != root) memcpy(a[i].r, a[root].r, (size_t)a[root].count * tsize(a[root].dt)); }
    break;
  case ALLRED: case REDK: case REDSCAT: {
    int cnt = a[0].count, e = tsize(a[0].dt);
    if (q->kind == REDSCAT) for (cnt = i = 0; i < n; i++) cnt += a[0].counts[i];
    char *t = malloc((size_t)cnt * e + 1);
    for (i = 0; i < n; i++) {
      const void *s = a[i].s == MPI_IN_PLACE ? a[i].r : a[i].s;
      if (q->kind != REDSCAT && a[i].count != cnt) bad("ranks disagree on the count");
      if (i) red(t, s, cnt, a[0].dt, a[0].o); else memcpy(t, s, (size_t)cnt * e);
    }
    for (i = j = 0; i < n; i++) {
      if (q->kind == ALLRED) memcpy(a[i].r, t, (size_t)cnt * e);
      if (q->kind == REDK && i == root) memcpy(a[i].r, t, (size_t)cnt * e);
      if (q->kind == REDSCAT) { memcpy(a[i].r, t + (size_t)j * e, (size_t)a[0].counts[i] * e); j += a[0].counts[i]; }
    }
    free(t);
    break;
  }
  case ALLGATH: case GATH: case ALLGATHV: case GATHV:
    for (i = 0; i < n; i++)
      for (j = 0; j < n; j++) {
        if ((q->kind == GATH || q->kind == GATHV) && i != root) continue;
        int v = q->kind == ALLGATHV || q->kind == GATHV;
        size_t e = tsize(a[i].dt), at = v ? a[i].displs[j] : (size_t)j * a[i].count, cnt = v ? a[i].counts[j] : a[i].count;
        if (a[j].s != MPI_IN_PLACE) memcpy((char *)a[i].r + at * e, a[j].s, cnt * e);
        else if (i != j) bad("in-place gather is not provided for");
      }
    break;
  case SCATV:
    for (i = 0; i < n; i++) { size_t e = tsize(a[root].dt); memcpy(a[i].r, (const char *)a[root].s + a[root].sdispls[i] * e, a[root].scounts[i] * e); }
    break;
  case SPLIT: case DUP: {
    int used[MAXF] = {0};
    for (i = 0; i < n; i++) if (!used[i]) {
      int m[MAXF], k = 0, x;
      for (j = i; j < n; j++) if (!used[j] && (q->kind == DUP || a[j].color == a[i].color)) { used[j] = 1; m[k++] = j; }
      if (q->kind == SPLIT) for (x = 1; x < k; x++) for (j = x; j > 0 && a[m[j]].key < a[m[j - 1]].key; j--) { int t = m[j]; m[j] = m[j - 1]; m[j - 1] = t; }
      if (q->kind == SPLIT && a[i].color == MPI_UNDEFINED) { for (x = 0; x < k; x++) *a[m[x]].newc = MPI_COMM_NULL; continue; }
      cm *d = newcm();
      d->n = k;
      for (x = 0; x < k; x++) { d->world[x] = c->world[m[x]]; d->me_of[d->world[x]] = x; *a[m[x]].newc = (MPI_Comm)d; }
    }
  }
  }
}
static int coll(MPI_Comm comm, int kind, struct arg a) {
  cm *c = CM(comm);
  int r = rank_in(c);
  long s = c->seq[r]++;
  op **p = &c->ops, *q;
  while (*p && (*p)->seq != s) p = &(*p)->next;
  if (!*p) { *p = calloc(1, sizeof **p); (*p)->seq = s; (*p)->kind = kind; }
  q = *p;
  if (q->kind != kind) bad("ranks call different collectives of MPI during initialisation");
  q->a[r] = a;
  if (++q->arrived == c->n) { perform(c, q); q->done = 1; idle = 0; }
  block(&q->done);
  if (++q->left == c->n) { for (p = &c->ops; *p != q; p = &(*p)->next); *p = q->next; free(q); }
  return MPI_SUCCESS;
}
#define BOTH(name) __attribute__((alias("MPI_" #name)))
#define A(...) ((struct arg){__VA_ARGS__})
int MPI_Comm_rank(MPI_Comm c, int *r) { *r = rank_in(CM(c)); return 0; }
int PMPI_Comm_rank(MPI_Comm, int *) BOTH(Comm_rank);
int MPI_Comm_size(MPI_Comm c, int *r) { *r = CM(c)->n; return 0; }
int PMPI_Comm_size(MPI_Comm, int *) BOTH(Comm_size);
int MPI_Type_size(MPI_Datatype t, int *s) { *s = tsize(t); return 0; }
int PMPI_Type_size(MPI_Datatype, int *) BOTH(Type_size);
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *n) { return coll(c, SPLIT, A(.color = color, .key = key, .newc = n)); }
int PMPI_Comm_split(MPI_Comm, int, int, MPI_Comm *) BOTH(Comm_split);
int MPI_Comm_split_type(MPI_Comm c, int t, int key, MPI_Info i, MPI_Comm *n) { return coll(c, SPLIT, A(.color = 0, .key = key, .newc = n)); }
int PMPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm *) BOTH(Comm_split_type);
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *n) { return coll(c, DUP, A(.newc = n)); }
int PMPI_Comm_dup(MPI_Comm, MPI_Comm *) BOTH(Comm_dup);
int MPI_Comm_free(MPI_Comm *c) { *c = MPI_COMM_NULL; return 0; }
int PMPI_Comm_free(MPI_Comm *) BOTH(Comm_free);
int MPI_Barrier(MPI_Comm c) { return coll(c, BARRIER, A(.count = 0)); }
int PMPI_Barrier(MPI_Comm) BOTH(Barrier);
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { return coll(c, BCASTK, A(.r = b, .count = n, .dt = t, .root = root)); }
int PMPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm) BOTH(Bcast);
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { return coll(c, ALLRED, A(.s = s, .r = r, .count = n, .dt = t, .o = o)); }
int PMPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm) BOTH(Allreduce);
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c) { return coll(c, REDK, A(.s = s, .r = r, .count = n, .dt = t, .o = o, .root = root)); }
int PMPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm) BOTH(Reduce);
int MPI_Reduce_scatter(const void *s, void *r, const int *n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { return coll(c, REDSCAT, A(.s = s, .r = r, .counts = n, .dt = t, .o = o)); }
int PMPI_Reduce_scatter(const void *, void *, const int *, MPI_Datatype, MPI_Op, MPI_Comm) BOTH(Reduce_scatter);
int MPI_Allgather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype t, MPI_Comm c) { return coll(c, ALLGATH, A(.s = s, .r = r, .count = rn, .dt = t)); }
int PMPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm) BOTH(Allgather);
int MPI_Gather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype t, int root, MPI_Comm c) { return coll(c, GATH, A(.s = s, .r = r, .count = rn, .dt = t, .root = root)); }
int PMPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm) BOTH(Gather);
int MPI_Allgatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *n, const int *d, MPI_Datatype t, MPI_Comm c) { return coll(c, ALLGATHV, A(.s = s, .r = r, .counts = n, .displs = d, .dt = t)); }
int PMPI_Allgatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm) BOTH(Allgatherv);
int MPI_Gatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *n, const int *d, MPI_Datatype t, int root, MPI_Comm c) { return coll(c, GATHV, A(.s = s, .r = r, .counts = n, .displs = d, .dt = t, .root = root)); }
int PMPI_Gatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int, MPI_Comm) BOTH(Gatherv);
int MPI_Scatterv(const void *s, const int *n, const int *d, MPI_Datatype st, void *r, int rn, MPI_Datatype t, int root, MPI_Comm c) { return coll(c, SCATV, A(.s = s, .r = r, .scounts = n, .sdispls = d, .dt = st, .root = root)); }
int PMPI_Scatterv(const void *, const int *, const int *, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm) BOTH(Scatterv);
int MPI_Info_get(MPI_Info i, const char *k, int n, char *v, int *flag) { *flag = 0; return 0; }
int PMPI_Info_get(MPI_Info, const char *, int, char *, int *) BOTH(Info_get);

/* ---- messages */
static rq *pend;                 /* all requests that are not complete */
static void finish(rq *s, rq *r) {
  memcpy(r->buf, s->eager ? s->own : s->buf, s->n);
  r->done = s->done = 1;
  idle = 0;
}
static void unlink_done(void) {
  rq **p = &pend;
  while (*p) if ((*p)->done == 1 && ((*p)->matched == 2)) *p = (*p)->next; else p = &(*p)->next;
}
static int deliver(int force) {
  rq *r, *b = NULL;
  int any = 0;
  for (r = pend; r; r = r->next)
    if (!r->send && r->matched == 1 && (r->due <= tick || force)) {
      if (r->due <= tick) { finish(r->peer, r); r->matched = r->peer->matched = 2; any = 1; }
      else if (!b || r->due < b->due) b = r;
    }
  if (force && !any && b) { finish(b->peer, b); b->matched = b->peer->matched = 2; any = 1; }
  if (any) unlink_done();
  return any;
}
static void match(rq *q) {
  rq *r, **p;
  for (r = pend; r; r = r->next)
    if (r->send != q->send && !r->matched && r->c == q->c && r->src == q->src && r->dst == q->dst && r->tag == q->tag) break;
  for (p = &pend; *p; p = &(*p)->next);
  *p = q;
  if (!r) return;
  rq *s = q->send ? q : r, *v = q->send ? r : q;
  if (s->n > v->n) bad("a message is longer than the receive posted for it");
  s->matched = v->matched = 1;
  s->peer = v; v->peer = s;
  v->due = tick + (srnd(3) ? srnd(20) : srnd(3000));
}
static int post(int send, const void *b, int n, MPI_Datatype t, int peer, int tag, MPI_Comm comm, MPI_Request *out) {
  cm *c = CM(comm);
  rq *q = calloc(1, sizeof *q);
  int me = rank_in(c);
  if (peer < 0 || peer >= c->n) bad("a message to a rank that does not exist");
  q->send = send; q->c = c; q->n = (size_t)n * tsize(t); q->tag = tag; q->buf = (char *)b;
  q->src = send ? me : peer; q->dst = send ? peer : me;
  if (send) { q->eager = srnd(2); if (q->eager) { q->own = malloc(q->n + 1); memcpy(q->own, b, q->n); } }
  else memset((char *)b, 0xb3, q->n);
  match(q);
  *out = (MPI_Request)q;
  return 0;
}
static int isdone(MPI_Request r) { return r == MPI_REQUEST_NULL || ((rq *)r)->done || (((rq *)r)->send && ((rq *)r)->eager); }
static void drop(MPI_Request *r) {
  if (*r == MPI_REQUEST_NULL) return;
  *r = MPI_REQUEST_NULL;        /* the records are few; they stay allocated */
}
static void await(MPI_Request *r) {
  if (isdone(*r)) { drop(r); return; }
  block(&((rq *)*r)->done);
  drop(r);
}
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { return post(1, b, n, t, d, tag, c, r); }
int PMPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *) BOTH(Isend);
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *r) { return post(0, b, n, t, s, tag, c, r); }
int PMPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *) BOTH(Irecv);
int MPI_Wait(MPI_Request *r, MPI_Status *s) { await(r); return 0; }
int PMPI_Wait(MPI_Request *, MPI_Status *) BOTH(Wait);
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *s) { for (int i = 0; i < n; i++) await(r + i); return 0; }
int PMPI_Waitall(int, MPI_Request *, MPI_Status *) BOTH(Waitall);
int MPI_Testall(int n, MPI_Request *r, int *flag, MPI_Status *s) {
  int i;
  *flag = 0;
  for (i = 0; i < n; i++) if (!isdone(r[i])) return 0;
  for (i = 0; i < n; i++) drop(r + i);
  *flag = 1;
  idle = 0;
  return 0;
}
int PMPI_Testall(int, MPI_Request *, int *, MPI_Status *) BOTH(Testall);
int MPI_Test(MPI_Request *r, int *flag, MPI_Status *s) { return MPI_Testall(1, r, flag, s); }
int PMPI_Test(MPI_Request *, int *, MPI_Status *) BOTH(Test);
static int any(int n, MPI_Request *r, int *idx) {
  int i, k = 0, act = 0, d[1000];
  for (i = 0; i < n; i++) { if (r[i] != MPI_REQUEST_NULL) { act = 1; if (isdone(r[i])) d[k++] = i; } }
  if (!act) { *idx = MPI_UNDEFINED; return 1; }
  if (!k) return 0;
  *idx = d[srnd(k)];
  drop(r + *idx);
  idle = 0;
  return 1;
}
int MPI_Testany(int n, MPI_Request *r, int *idx, int *flag, MPI_Status *s) { *flag = any(n, r, idx); return 0; }
int PMPI_Testany(int, MPI_Request *, int *, int *, MPI_Status *) BOTH(Testany);
int MPI_Waitany(int n, MPI_Request *r, int *idx, MPI_Status *s) { while (!any(n, r, idx)) yield(); return 0; }
int PMPI_Waitany(int, MPI_Request *, int *, MPI_Status *) BOTH(Waitany);
int MPI_Recv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *s) { MPI_Request r; post(0, b, n, t, src, tag, c, &r); await(&r); return 0; }
int PMPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *) BOTH(Recv);

/* ---- shared memory of a node */
static struct { void *p; int id, refs, gone; } seg[4096];
static int seg_id = 1;
static int seg_of(int id) { return id > 0 && seg[id % 4096].p && seg[id % 4096].id == id ? id % 4096 : -1; }
int shmget(key_t k, size_t n, int f) {
  while (seg[seg_id % 4096].p) seg_id++;
  int i = seg_id % 4096;
  seg[i].p = malloc(n + 1);
  memset(seg[i].p, 0xa7, n);
  seg[i].refs = seg[i].gone = 0;
  return seg[i].id = seg_id++;
}
static void seg_free(int i) { if (seg[i].gone && !seg[i].refs) { free(seg[i].p); seg[i].p = NULL; } }
void *shmat(int id, const void *a, int f) { int i = seg_of(id); if (i < 0) bad("a shared memory segment that does not exist is attached"); seg[i].refs++; return seg[i].p; }
int shmdt(const void *a) {
  for (int i = 0; i < 4096; i++) if (seg[i].p && seg[i].p == a) { if (seg[i].refs-- <= 0) bad("a shared memory segment is detached twice"); seg_free(i); return 0; }
  bad("what is detached is not a shared memory segment");
  return -1;
}
int shmctl(int id, int c, struct shmid_ds *b) { int i = seg_of(id); if (c == IPC_RMID && i >= 0) { seg[i].gone = 1; seg_free(i); } return i < 0 ? -1 : 0; }

/* ---- scheduling */
int __real_ext_mpi_exec_native(char *, char **, int);
int __wrap_ext_mpi_exec_native(char *ip, char **instr, int active_wait) {
  int r = __real_ext_mpi_exec_native(ip, instr, active_wait & ~2);
  while (*instr && (active_wait & 2)) { yield(); r = __real_ext_mpi_exec_native(ip, instr, active_wait & ~2); }
  if (srnd(3)) yield();
  return r;
}
/* the benchmark table of the machine is read once */
int __real_ext_mpi_read_bench(void);
int __wrap_ext_mpi_read_bench(void) { return 0; }
int __wrap_ext_mpi_delete_bench(void) { return 0; }
static uint64_t sim_seed;
static void body(void) {
  swap(cur, 1);
  EXT_MPI_Init();
  one(sim_seed, cfg_idx);
  EXT_MPI_Finalize();
  fb[cur].done = 1;
  swapcontext(&fb[cur].uc, &sched_uc);
}
static void set_world(cm *c, int n) {
  memset(c, 0, sizeof *c);
  c->n = n;
  for (int i = 0; i < n; i++) c->me_of[i] = c->world[i] = i;
}
static void weights(void) {
  int i, slow;
  policy = srnd(4);
  slow = srnd(nf);
  for (i = 0; i < nf; i++) fb[i].weight = policy == 0 ? 100 : policy == 1 ? (i == slow ? 1 : 100) : policy == 2 ? (srnd(2) ? 2 : 100) : 1 << srnd(8);
}
static void run(int n, void (*f)(void)) {
  int i, left = n;
  nf = n;
  tick = idle = 0;
  pend = NULL;
  for (i = 0; i < n; i++) {
    fiber *q = &fb[i];
    if (!q->stack) q->stack = mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    q->done = 0;
    q->blocked = NULL;
    getcontext(&q->uc);
    q->uc.uc_stack.ss_sp = q->stack;
    q->uc.uc_stack.ss_size = STACK;
    q->uc.uc_link = NULL;
    makecontext(&q->uc, f, 0);
    if (!q->lib) q->lib = malloc(__stop_libdata - __start_libdata + (__stop_libbss - __start_libbss) + 16);
    wrank = i;
    copy(lib0, 1);
    swap(i, 0);
  }
  weights();
  while (left) {
    int tot = 0, w;
    tick++;
    idle++;
    if (!srnd(2000)) weights();
    deliver(0);
    for (i = 0; i < n; i++) if (!fb[i].done && (!fb[i].blocked || *fb[i].blocked)) tot += fb[i].weight;
    while (!tot) {
      if (!deliver(1)) bad("does not complete: every rank waits for another");
      for (i = 0; i < n; i++) if (!fb[i].done && (!fb[i].blocked || *fb[i].blocked)) tot += fb[i].weight;
    }
    if (idle > 2000000) bad("does not complete");
    w = srnd(tot);
    for (i = 0; i < n; i++) if (!fb[i].done && (!fb[i].blocked || *fb[i].blocked)) { if (w < fb[i].weight) break; w -= fb[i].weight; }
    cur = i;
    swapcontext(&sched_uc, &fb[i].uc);
    if (fb[i].done) { left--; idle = 0; }
  }
}
static void crash(int s) {
  logf_("DIFF %d crash: signal %d\n", cfg_idx, s);
  if (forced[K_KEEP] > 0) { differences = 1; sigset_t m; sigemptyset(&m); sigprocmask(SIG_SETMASK, &m, NULL); longjmp(again, 1); }
  _exit(4);
}
int main(int argc, char **argv) {
  volatile int i;
  int k;
  if (argc < 8) return 2;
  for (i = 0; i < 32; i++) forced[i] = -1;
  for (i = 8; i < argc; i++)
    for (k = 0; k < K_LAST; k++)
      if (!strncmp(argv[i], kname[k], strlen(kname[k])) && argv[i][strlen(kname[k])] == '=') forced[k] = atoi(argv[i] + strlen(kname[k]) + 1);
  logfd = open(argv[5], O_WRONLY | O_CREAT | O_APPEND, 0644);
  sim_seed = strtoull(argv[1], 0, 10);
  stack_t ss = {.ss_sp = malloc(65536), .ss_size = 65536};
  sigaltstack(&ss, NULL);
  struct sigaction sa = {.sa_handler = crash, .sa_flags = SA_ONSTACK};
  sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGABRT, &sa, NULL); sigaction(SIGFPE, &sa, NULL);
  sr = 1;
  __real_ext_mpi_read_bench();
  lib0 = malloc(__stop_libdata - __start_libdata + (__stop_libbss - __start_libbss) + 16);
  copy(lib0, 0);
  int lo = atoi(argv[6]), hi = atoi(argv[7]);
  struct timespec t0, t1;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  for (i = atoi(argv[2]); i < atoi(argv[3]); i++) {
    clock_gettime(CLOCK_MONOTONIC, &t1);
    if (t1.tv_sec - t0.tv_sec + 1e-9 * (t1.tv_nsec - t0.tv_nsec) > atof(argv[4])) break;
    cfg_idx = i;
    sr = mix(sim_seed * 7 + i);
    wsize = lo + srnd(hi - lo + 1);
    if (srnd(2)) { int w = lo + srnd(hi - lo + 1); if (w % 2 == 0 || w % 3 == 0) wsize = w; }
    set_world(&world, wsize);
    if (!setjmp(again)) run(wsize, body);
    if (differences) { if (forced[K_KEEP] > 0) { logf_("RES %d bad\n", i); differences = 0; } else _exit(3); }
    else if (forced[K_KEEP] > 0) logf_("RES %d ok\n", i);
  }
  logf_("END %d\n", i);
  _exit(0);
}
