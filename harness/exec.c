/* C05: the executors do exactly what the byte code says. Programs are drawn instruction by instruction; an independent
 * interpreter of the drawn program says which effects each call of the executor must have. */
#include "vh.h"
#include <mpi.h>
#include <limits.h>
#include <stdint.h>
MPI_Comm ext_mpi_COMM_WORLD_dup;
#include "src/mpi/ext_mpi_native_exec.c"
#define L (CACHE_LINE_SIZE / (int)sizeof(int))
#ifndef MAXI
#define MAXI 3
#endif
#define NM 24
enum { E_IRECV = 1, E_ISEND, E_WAITALL, E_RECV, E_TESTALL };
typedef struct { int k; void *buf; long n; MPI_Datatype t; int rank, tag; MPI_Comm comm; void *rq; } ev_t;
static ev_t lg[64], rlg[64];
static int nlg, nrlg;
static long mem[3][NM], rmem[3][NM];       /* send, receive, shared */
static long mem2[NM], rmem2[NM];          /* second shared segment */
static MPI_Request rqs[8];
static int waiting, testflag[64], curj;    /* curj: the waitall the reference stands on */
/* waitany */
static int wn, worder[4], wpos;
static void (*wcomplete)(int);

static void put(int k, const void *buf, long n, MPI_Datatype t, int rank, int tag, MPI_Comm comm, void *rq) {
  ev_t e = {k, (void *)buf, n, t, rank, tag, comm, rq};
  VH_CHECK(nlg < 64, "no more messages than instructions");
  lg[nlg++] = e;
}
static ev_t *lastp;
static int lateof;                         /* polls left before the waitall at hand completes */
#define IRECV(p) int p##MPI_Irecv(void *b, int n, MPI_Datatype t, int r, int tag, MPI_Comm c, MPI_Request *q) { put(E_IRECV, b, n, t, r, tag, c, q); return 0; } \
  int p##MPI_Isend(const void *b, int n, MPI_Datatype t, int r, int tag, MPI_Comm c, MPI_Request *q) { put(E_ISEND, b, n, t, r, tag, c, q); return 0; } \
  int p##MPI_Recv(void *b, int n, MPI_Datatype t, int r, int tag, MPI_Comm c, MPI_Status *s) { put(E_RECV, b, n, t, r, tag, c, NULL); return 0; } \
  int p##MPI_Waitall(int n, MPI_Request *q, MPI_Status *s) { VH_CHECK(waiting || !lateof, "waits only for requests known to be complete, unless asked to wait"); put(E_WAITALL, NULL, n, 0, 0, 0, 0, q); return 0; } \
  int p##MPI_Testall(int n, MPI_Request *q, int *f, MPI_Status *s) { VH_CHECK(!waiting, "tests only when asked not to wait"); put(E_TESTALL, NULL, n, 0, 0, 0, 0, q); *f = !lateof; return 0; } \
  int p##MPI_Waitany(int n, MPI_Request *q, int *i, MPI_Status *s) { VH_CHECK(n == wn && q == rqs && wpos < wn, "waits once for each request"); *i = worder[wpos++]; wcomplete(*i); return 0; }
IRECV()
IRECV(P)

enum { O_MEMCPY, O_IRECV, O_ISEND, O_WAITALL, O_SB, O_NB, O_SET, O_AWAIT, O_REDUCE, O_RECV, O_ATT, NOPS };
typedef struct { int op; int a1, o1, a2, o2, n, rank, rq, type, late, cnt; char *at; } in_t;
static in_t P[MAXI + 1];
static int np;
static char code[2048];
static char *cp;
static void pc(int c) { *cp++ = (char)c; }
static void pi(int i) { memcpy(cp, &i, 4); cp += 4; }
static void pp(void *p) { memcpy(cp, &p, 8); cp += 8; }
static long *base(int a) { return a == 3 ? mem2 : mem[a]; }
static long *rbase(int a) { return a == 3 ? rmem2 : rmem[a]; }
static const int tys[4] = {OPCODE_REDUCE_SUM_DOUBLE, OPCODE_REDUCE_SUM_LONG_INT, OPCODE_REDUCE_SUM_FLOAT, OPCODE_REDUCE_SUM_INT};
static const int tsz[4] = {8, 8, 4, 4};
/* fill with small numbers of the type at hand, so that sums are exact */
static void fill(int type) {
  int i, a;
  for (a = 0; a < 4; a++)
    for (i = 0; i < NM; i++) {
      int v = a * 100 + i + 1;
      long x = 0;
      if (type == 0) { double d = v * 0.5; memcpy(&x, &d, 8); }
      else if (type == 1) x = v * 3000000007L;
      else if (type == 2) { float f[2] = {v * 0.5f, v * 0.25f}; memcpy(&x, f, 8); }
      else { int q[2] = {v, -v}; memcpy(&x, q, 8); }
      base(a)[i] = x; rbase(a)[i] = x;
    }
}
static void sum(int type, char *d, const char *s, int n) {
  int i;
  for (i = 0; i < n; i++) {
    if (type == 0) { double x, y; memcpy(&x, d + 8 * i, 8); memcpy(&y, s + 8 * i, 8); x += y; memcpy(d + 8 * i, &x, 8); }
    if (type == 1) { long x, y; memcpy(&x, d + 8 * i, 8); memcpy(&y, s + 8 * i, 8); x += y; memcpy(d + 8 * i, &x, 8); }
    if (type == 2) { float x, y; memcpy(&x, d + 4 * i, 4); memcpy(&y, s + 4 * i, 4); x += y; memcpy(d + 4 * i, &x, 4); }
    if (type == 3) { int x, y; memcpy(&x, d + 4 * i, 4); memcpy(&y, s + 4 * i, 4); x += y; memcpy(d + 4 * i, &x, 4); }
  }
}
static void same(void) {
  int i;
  VH_CHECK(!memcmp(mem, rmem, sizeof(mem)) && !memcmp(mem2, rmem2, sizeof(mem2)), "the data is what the instructions executed so far make of it");
  VH_CHECK(nlg == nrlg, "as many messages as the instructions executed so far say");
  for (i = 0; i < nrlg; i++)
    VH_CHECK(lg[i].k == rlg[i].k && lg[i].buf == rlg[i].buf && lg[i].n == rlg[i].n && lg[i].t == rlg[i].t && lg[i].rank == rlg[i].rank && lg[i].tag == rlg[i].tag && lg[i].comm == rlg[i].comm && lg[i].rq == rlg[i].rq, "every message carries the operands of its instruction");
}
static void rput(int k, void *buf, long n, MPI_Datatype t, int rank, int tag, MPI_Comm comm, void *rq) { ev_t e = {k, buf, n, t, rank, tag, comm, rq}; rlg[nrlg++] = e; }
static void draw(in_t *p, int type, int late, int nops) {
  memset(p, 0, sizeof(*p));
  p->op = (int)vh_int("op", 0, nops - 1);
  p->a1 = (int)vh_bits("area1", 0, 3); p->a2 = (p->a1 + (int)vh_bits("area2", 1, 3)) % 4;
  p->o1 = (int)vh_bits("off1", 0, NM / 2); p->o2 = (int)vh_bits("off2", 0, NM / 2);
  p->n = (int)vh_bits("n", 0, NM / 2);
  p->rank = (int)vh_bits("rank", 0, 1000); p->rq = (int)vh_bits("request", 0, 7); p->type = type;
  p->late = late && (p->op == O_WAITALL || p->op == O_SB || p->op == O_NB || p->op == O_AWAIT) ? (int)vh_int("late", 0, 2) : 0;
}

/* ------------------------------------------------------------ native */
static struct header_byte_code *hd;
static char *bar, *tab[4];
static int barmem[8 * L], nodemem[2][8 * L];
static void arrive(int at) {              /* slots of the others as they are while the program stands at instruction `at' */
  int i, sc = 1, nc = 1, sv = -100, nv = -100, done_s = 0, done_n = 0;
  int aw[4];
  for (i = 0; i < 4; i++) aw[i] = -100;
  for (i = 0; i < np; i++) {
    int open = P[i].late > 0;
    if (P[i].op == O_SB) { if (!done_s) { if (open) { sv = sc - 1; done_s = 1; } else sv = sc; } sc++; }
    if (P[i].op == O_NB) { if (!done_n) { if (open) { nv = nc - 1; done_n = 1; } else nv = nc; } nc++; }
    if (P[i].op == O_AWAIT) { int e = 2 + P[i].rank % 2; if (aw[e] < 1000) { if (open) { aw[e] = 1000 + sc - 1; } else aw[e] = sc; } sc++; }
  }
  ((volatile int *)barmem)[1 * L] = sv;
  ((volatile int *)nodemem[1])[1 * L] = nv;
  for (i = 2; i < 4; i++) ((volatile int *)barmem)[i * L] = aw[i] >= 1000 ? aw[i] - 1000 : aw[i];
}
static void h_native(void) {
  char buf[sizeof(struct header_byte_code) + 1024], *ipx;
  int i, mode = (int)vh_int("wait", 0, 1), type = (int)vh_int("type", 0, 3), at = 0, calls = 0, pause, sc = 1, nc = 1;
  static char *segtab[2];
  np = (int)vh_int("length", 1, MAXI);
  ext_mpi_COMM_WORLD_dup = (MPI_Comm)(intptr_t)0x123450;
  waiting = mode;
  fill(type); nlg = nrlg = 0; lateof = 0;
  memset(buf, 0, sizeof(buf)); memset(barmem, 0, sizeof(barmem)); memset(nodemem, 0, sizeof(nodemem));
  hd = (struct header_byte_code *)buf;
  hd->barrier_counter_socket = 1; hd->barrier_counter_node = 1;
  hd->barrier_shmem_size = 16; hd->barrier_shmem_socket = (char *)barmem - 16;
  segtab[0] = (char *)nodemem[0]; segtab[1] = (char *)nodemem[1];
  hd->barrier_shmem_node = segtab;
  hd->num_cores = 2; hd->num_sockets_per_node = 2; hd->socket_rank = 0; hd->tag = (int)vh_bits("tag", 0, 30000);
  cp = code;
  for (i = 0; i < np; i++) {
    in_t *p = &P[i];
    draw(p, type, !mode, NOPS);
    p->at = cp;
    char *x1 = (char *)(base(p->a1) + p->o1), *x2 = (char *)(base(p->a2) + p->o2);
    switch (p->op) {
    case O_MEMCPY: pc(OPCODE_MEMCPY); pp(x1); pp(x2); pi(p->n * 8 > (NM - NM / 2 - 1) * 8 ? (p->n = 8) : (p->n = p->n * 8 - (p->n > 0 ? p->n % 3 : 0))); break;
    case O_IRECV: case O_ISEND: pc(p->op == O_IRECV ? OPCODE_MPIIRECV : OPCODE_MPIISEND); pp(x1); pi(p->n); pi(p->rank); pp(&rqs[p->rq]); break;
    case O_WAITALL: pc(OPCODE_MPIWAITALL); pi(p->n); pp(&rqs[p->rq]); break;
    case O_SB: pc(OPCODE_SOCKETBARRIER); break;
    case O_NB: pc(OPCODE_NODEBARRIER); break;
    case O_SET: pc(OPCODE_SOCKETBARRIER_ATOMIC_SET); pi(4 + p->rank % 2); break;
    case O_AWAIT: pc(OPCODE_SOCKETBARRIER_ATOMIC_WAIT); pi(2 + p->rank % 2); break;
    case O_REDUCE: if (p->n > NM - NM / 2 - 1) p->n = 2; pc(OPCODE_REDUCE); pc(tys[type]); pp(x1); pp(x2); pi(p->n); break;
    case O_RECV: pc(OPCODE_MPISENDRECV); pp(x2); pp(x1); pi(p->n); pi(p->rank); break;
    case O_ATT: pc(OPCODE_ATTACHED); break;
    }
  }
  pc(OPCODE_RETURN);
  nodemem[0][0] = barmem[0] = 0;
  hd->socket_rank = 0;
  ipx = code;
  /* the node barrier of rank 0 looks at slot 0 of the other segment */
  for (;;) {
    int before = nlg;
    arrive(at);
    ((volatile int *)nodemem[1])[0] = ((volatile int *)nodemem[1])[L];
    lateof = 0;
    for (i = at; i < np; i++) if (P[i].op == O_WAITALL) { lateof = P[i].late; break; }
    /* what this call must do */
    pause = -1;
    for (i = at; i < np && pause < 0; i++) {
      in_t *p = &P[i];
      char *y1 = (char *)(rbase(p->a1) + p->o1), *y2 = (char *)(rbase(p->a2) + p->o2), *x1 = (char *)(base(p->a1) + p->o1);
      if (p->late) { pause = i; if (p->op == O_WAITALL) rput(E_TESTALL, NULL, p->n, 0, 0, 0, 0, &rqs[p->rq]); break; }
      switch (p->op) {
      case O_MEMCPY: memcpy(y1, y2, p->n); break;
      case O_IRECV: case O_ISEND: rput(p->op == O_IRECV ? E_IRECV : E_ISEND, x1, p->n, MPI_CHAR, p->rank, hd->tag, ext_mpi_COMM_WORLD_dup, &rqs[p->rq]); break;
      case O_WAITALL: if (!mode) rput(E_TESTALL, NULL, p->n, 0, 0, 0, 0, &rqs[p->rq]); rput(E_WAITALL, NULL, p->n, 0, 0, 0, 0, &rqs[p->rq]); break;
      case O_SB: case O_AWAIT: sc++; break;
      case O_NB: nc++; break;
      case O_REDUCE: sum(type, y1, y2, p->n); break;
      case O_RECV: rput(E_RECV, x1, p->n, MPI_CHAR, p->rank, 0, ext_mpi_COMM_WORLD_dup, NULL); break;
      }
      /* a later wait of the same call is judged on its own */
    }
    /* several waits in one call: make the stub follow */
    { int nw = 0; for (i = at; i < (pause < 0 ? np : pause + 1); i++) if (P[i].op == O_WAITALL) nw++; VH_ASSUME(nw <= 1); }
    VH_NOTE("call %d from instruction %d, pauses at %d", calls, at, pause);
    VH_CHECK(ext_mpi_exec_native(buf, &ipx, mode ? 2 : 0) == 0, "the executor returns 0");
    if (pause < 0) VH_CHECK(ipx == NULL, "a program that can run to its end does");
    else VH_CHECK(ipx == P[pause].at, "a paused program stands on the instruction it could not finish");
    same();
    VH_CHECK(hd->barrier_counter_socket == sc && hd->barrier_counter_node == nc, "one counter step per barrier passed");
    for (i = 0; i < np; i++) if (P[i].op == O_SET && (i < (pause < 0 ? np : pause))) {
      int c = 1, j, lastset = i;
      for (j = i + 1; j < (pause < 0 ? np : pause); j++) if (P[j].op == O_SET && P[j].rank % 2 == P[i].rank % 2) lastset = j;
      for (j = 0; j < lastset; j++) if (P[j].op == O_SB || P[j].op == O_AWAIT) c++;
      VH_CHECK(barmem[(4 + P[i].rank % 2) * L] == c, "a signal carries the counter");
    }
    if (pause < 0) break;
    at = pause; P[pause].late--;
    (void)before;
    VH_CHECK(++calls < 20, "ends");
  }
}

/* ------------------------------------------------------------ waitany */
static int wnr[4], wn_el, wtype;
static long *wt, wrecv[4][NM], wsend0[NM];
static int wsending, wopen[4];
static void complete(int i) {             /* data arrives only now; a send reads its buffer until now */
  int k;
  wopen[i] = 0;
  if (wnr[i]) for (k = 0; k < NM; k++) {
    int v = 7 + 13 * i + k; long x = 0;
    if (wtype == 0) { double d = v; memcpy(&x, &d, 8); } else if (wtype == 1) x = v; else if (wtype == 2) { float f[2] = {v, v + 1}; memcpy(&x, f, 8); } else { int q[2] = {v, v + 1}; memcpy(&x, q, 8); }
    wrecv[i][k] = x;
  } else if (wsending) VH_CHECK(!memcmp(wt, wsend0, sizeof(wsend0)), "a buffer being sent is not changed before its send completes");
}
static void h_waitany(void) {
  char buf[sizeof(struct header_byte_code) + 64], *ipx;
  int i, k, any = 0, used[4] = {0, 0, 0, 0};
  long want[NM];
  wtype = (int)vh_int("type", 0, 3);
  wn = (int)vh_int("requests", 1, 4);
  wn_el = (int)vh_int("elements", 0, 3);
  fill(wtype); memset(wrecv, 0x11, sizeof(wrecv));
  wt = mem[1];
  memcpy(want, wt, sizeof(want)); memcpy(wsend0, wt, sizeof(wsend0));
  memset(buf, 0, sizeof(buf));
  cp = code;
  for (i = 0; i < wn; i++) { wnr[i] = (int)vh_int("reductions", 0, 1); any |= wnr[i]; wopen[i] = 1; }
  wsending = any ? (int)vh_int("target being sent", 0, 1) : 0;
  pc(OPCODE_MPIWAITANY); pi(wn); pi(wsending ? -1 : 1); pp(rqs);
  for (i = 0; i < wn; i++) {
    if (wnr[i]) { pc(OPCODE_REDUCE); pc(tys[wtype]); pp(wt); pp(wrecv[i]); pi(wn_el); }
    pc(OPCODE_ATTACHED);
  }
  pc(OPCODE_REDUCE); pc(tys[wtype]); pp(mem[0]); pp(mem[2]); pi(1);      /* one more instruction behind */
  pc(OPCODE_RETURN);
  for (i = 0; i < wn; i++) {
    worder[i] = (int)vh_int("completes", 0, wn - 1);
    VH_ASSUME(!used[worder[i]]); used[worder[i]] = 1;
  }
  wpos = 0; waiting = 1; wcomplete = complete; nlg = nrlg = 0;
  ipx = code;
  VH_CHECK(ext_mpi_exec_native(buf, &ipx, 2) == 0 && ipx == NULL, "runs to its end");
  VH_CHECK(wpos == wn, "waits for every request");
  for (i = 0; i < wn; i++) if (wnr[i]) {
    for (k = 0; k < NM; k++) { int v = 7 + 13 * i + k; long x = 0; if (wtype == 0) { double d = v; memcpy(&x, &d, 8); } else if (wtype == 1) x = v; else if (wtype == 2) { float f[2] = {v, v + 1}; memcpy(&x, f, 8); } else { int q[2] = {v, v + 1}; memcpy(&x, q, 8); } rmem2[k] = x; }
    sum(wtype, (char *)want, (char *)rmem2, wn_el);
  }
  VH_CHECK(!memcmp(want, wt, sizeof(want)), "the target holds the sum of all contributions");
  sum(wtype, (char *)rmem[0], (char *)rmem[2], 1);
  VH_CHECK(!memcmp(mem[0], rmem[0], sizeof(mem[0])), "the instruction behind is executed");
}

/* ------------------------------------------------------------ blocking */
static void *seg[2];
static void *nadr(int a, long o) { return (void *)(a == 0 ? 0x80000000L + o : a == 1 ? 0x90000000L + o : ((long)(a - 2) << 28) + o); }
static long clip(int a, long o, long n, long io) { if (a > 1) return n; if (o + n > io) n = io - o; return n < 0 ? 0 : n; }
static void h_blocking(void) {
  char buf[sizeof(struct header_byte_code) + 1024];
  int i, type = (int)vh_int("type", 0, 3), count, io, sp = (int)vh_int("receive addresses known", 0, 1), ns = 0, cs = 1, cn = 1, tag = (int)vh_bits("tag", 0, 30000), sa[MAXI];
  long so[MAXI];
  char *spt[MAXI], *segtab[2] = {(char *)nodemem[0], (char *)nodemem[1]};
  MPI_Comm comm = (MPI_Comm)(intptr_t)0x77770;
  np = (int)vh_int("length", 1, MAXI);
  count = tsz[type] * (int)vh_int("count", 1, 3);
  io = tsz[type] * (int)vh_bits("elements", 0, NM - 1);
  waiting = 1; lateof = 0; nlg = nrlg = 0;
  fill(type);
  seg[0] = mem[2]; seg[1] = mem2;
  memset(buf, 0, sizeof(buf)); memset(barmem, 0, sizeof(barmem)); memset(nodemem, 0, sizeof(nodemem));
  barmem[L] = 50; nodemem[1][0] = 50; barmem[2 * L] = barmem[3 * L] = 50;
  cp = buf + sizeof(struct header_byte_code);
  for (i = 0; i < np; i++) {
    in_t *p = &P[i];
    int slots = (NM / 2) * 8 / count;      /* offsets and lengths in units of count */
    draw(p, type, 0, O_RECV + 1);
    if (p->op == O_RECV) p->op = O_ATT;
    p->o1 %= slots; p->o2 %= slots; p->n %= slots;
    void *x1 = nadr(p->a1, p->o1), *x2 = nadr(p->a2, p->o2);
    long c1 = clip(p->a1, (long)p->o1 * count, (long)p->n * count, io), c2 = clip(p->a2, (long)p->o2 * count, c1, io);
    char *y1 = (char *)base(p->a1) + p->o1 * count, *r1 = (char *)rbase(p->a1) + p->o1 * count, *r2 = (char *)rbase(p->a2) + p->o2 * count;
    switch (p->op) {
    case O_MEMCPY: pc(OPCODE_MEMCPY); pp(x1); pp(x2); pi(p->n); memcpy(r1, r2, c2); break;
    case O_IRECV: pc(OPCODE_MPIIRECV); pp(x1); pi(p->n); pi(p->rank); pp(&rqs[p->rq]); rput(E_IRECV, y1, c1, MPI_CHAR, p->rank, tag, comm, &rqs[p->rq]); break;
    case O_ISEND:
      pc(OPCODE_MPIISEND); pp(x1); pi(p->n); pi(p->rank); pp(&rqs[p->rq]);
      sa[ns] = (int)vh_bits("receiver area", 0, 3); so[ns] = vh_bits("receiver offset", 0, 1) * vh_bits("receiver offset", 0, slots - 1);
      spt[ns] = nadr(sa[ns], so[ns]);
      rput(E_ISEND, y1, sp ? clip(sa[ns], so[ns] * count, c1, io) : c1, MPI_CHAR, p->rank, tag, comm, &rqs[p->rq]);
      ns++;
      break;
    case O_WAITALL: pc(OPCODE_MPIWAITALL); pi(p->n); pp(&rqs[p->rq]); rput(E_WAITALL, NULL, p->n, 0, 0, 0, 0, &rqs[p->rq]); break;
    case O_SB: pc(OPCODE_SOCKETBARRIER); cs++; break;
    case O_NB: pc(OPCODE_NODEBARRIER); cn++; break;
    case O_SET: pc(OPCODE_SOCKETBARRIER_ATOMIC_SET); pi(4 + p->rank % 2); break;
    case O_AWAIT: pc(OPCODE_SOCKETBARRIER_ATOMIC_WAIT); pi(2 + p->rank % 2); cs++; break;
    case O_REDUCE: pc(OPCODE_REDUCE); pc((int)vh_bits("type in the program", 0, 4)); pp(x1); pp(x2); pi(p->n); sum(type, r1, r2, (int)(c2 / tsz[type])); break;
    case O_ATT: pc(OPCODE_ATTACHED); break;
    }
  }
  pc(OPCODE_RETURN);
  int k1 = 1, k2 = 1;
  ext_mpi_exec_blocking(buf, comm, tag, (char *)barmem, &k1, 0, 2, segtab, &k2, 2, seg, mem[0], mem[1], count, tys[type], io, sp ? spt : NULL, NULL);
  same();
  VH_CHECK(k1 == cs && k2 == cn, "one counter step per barrier");
}

/* ------------------------------------------------------------ normalising */
static void h_normalize(void) {
  char buf[sizeof(struct header_byte_code) + 1024], ref[1024], *spt[MAXI];
  int i, type = (int)vh_int("type", 0, 3), f = (int)vh_int("factor", 1, 8), count = f * tsz[type], sp = (int)vh_int("exchange", 0, 1), tag = (int)vh_bits("tag", 0, 30000), ns = 0, len;
  MPI_Comm comm = (MPI_Comm)(intptr_t)0x77770;
  np = (int)vh_int("length", 1, MAXI);
  waiting = 1; lateof = 0; nlg = nrlg = 0;
  char *c0 = buf + sizeof(struct header_byte_code);
  char *rp[MAXI]; int rk = 0;
  int pass;
  for (pass = 0; pass < 2; pass++) {
    int m = pass ? 1 : count;              /* first the program as generated, then what it must become */
    cp = pass ? ref : c0;
    rk = 0; ns = 0; nrlg = 0;
    for (i = 0; i < np; i++) {
      in_t *p = &P[i];
      if (!pass) { draw(p, type, 0, NOPS); if (p->op == O_RECV) p->op = O_ATT; }
      void *x1 = nadr(p->a1, (long)p->o1 * m), *x2 = nadr(p->a2, (long)p->o2 * m);
      switch (p->op) {
      case O_MEMCPY: pc(OPCODE_MEMCPY); pp(x1); pp(x2); pi(p->n * m); break;
      case O_IRECV: pc(OPCODE_MPIIRECV); pp(x1); pi(p->n * m); pi(p->rank); pp(&rqs[p->rq]); if (pass && sp) { rput(E_ISEND, NULL, 8, MPI_BYTE, p->rank, tag, comm, &rqs[p->rq]); rp[rk++] = x1; } break;
      case O_ISEND: pc(OPCODE_MPIISEND); pp(x1); pi(p->n * m); pi(p->rank); pp(&rqs[p->rq]); if (pass && sp) rput(E_IRECV, &spt[ns++], 8, MPI_BYTE, p->rank, tag, comm, &rqs[p->rq]); break;
      case O_WAITALL: pc(OPCODE_MPIWAITALL); pi(p->n); pp(&rqs[p->rq]); if (pass && sp) rput(E_WAITALL, NULL, p->n, 0, 0, 0, 0, &rqs[p->rq]); break;
      case O_SB: pc(OPCODE_SOCKETBARRIER); break;
      case O_NB: pc(OPCODE_NODEBARRIER); break;
      case O_SET: pc(OPCODE_SOCKETBARRIER_ATOMIC_SET); pi(p->rank); break;
      case O_AWAIT: pc(OPCODE_SOCKETBARRIER_ATOMIC_WAIT); pi(p->rank); break;
      /* lengths of reductions are elements of the type before, multiples of the unit after */
      case O_REDUCE: pc(OPCODE_REDUCE); pc(tys[type]); pp(x1); pp(x2); pi(pass ? p->n : p->n * f); break;
      case O_ATT: pc(OPCODE_ATTACHED); break;
      }
    }
    pc(OPCODE_RETURN);
    len = (int)(cp - (pass ? ref : c0));
  }
  ext_mpi_normalize_blocking(buf, comm, tag, count, sp ? spt : NULL);
  VH_CHECK(!memcmp(c0, ref, len), "addresses and lengths are divided by the unit, everything else is kept");
  VH_CHECK(nlg == nrlg, "one exchange per message");
  for (i = 0; i < nlg; i++) VH_CHECK(lg[i].k == rlg[i].k && (rlg[i].buf == NULL || lg[i].buf == rlg[i].buf) && lg[i].n == rlg[i].n && lg[i].t == rlg[i].t && lg[i].rank == rlg[i].rank && lg[i].tag == rlg[i].tag && lg[i].comm == rlg[i].comm && lg[i].rq == rlg[i].rq, "the receive address goes to the sender of the message");
}

/* ------------------------------------------------------------ padding numbers */
static void h_padding(void) {
  char buf[sizeof(struct header_byte_code) + 1024];
  int i, k = 0, n, want[64], got[64];
  void *shm[2] = {(void *)0, (void *)0x10000000L};
  int have = (int)vh_int("segments", 0, 1);
  np = (int)vh_int("length", 1, MAXI);
  cp = buf + sizeof(struct header_byte_code);
  for (i = 0; i < np; i++) {
    in_t *p = &P[i];
    draw(p, 0, 0, NOPS);
    if (p->op == O_RECV) p->op = O_ATT;
    if (!have) { if (p->a1 == 3) p->a1 = 2; if (p->a2 == 3) p->a2 = 2; }
    void *x1 = nadr(p->a1, p->o1), *x2 = nadr(p->a2, p->o2);
#define N(x) do { if ((x) > 0) want[k++] = (x); } while (0)
    switch (p->op) {
    case O_MEMCPY: pc(OPCODE_MEMCPY); pp(x1); pp(x2); pi(p->n); N(p->n); N(p->o1); N(p->o2); break;
    case O_IRECV: case O_ISEND: pc(p->op == O_IRECV ? OPCODE_MPIIRECV : OPCODE_MPIISEND); pp(x1); pi(p->n); pi(p->rank); pp(&rqs[p->rq]); N(p->n); N(p->o1); break;
    case O_WAITALL: pc(OPCODE_MPIWAITALL); pi(p->n); pp(&rqs[p->rq]); break;
    case O_SB: pc(OPCODE_SOCKETBARRIER); break;
    case O_NB: pc(OPCODE_NODEBARRIER); break;
    case O_SET: pc(OPCODE_SOCKETBARRIER_ATOMIC_SET); pi(p->rank); break;
    case O_AWAIT: pc(OPCODE_SOCKETBARRIER_ATOMIC_WAIT); pi(p->rank); break;
    case O_REDUCE: p->n++; pc(OPCODE_REDUCE); pc(1); pp(x1); pp(x2); pi(p->n); N(p->n); N(p->o1); N(p->o2); break;
    case O_ATT: pc(OPCODE_ATTACHED); break;
    }
  }
  pc(OPCODE_RETURN);
  n = ext_mpi_exec_padding(buf, (void *)0x80000000L, (void *)0x90000000L, have ? shm : NULL, got);
  VH_CHECK(n == k, "every nonzero length and offset of the program is listed");
  for (i = 0; i < k; i++) VH_CHECK(got[i] == want[i], "the numbers are those of the program");
}

VH_MAIN(ENTRY)
