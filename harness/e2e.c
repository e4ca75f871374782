/* End to end: random configurations of every persistent collective on sub-communicators of the
   ranks mpirun started, against the MPI library's own collective.
     e2e SEED FIRST LAST SECONDS LOG [key=value ...]
   Configuration i depends on SEED and i only (not on the ranks' timing); LOG gets one line per
   configuration begun by rank 0 and one line per difference. Exit status 0: all agree; 3: a rank
   saw a difference. A hang is the caller's business. */
#define _GNU_SOURCE
#include <mpi.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <math.h>
#include "ext_mpi.h"
#include "ext_mpi_native.h"

extern int ext_mpi_alternating, ext_mpi_num_tasks_per_socket, ext_mpi_num_sockets_per_node,
    ext_mpi_not_recursive, ext_mpi_copyin_method, *ext_mpi_copyin_factors, ext_mpi_debug,
    *ext_mpi_fixed_factors_ports, *ext_mpi_fixed_factors_groups;

/* a clock that only counts calls: measurements terminate at once and the choice they make is
   random but the same in every run of the configuration */
static uint64_t clk_state = 1;
static double clk;
static uint64_t mix(uint64_t z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
double MPI_Wtime(void) {
  clk_state = mix(clk_state);
  clk += 10.0 + (double)(clk_state % 1000);
  return clk;
}

static int wrank, wsize, logfd = -1;
static int differences;
static void logf_(const char *fmt, ...) {
  char b[4000];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  if (write(logfd, b, n) < 0) {}
}

/* the schedule: every candidate of the cost model, not only the cheapest */
double __real_ext_mpi_min_cost_total(int, int, int *, int **, int *, int *);
static uint64_t cand_state;
static int cand_on;
double __wrap_ext_mpi_min_cost_total(int msize, int num, int *fm, int **f, int *primes, int *ind) {
  if (!cand_on) return __real_ext_mpi_min_cost_total(msize, num, fm, f, primes, ind);
  *ind = mix(cand_state) % (unsigned)num;
  char b[200];
  int l = 0, i;
  for (i = 0; i < fm[*ind] && l < 150; i++) l += sprintf(b + l, "%d ", f[*ind][i]);
  b[l] = 0;
  logf_("PORTS candidate %d of %d: factors %sprime %d\n", *ind, num, b, primes[*ind]);
  return 1.0;
}

static uint64_t rs;
static unsigned rnd(unsigned n) { rs = mix(rs); return n ? (unsigned)((rs >> 11) % n) : 0; }

enum { ALLREDUCE, REDUCE, BCAST, REDUCE_SCATTER, REDUCE_SCATTER_BLOCK, ALLGATHERV, ALLGATHER, GATHERV, SCATTERV, NCOLL };
static const char *cname[] = {"allreduce", "reduce", "bcast", "reduce_scatter", "reduce_scatter_block",
                              "allgatherv", "allgather", "gatherv", "scatterv"};
#define MAXN 64
#define GUARD 64
#define MAXREQ 3
typedef struct {
  int coll, n, me, dt, root, inplace, count, counts[MAXN], displs[MAXN], total, extent;
  MPI_Comm comm;
  char *send, *recv, *send0, *recv0, *sref, *rref;
  size_t sbytes, rbytes;
  int handle;
  int tasks, sockets, alt, notrec, mincomp, cand, copyin, bitid, bitrep, cf[8];
  char ports[200];
} conf;
static const MPI_Datatype dts[] = {MPI_DOUBLE, MPI_LONG, MPI_INT, MPI_FLOAT, MPI_CHAR};
static const char *dname[] = {"double", "long", "int", "float", "char"};

static void put(int dt, char *p, int i, int v) {
  switch (dt) {
  case 0: ((double *)p)[i] = v; break;
  case 1: ((long *)p)[i] = v; break;
  case 2: ((int *)p)[i] = v; break;
  case 3: ((float *)p)[i] = v; break;
  case 4: p[i] = v; break;
  }
}

static int forced[32];
enum { K_COLL, K_N, K_DT, K_COUNT, K_TASKS, K_SOCKETS, K_ALT, K_NOTREC, K_MINCOMP, K_CAND, K_COPYIN, K_INPLACE, K_ROOT, K_REQS, K_BLOCKING, K_PORTS, K_KEEP, K_GAPS, K_KIND, K_WIDE, K_LAST };
static const char *kname[] = {"coll", "n", "dt", "count", "tasks", "sockets", "alt", "notrec", "mincomp", "cand", "copyin", "inplace", "root", "reqs", "blocking", "ports", "keep", "gaps", "kind", "wide"};
static int pick(int k, int v) { return forced[k] >= 0 ? forced[k] : v; }

static int gen_count(void) {
  switch (rnd(8)) {
  case 0: return 1 + rnd(4);
  case 1: return 1 + rnd(16);
  case 2: return 7 + rnd(3);
  case 3: return 1 + rnd(100);
  case 4: return 1 + rnd(1000);
  case 5: return 1 + rnd(5000);
  case 6: return 120 + rnd(20);
  default: return 1 + rnd(30);
  }
}

static void draw(conf *c) {
  int i, div[MAXN], nd = 0, k;
  c->coll = pick(K_COLL, rnd(NCOLL));
  c->dt = pick(K_DT, rnd(4));
  c->root = pick(K_ROOT, rnd(c->n)) % c->n;
  c->count = pick(K_COUNT, gen_count());
  c->inplace = pick(K_INPLACE, rnd(4) == 0);
  if (c->coll != ALLREDUCE && c->coll != REDUCE) c->inplace = 0;
  for (i = 1; i <= c->n; i++) if (c->n % i == 0) div[nd++] = i;
  c->tasks = pick(K_TASKS, div[rnd(nd)]);
  c->sockets = pick(K_SOCKETS, rnd(4) == 0 ? 2 : 1);
  if (c->n % (c->tasks * c->sockets) || c->tasks == 1) c->sockets = 1;
  c->alt = pick(K_ALT, (int)rnd(3) - 1);
  c->notrec = pick(K_NOTREC, rnd(2) ? 1 : -1);
  c->mincomp = pick(K_MINCOMP, rnd(5) == 0);
  c->cand = pick(K_CAND, rnd(2));
  c->copyin = pick(K_COPYIN, (int)rnd(3) - 1);
  if (c->copyin == 1 && (c->tasks & (c->tasks - 1)) == 0) c->copyin = 0;
  /* the findings recorded in KNOWN_FINDINGS.txt are left out; wide=1 lets them in (probes) */
  if (forced[K_WIDE] <= 0) {
    if (c->n > c->tasks * c->sockets) c->sockets = 1;
    if (c->coll >= BCAST) { c->mincomp = 0; c->sockets = 1; if (c->coll != REDUCE_SCATTER_BLOCK && c->coll != ALLGATHER && c->coll != SCATTERV) c->notrec = 1; }
    if ((c->coll == REDUCE || c->coll == BCAST) && c->n / c->tasks > 6 && c->n / c->tasks != 8) c->mincomp = c->cand = 0;
    if (c->coll == GATHERV || c->coll == ALLGATHERV) c->cand = 0;
    if (c->coll == GATHERV && c->tasks == c->n) c->coll = ALLGATHERV;
    if (c->coll == SCATTERV) c->tasks = c->n;
    if (c->coll == REDUCE_SCATTER && c->tasks > 1 && c->n / c->tasks > 4) c->cand = 0;
    if (c->copyin == 1 && c->tasks == c->n && c->count <= 14) c->copyin = 0;
  }
  c->bitid = rnd(4) == 0;
  c->bitrep = -1;
  /* factors of the copy-in tree: [flat part][2 ...] so that their product covers the tasks */
  k = 0;
  if (c->copyin == 1) {
    c->cf[k++] = 1;
    for (i = 1; i < c->tasks; i *= 2) c->cf[k++] = 2;
  } else {
    int r = c->tasks, p;
    c->cf[k++] = 1;
    while (r > 1) {
      for (p = 2; r % p; p++);
      r /= p;
      if (rnd(2)) c->cf[k++] = p; else c->cf[k > 1 ? k - 1 : 0] *= p;
    }
  }
  c->cf[k] = 0;
  c->ports[0] = 0;
  c->extent = 0;
  int kind = pick(K_KIND, rnd(4));
  if (forced[K_WIDE] <= 0 && c->tasks > 1 && c->n / c->tasks > 8) kind = 0;     /* a surplus schedule is the cost model's own choice there */
  for (i = 0; i < c->n; i++) {
    int v = c->count;
    if (c->coll == REDUCE_SCATTER || c->coll == ALLGATHERV || c->coll == GATHERV || c->coll == SCATTERV) {
      if (kind == 1) v = 1 + rnd(c->count);
      if (kind == 2) v = rnd(3) ? c->count : 0;
    }
    c->counts[i] = i || v ? v : 1;
  }
  c->total = 0;
  int at = 0, gaps = (c->coll == ALLGATHERV || c->coll == GATHERV || c->coll == SCATTERV) && pick(K_GAPS, 0);
  for (i = 0; i < c->n; i++) {
    if (gaps) at += rnd(5);
    c->displs[i] = at;
    at += c->counts[i];
    c->total += c->counts[i];
  }
  if (gaps && rnd(3) == 0) { /* blocks in reverse order */
    for (i = c->n - 1, at = 0; i >= 0; i--) { c->displs[i] = at; at += c->counts[i] + rnd(2); }
  }
  c->extent = at;
}

static void print(conf *c, int idx, int g) {
  char b[1500];
  int i, l = 0;
  b[0] = 0;
  for (i = 0; i < c->n; i++) l += sprintf(b + l, "%d@%d ", c->counts[i], c->displs[i]);
  logf_("CFG %d comm %d: %s n=%d %s count=%d counts=[%s] root=%d inplace=%d tasks=%d sockets=%d alt=%d notrec=%d mincomp=%d cand=%d copyin=%d bitid=%d bitrep=%d ports=%s cf=[%d %d %d %d]\n",
        idx, g, cname[c->coll], c->n, dname[c->dt], c->count, b, c->root, c->inplace, c->tasks, c->sockets, c->alt,
        c->notrec, c->mincomp, c->cand, c->copyin, c->bitid, c->bitrep, c->ports[0] ? c->ports : "-", c->cf[0], c->cf[1], c->cf[1] ? c->cf[2] : 0, c->cf[1] && c->cf[2] ? c->cf[3] : 0);
}

static int dsize(conf *c) { int s; MPI_Type_size(dts[c->dt], &s); return s; }

static void sizes(conf *c) {
  int e = dsize(c);
  size_t s = 0, r = 0;
  switch (c->coll) {
  case ALLREDUCE: case REDUCE: s = r = (size_t)c->count * e; break;
  case BCAST: s = 0; r = (size_t)c->count * e; break;
  case REDUCE_SCATTER: case REDUCE_SCATTER_BLOCK:
    s = (size_t)c->total * e; r = (size_t)c->counts[c->me] * e; if (c->inplace) r = s; break;
  case ALLGATHERV: case ALLGATHER: s = (size_t)c->counts[c->me] * e; r = (size_t)c->extent * e; break;
  case GATHERV: s = (size_t)c->counts[c->me] * e; r = (size_t)c->extent * e; break;
  case SCATTERV: s = (size_t)c->extent * e; r = (size_t)c->counts[c->me] * e; break;
  }
  c->sbytes = s; c->rbytes = r;
}

static char *alloc(size_t n) {
  char *p = malloc(n + 2 * GUARD);
  memset(p, 0x5a, n + 2 * GUARD);
  return p + GUARD;
}

static void fill(conf *c, uint64_t salt) {
  int e = dsize(c), i;
  for (i = 0; i < (int)(c->sbytes / e); i++) put(c->dt, c->send, i, (int)(mix(salt * 131 + c->me * 7919 + i) % (c->dt == 4 ? 7 : 1000)));
  for (i = 0; i < (int)(c->rbytes / e); i++) put(c->dt, c->recv, i, (int)(mix(salt * 137 + c->me * 7927 + i) % (c->dt == 4 ? 7 : 1000)));
  memcpy(c->sref, c->send, c->sbytes);
  memcpy(c->rref, c->recv, c->rbytes);
}

static void *sb(conf *c, int ref) { return c->inplace ? MPI_IN_PLACE : (void *)(ref ? c->sref : c->send); }

static int init(conf *c) {
  MPI_Datatype t = dts[c->dt];
  ext_mpi_debug = 0;
  ext_mpi_num_tasks_per_socket = c->tasks;
  ext_mpi_num_sockets_per_node = c->sockets;
  ext_mpi_alternating = c->alt;
  ext_mpi_not_recursive = c->notrec;
  ext_mpi_minimum_computation = c->mincomp;
  ext_mpi_bit_identical = c->bitid;
  ext_mpi_bit_reproducible = c->bitrep;
  cand_on = c->cand;
  ext_mpi_copyin_method = c->copyin;
  ext_mpi_copyin_factors = c->cf;
  switch (c->coll) {
  case ALLREDUCE: return EXT_MPI_Allreduce_init(sb(c, 0), c->recv, c->count, t, MPI_SUM, c->comm, MPI_INFO_NULL, &c->handle);
  case REDUCE: return EXT_MPI_Reduce_init(c->inplace && c->me != c->root ? c->send : sb(c, 0), c->recv, c->count, t, MPI_SUM, c->root, c->comm, MPI_INFO_NULL, &c->handle);
  case BCAST: return EXT_MPI_Bcast_init(c->recv, c->count, t, c->root, c->comm, MPI_INFO_NULL, &c->handle);
  case REDUCE_SCATTER: return EXT_MPI_Reduce_scatter_init(sb(c, 0), c->recv, c->counts, t, MPI_SUM, c->comm, MPI_INFO_NULL, &c->handle);
  case REDUCE_SCATTER_BLOCK: return EXT_MPI_Reduce_scatter_block_init(sb(c, 0), c->recv, c->count, t, MPI_SUM, c->comm, MPI_INFO_NULL, &c->handle);
  case ALLGATHERV: return EXT_MPI_Allgatherv_init(sb(c, 0), c->counts[c->me], t, c->recv, c->counts, c->displs, t, c->comm, MPI_INFO_NULL, &c->handle);
  case ALLGATHER: return EXT_MPI_Allgather_init(sb(c, 0), c->counts[c->me], t, c->recv, c->count, t, c->comm, MPI_INFO_NULL, &c->handle);
  case GATHERV: return EXT_MPI_Gatherv_init(sb(c, 0), c->counts[c->me], t, c->recv, c->counts, c->displs, t, c->root, c->comm, MPI_INFO_NULL, &c->handle);
  case SCATTERV: return EXT_MPI_Scatterv_init(c->send, c->counts, c->displs, t, c->recv, c->counts[c->me], t, c->root, c->comm, MPI_INFO_NULL, &c->handle);
  }
  return -1;
}

static void reference(conf *c) {
  MPI_Datatype t = dts[c->dt];
  switch (c->coll) {
  case ALLREDUCE: PMPI_Allreduce(sb(c, 1), c->rref, c->count, t, MPI_SUM, c->comm); break;
  case REDUCE: PMPI_Reduce(c->inplace && c->me != c->root ? c->sref : sb(c, 1), c->rref, c->count, t, MPI_SUM, c->root, c->comm); break;
  case BCAST: PMPI_Bcast(c->rref, c->count, t, c->root, c->comm); break;
  case REDUCE_SCATTER: case REDUCE_SCATTER_BLOCK: PMPI_Reduce_scatter(sb(c, 1), c->rref, c->counts, t, MPI_SUM, c->comm); break;
  case ALLGATHERV: case ALLGATHER: PMPI_Allgatherv(sb(c, 1), c->counts[c->me], t, c->rref, c->counts, c->displs, t, c->comm); break;
  case GATHERV: PMPI_Gatherv(sb(c, 1), c->counts[c->me], t, c->rref, c->counts, c->displs, t, c->root, c->comm); break;
  case SCATTERV: PMPI_Scatterv(c->sref, c->counts, c->displs, t, c->rref, c->counts[c->me], t, c->root, c->comm); break;
  }
}

static double get(int dt, char *p, int i) {
  switch (dt) {
  case 0: return ((double *)p)[i];
  case 1: return ((long *)p)[i];
  case 2: return ((int *)p)[i];
  case 3: return ((float *)p)[i];
  }
  return p[i];
}

static void differ(conf *c, int idx, int round, const char *what, size_t at) {
  if (!differences) {
    print(c, idx, -1);
    logf_("DIFF %d %s: rank %d of %d, round %d: %s at element %zu (%g, expected %g)\n", idx, cname[c->coll], c->me, c->n, round, what, at / dsize(c),
          at < c->rbytes ? get(c->dt, c->recv, at / dsize(c)) : 0, at < c->rbytes ? get(c->dt, c->rref, at / dsize(c)) : 0);
  }
  differences++;
}

static void compare(conf *c, int idx, int round) {
  size_t i, lim = c->rbytes;
  /* a receive buffer that is not significant at this rank, or the part MPI leaves undefined */
  if ((c->coll == REDUCE || c->coll == GATHERV) && c->me != c->root) lim = 0;
  if ((c->coll == REDUCE_SCATTER || c->coll == REDUCE_SCATTER_BLOCK) && c->inplace) lim = (size_t)c->counts[c->me] * dsize(c);
  for (i = 0; i < lim; i++) if (c->recv[i] != c->rref[i]) { differ(c, idx, round, "received data", i); return; }
  for (i = 0; i < c->sbytes; i++) if (c->send[i] != c->sref[i]) { differ(c, idx, round, "send buffer changed", i); return; }
  for (i = 0; i < GUARD; i++) {
    if (c->recv[-1 - (long)i] != 0x5a || c->recv[c->rbytes + i] != 0x5a) { differ(c, idx, round, "written outside the receive buffer", i); return; }
    if (c->send[-1 - (long)i] != 0x5a || c->send[c->sbytes + i] != 0x5a) { differ(c, idx, round, "written outside the send buffer", i); return; }
  }
}

static void one(uint64_t seed, int idx) {
  int n1, i, j, perm[MAXN], g, key, nreq, r, rounds, mode;
  conf *cs = calloc(MAXREQ, sizeof *cs);
  MPI_Comm comm, dup[MAXREQ];
  rs = mix(seed * 1000003 + idx);
  for (i = 0; i < wsize; i++) perm[i] = i;
  if (rnd(3) == 0)
    for (i = wsize - 1; i > 0; i--) { j = rnd(i + 1); int t = perm[i]; perm[i] = perm[j]; perm[j] = t; }
  n1 = pick(K_N, rnd(3) ? wsize : 1 + rnd(wsize));
  if (n1 > wsize) n1 = wsize;
  g = perm[wrank] >= n1;
  key = perm[wrank];
  PMPI_Comm_split(MPI_COMM_WORLD, g, key, &comm);
  uint64_t base = mix(rs + 17 * g);
  rs = base;
  int n, me;
  MPI_Comm_size(comm, &n);
  MPI_Comm_rank(comm, &me);
  nreq = pick(K_REQS, rnd(3) == 0 ? 2 + rnd(MAXREQ - 1) : 1);
  mode = rnd(4);
  rounds = 1 + rnd(4);
  for (r = 0; r < nreq; r++) {
    conf *c = &cs[r];
    memset(c, 0, sizeof *c);
    c->n = n; c->me = me;
    dup[r] = comm;
    c->comm = comm;
    draw(c);
    if (me == 0) print(c, idx, g);
    sizes(c);
    c->send = alloc(c->sbytes); c->recv = alloc(c->rbytes);
    c->sref = malloc(c->sbytes + 1); c->rref = malloc(c->rbytes + 1);
    clk_state = cand_state = mix(base + r);
    fill(c, base + 99);
    if (init(c) < 0) { differ(c, idx, -1, "initialisation failed", 0); }
  }
  if (me == 0) logf_("RUN %d comm %d mode %d rounds %d\n", idx, g, mode, rounds);
  for (j = 0; j < rounds; j++) {
    for (r = 0; r < nreq; r++) { fill(&cs[r], base + 1000 * j + r); reference(&cs[r]); }
    switch (mode) {
    case 0: /* one after the other */
      for (r = 0; r < nreq; r++) { EXT_MPI_Start(cs[r].handle); EXT_MPI_Wait(cs[r].handle); }
      break;
    case 1: /* all at once, completed in order */
      for (r = 0; r < nreq; r++) EXT_MPI_Start(cs[r].handle);
      for (r = 0; r < nreq; r++) EXT_MPI_Wait(cs[r].handle);
      break;
    case 2: /* polled */
      for (r = 0; r < nreq; r++) EXT_MPI_Start(cs[r].handle);
      for (r = 0; r < nreq; r++) { while (!EXT_MPI_Test(cs[r].handle)); EXT_MPI_Wait(cs[r].handle); }
      break;
    default: /* progressed */
      for (r = 0; r < nreq; r++) EXT_MPI_Start(cs[r].handle);
      for (i = 0; i < (int)(mix(base + j + wrank) % 20); i++) EXT_MPI_Progress();
      for (r = nreq - 1; r >= 0; r--) EXT_MPI_Wait(cs[r].handle);
    }
    for (r = 0; r < nreq; r++) compare(&cs[r], idx, j);
  }
  for (r = 0; r < nreq; r++) {
    EXT_MPI_Done(cs[r].handle);
    free(cs[r].send - GUARD); free(cs[r].recv - GUARD); free(cs[r].sref); free(cs[r].rref);
  }
  PMPI_Comm_free(&comm);
  free(cs);
}

#ifndef SIM
int main(int argc, char **argv) {
  int i, k, bad;
  if (argc < 6) return 2;
  for (i = 0; i < 32; i++) forced[i] = -1;
  PMPI_Init(&argc, &argv);
  MPI_Comm_size(MPI_COMM_WORLD, &wsize);
  MPI_Comm_rank(MPI_COMM_WORLD, &wrank);
  for (i = 6; i < argc; i++)
    for (k = 0; k < K_LAST; k++)
      if (!strncmp(argv[i], kname[k], strlen(kname[k])) && argv[i][strlen(kname[k])] == '=') forced[k] = atoi(argv[i] + strlen(kname[k]) + 1);
  logfd = open(argv[5], O_WRONLY | O_CREAT | O_APPEND, 0644);
  EXT_MPI_Init();
  double t0 = PMPI_Wtime();
  for (i = atoi(argv[2]); i < atoi(argv[3]); i++) {
    int stop = wrank == 0 && PMPI_Wtime() - t0 > atof(argv[4]);
    PMPI_Bcast(&stop, 1, MPI_INT, 0, MPI_COMM_WORLD);
    if (stop) break;
    one(strtoull(argv[1], 0, 10), i);
    PMPI_Allreduce(&differences, &bad, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
    if (forced[K_KEEP] > 0) { if (wrank == 0) logf_("RES %d %s\n", i, bad ? "bad" : "ok"); differences = 0; bad = 0; }
    if (bad) { PMPI_Barrier(MPI_COMM_WORLD); _exit(3); }
  }
  if (wrank == 0) logf_("END %d\n", i);
  EXT_MPI_Finalize();
  PMPI_Finalize();
  return 0;
}
#endif
