/* passes that rewrite a finished program line by line: the program means the same afterwards */
#include "vh.h"
#include <limits.h>
#include <mpi.h>
#include "src/core/read_write.c"
#include "src/core/ports_groups.c"
#include "src/core/dummy.c"
#include "src/core/no_first_barrier.c"
#include "src/core/no_socket_barriers.c"
#include "src/core/no_offset.c"
#include "src/core/buffer_offset.c"
#include "src/core/raw_code_merge.c"
#include "src/core/parallel_memcpy.c"
#include "src/mpi/clean_barriers.c"
#ifndef MAXL
#define MAXL 8
#endif
static const enum eassembler_type areas[3] = {esendbufp, erecvbufp, eshmemo};
static const enum eassembler_type tmsg[4] = {eisend, eirecv, eisen_, eirec_}, tcpy[7] = {ememcpy, ereduce, ememcp_, ereduc_, esmemcpy, esmemcp_, esreduce};
struct ln { int what; enum eassembler_type k; int x; struct line_irecv_isend m; struct line_memcpy_reduce c; char raw[128]; int len; };   /* what: 0 word, 1 message, 2 copy */
static struct ln A[MAXL + 1], B[4 * MAXL + 8];
static int na, nb;
static char in[1 << 16], out[1 << 16], out2[1 << 16];
static struct parameters_block par;
static int table[16];
static void begin(void) {
  memset(&par, 0, sizeof(par));
  par.collective_type = collective_type_allreduce; par.socket_row_size = par.socket_column_size = par.num_sockets_per_node = par.num_sockets = 1; par.locmem_max = par.shmem_max = par.root = -1; par.data_type = data_type_char;
  na = nb = 0;
}
static int put(char *q, struct ln *l) {
  if (l->what == 1) return ext_mpi_write_irecv_isend(q, &l->m, 0);
  if (l->what == 2) return ext_mpi_write_memcpy_reduce(q, &l->c, 0);
  switch (l->k) {
  case ewaitall: return ext_mpi_write_assembler_line(q, 0, "sdsd", ewaitall, l->x, elocmemp, 0);
  case ewaitany: return ext_mpi_write_assembler_line(q, 0, "sddsd", ewaitany, l->x, 1, elocmemp, 0);
  case eset_socket_barrier: case ewait_socket_barrier: case estage: return ext_mpi_write_assembler_line(q, 0, "sd", l->k, l->x);
  default: return ext_mpi_write_assembler_line(q, 0, "s", l->k);
  }
}
static void store(char *q) {
  int i;
  q += ext_mpi_write_parameters(&par, q);
  for (i = 0; i < na; i++) { A[i].len = put(q, &A[i]); memcpy(A[i].raw, q, A[i].len); q += A[i].len; }
  ext_mpi_write_eof(q, 0);
}
static struct parameters_block *load(char *q) {
  struct parameters_block *p;
  int n;
  char line[1000];
  q += ext_mpi_read_parameters(q, &p);
  for (nb = 0; (n = ext_mpi_read_line(q, line, 0)) > 0; q += n) {
    struct ln *l = &B[nb++];
    VH_CHECK(nb < 4 * MAXL + 8, "the program does not grow without bound");
    memset(l, 0, sizeof(*l));
    l->len = n; memcpy(l->raw, q, n);
    VH_CHECK(ext_mpi_read_assembler_line(line, 0, "s", &l->k) >= 0, "every line can be read");
    l->what = ext_mpi_read_irecv_isend(line, &l->m) > 0 ? 1 : ext_mpi_read_memcpy_reduce(line, &l->c) > 0 ? 2 : 0;
  }
  return p;
}
static int same_par(struct parameters_block *p) {
  return p->socket_row_size == par.socket_row_size && p->socket_column_size == par.socket_column_size && p->socket_rank == par.socket_rank && p->num_sockets_per_node == par.num_sockets_per_node && p->num_sockets == par.num_sockets && p->data_type == par.data_type && p->collective_type == par.collective_type &&
         p->socket == par.socket && p->root == par.root && p->in_place == par.in_place && p->on_gpu == par.on_gpu;
}
static void word(struct ln *l) {
  static const enum eassembler_type w[10] = {esocket_barrier, esocket_barrier, enode_barrier, eset_socket_barrier, ewait_socket_barrier, ewaitall, ewaitany, eattached, enop, ereturn};
  l->what = 0; l->k = w[vh_int("word", 0, 9)]; l->x = (int)vh_int("number", 0, 2);
}
static void area(enum eassembler_type *t, int *seg, int *isoff, int *num, int offs) {
  int a = (int)vh_int("area", 0, 2);
  *t = areas[a]; *seg = *num = -1; *isoff = 0;
  if (a == 2) { *seg = (int)vh_int("segment", 0, 1); if (offs) { *isoff = (int)vh_int("is offset", 0, 1); if (*isoff) *num = (int)vh_int("offset number", -1, 3); } }
}
static void draw(struct ln *l, int offs) {
  int k = (int)vh_int("line", 0, 3);
  memset(l, 0, sizeof(*l));
  if (k == 0) { word(l); return; }
  if (k == 1) {
    l->what = 1; l->m.type = tmsg[vh_int("message", 0, 3)]; area(&l->m.buffer_type, &l->m.buffer_number, &l->m.is_offset, &l->m.offset_number, offs);
    l->m.offset = (int)vh_int("offset", 0, 300); l->m.size = (int)vh_int("size", 0, 300); l->m.partner = (int)vh_int("partner", 0, 5); l->m.tag = (int)vh_int("tag", 0, 5);
  } else {
    l->what = 2; l->c.type = tcpy[vh_int("copy", 0, 6)];
    area(&l->c.buffer_type1, &l->c.buffer_number1, &l->c.is_offset1, &l->c.offset_number1, offs); area(&l->c.buffer_type2, &l->c.buffer_number2, &l->c.is_offset2, &l->c.offset_number2, offs);
    l->c.offset1 = (int)vh_int("offset1", 0, 300); l->c.offset2 = (int)vh_int("offset2", 0, 300); l->c.size = (int)vh_int("size", 0, 300);
  }
}
/* ---- clean_barriers: the other ranks of the socket vote too */
static int vote[3 * MAXL + 8], nvote, asked[3 * MAXL + 8], inloop;
static void *askedc[3 * MAXL + 8];
static char comms[8];
#define COMM(i) ((MPI_Comm)&comms[i])
static int rrow, rcol, colour[2];
int PMPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  int *v = (int *)r;
  VH_CHECK(s == MPI_IN_PLACE && n == 1 && t == MPI_INT && op == MPI_MIN, "votes are joined by their minimum");
  if (!inloop && (c == COMM(0) || c == COMM(1))) return MPI_SUCCESS;    /* nobody failed */
  inloop = 1;
  VH_CHECK(nvote < 3 * MAXL, "votes are bounded");
  asked[nvote] = *v; askedc[nvote] = c;
  vote[nvote] = (int)vh_int("others", 0, 1);
  if (vote[nvote] < *v) *v = vote[nvote];
  nvote++;
  return MPI_SUCCESS;
}
int MPI_Comm_rank(MPI_Comm c, int *r) { *r = c == COMM(0) ? rrow : rcol; return MPI_SUCCESS; }
int PMPI_Comm_split(MPI_Comm c, int col, int key, MPI_Comm *r) { int i = c != COMM(0); colour[i] = col; *r = COMM(2 + i); return MPI_SUCCESS; }
int PMPI_Comm_free(MPI_Comm *c) { *c = MPI_COMM_NULL; return MPI_SUCCESS; }
static void expect(int i, int *j, int keep) {
  if (!keep) return;
  VH_CHECK(*j < nb, "no line is missing");
  VH_CHECK(B[*j].len == A[i].len && !memcmp(B[*j].raw, A[i].raw, A[i].len), "lines are kept unchanged and in order");
  (*j)++;
}
static void h_keep(void) {
  int pass = (int)vh_int("pass", 0, 3), lines = (int)vh_int("lines", 0, MAXL), i, j = 0, n, bars = 0, vt = 0, idle = 0, hascol = (int)vh_int("has column", 0, 1);
  begin();
  if (pass == 3) { par.socket_row_size = (int)vh_int("row", 1, 3); par.socket_column_size = (int)vh_int("column", 1, 2); }
  if (pass == 1) par.socket_row_size = (int)vh_int("row", 1, 3);
  for (i = 0; i < lines; i++) if (vh_int("a word", 0, 2)) { memset(&A[na], 0, sizeof(A[0])); word(&A[na++]); } else draw(&A[na++], 1);
  store(in);
  nvote = inloop = 0; rrow = (int)vh_int("rank in row", 0, 5); rcol = (int)vh_int("rank in column", 0, 5);
  n = pass == 0 ? ext_mpi_generate_dummy(in, out) : pass == 1 ? ext_mpi_generate_no_first_barrier(in, out) : pass == 2 ? ext_mpi_generate_no_socket_barriers(in, out) : ext_mpi_clean_barriers(in, out, COMM(0), hascol ? COMM(1) : MPI_COMM_NULL);
  VH_CHECK(n > 0, "the pass succeeds");
  struct parameters_block *p = load(out);
  VH_CHECK(same_par(p), "the parameters are handed on");
  for (i = 0; i < na; i++) {
    int bar = A[i].what == 0 && A[i].k == esocket_barrier, keep = 1;
    if (pass == 1) keep = !bar || bars++;
    if (pass == 2) keep = !bar;
    if (pass == 3) {
      int nop = A[i].what == 0 && (A[i].k == enop || (A[i].k == ewaitany && A[i].x == 0));
      if (nop) keep = 0;
      else if (!bar) idle = 0;
      else {
        int mine = idle, all;
        VH_CHECK(vt < nvote && asked[vt] == mine && askedc[vt] == COMM(2), "each rank says at every barrier whether it did nothing since the last one");
        all = mine < vote[vt] ? mine : vote[vt]; vt++;
        if (hascol) { VH_CHECK(vt < nvote && asked[vt] == all && askedc[vt] == COMM(3), "the votes of the rows are joined over the column"); all = all < vote[vt] ? all : vote[vt]; vt++; }
        keep = !all;
        idle = 1;
      }
    }
    expect(i, &j, keep);
  }
  VH_CHECK(j == nb, "no line is added, none dropped is kept");
  VH_CHECK(vt == nvote, "no vote without a barrier");
  if (pass == 3) VH_CHECK(colour[0] == rrow / par.socket_row_size && (!hascol || colour[1] == rcol / par.socket_column_size), "the ranks of one socket vote together");
  ext_mpi_delete_parameters(p);
}
/* ---- places: segments do not overlap, and every place named by segment and offset becomes the place in it */
static void place(int isoff, int num, int offs, int size, int copy, int *got, struct parameters_block *p, int i) {
  int *t = p->shmem_buffer_offset, last = p->shmem_buffer_offset_max - 1;
  (void)i;
  if (!isoff) { VH_CHECK(*got == offs, "a plain offset is kept"); if (copy) VH_CHECK(offs + size <= t[last], "plain places lie inside the shared memory"); return; }
  if (num < 0) { VH_CHECK(*got == t[last] + offs, "a place behind everything"); return; }
  VH_CHECK(*got == t[num] + offs, "the place is that in its segment");
  if (copy) VH_CHECK(t[num] + offs + size <= t[num + 1], "the data stay inside their segment");
}
static void h_offset(void) {
  int lines = (int)vh_int("lines", 0, MAXL), i, j, loc = 0;
  begin();
  for (i = 0; i < lines; i++) draw(&A[na++], 1);
  /* messages only use segments that copies use (otherwise they have no size) */
  int known = 0;
  for (i = 0; i < na; i++) if (A[i].what == 2) { if (A[i].c.is_offset1 && A[i].c.offset_number1 > known) known = A[i].c.offset_number1; if (A[i].c.is_offset2 && A[i].c.offset_number2 > known) known = A[i].c.offset_number2; }
  for (i = 0; i < na; i++) { if (A[i].what == 1 && A[i].m.is_offset && A[i].m.offset_number > known) A[i].m.offset_number = known; if (A[i].what == 0 && (A[i].k == ewaitall || A[i].k == ewaitany) && A[i].x > loc) loc = A[i].x; }
  store(in);
  VH_CHECK(ext_mpi_generate_buffer_offset(in, out) > 0, "the pass succeeds");
  struct parameters_block *p = load(out), *p2;
  VH_CHECK(same_par(p), "the parameters are handed on");
  VH_CHECK(p->locmem_max == loc, "room for the largest number of requests");
  VH_CHECK(nb == na, "no line is lost or added");
  for (i = j = 0; i < na; i++) expect(i, &j, 1);
  VH_CHECK(p->shmem_buffer_offset_max >= 2 && p->shmem_buffer_offset[0] == 0, "the table of segments");
  for (i = 1; i < p->shmem_buffer_offset_max; i++) VH_CHECK(p->shmem_buffer_offset[i] >= p->shmem_buffer_offset[i - 1] + CACHE_LINE_SIZE, "every segment has a cache line at least");
  VH_CHECK(ext_mpi_generate_no_offset(out, out2) > 0, "the pass succeeds");
  p2 = load(out2);
  VH_CHECK(same_par(p2) && p2->locmem_max == p->locmem_max && p2->shmem_max == p->shmem_buffer_offset[p->shmem_buffer_offset_max - 1], "the parameters are handed on, the size is the end of the table");
  VH_CHECK(nb == na, "no line is lost or added");
  for (i = 0; i < na; i++) {
    struct ln *a = &A[i], *b = &B[i];
    VH_CHECK(a->what == b->what, "the kind of a line is kept");
    if (a->what == 1) {
      VH_CHECK(a->m.type == b->m.type && a->m.buffer_type == b->m.buffer_type && a->m.buffer_number == b->m.buffer_number && a->m.size == b->m.size && a->m.partner == b->m.partner && a->m.tag == b->m.tag && !b->m.is_offset, "a message keeps all but its place");
      place(a->m.is_offset, a->m.offset_number, a->m.offset, a->m.size, 0, &b->m.offset, p, i);
    } else if (a->what == 2) {
      VH_CHECK(a->c.type == b->c.type && a->c.buffer_type1 == b->c.buffer_type1 && a->c.buffer_number1 == b->c.buffer_number1 && a->c.buffer_type2 == b->c.buffer_type2 && a->c.buffer_number2 == b->c.buffer_number2 && a->c.size == b->c.size && !b->c.is_offset1 && !b->c.is_offset2, "a copy keeps all but its places");
      place(a->c.is_offset1, a->c.offset_number1, a->c.offset1, a->c.size, 1, &b->c.offset1, p, i); place(a->c.is_offset2, a->c.offset_number2, a->c.offset2, a->c.size, 1, &b->c.offset2, p, i);
    } else VH_CHECK(a->len == b->len && !memcmp(a->raw, b->raw, a->len), "other lines are kept");
  }
  ext_mpi_delete_parameters(p); ext_mpi_delete_parameters(p2);
}
/* ---- merging: executing the merged program gives the same memory */
#define MEM 256
static unsigned char m1[6][MEM], m2[6][MEM];
static int where(enum eassembler_type t, int seg, int isoff) { return t == esendbufp ? 0 : t == erecvbufp ? 1 : 2 + seg + (isoff ? 2 : 0); }   /* places behind all segments are elsewhere */
static void run(unsigned char mem[6][MEM], struct line_memcpy_reduce *c) {
  unsigned char *d = mem[where(c->buffer_type1, c->buffer_number1, c->is_offset1)] + c->offset1, *s = mem[where(c->buffer_type2, c->buffer_number2, c->is_offset2)] + c->offset2;
  int i;
  if (c->type == ememcpy || c->type == esmemcpy) for (i = 0; i < c->size; i++) d[i] = s[i];
  if (c->type == ereduce || c->type == esreduce) for (i = 0; i < c->size; i++) d[i] += s[i];
}
static int overlap(struct line_memcpy_reduce *c) {
  return where(c->buffer_type1, c->buffer_number1, c->is_offset1) == where(c->buffer_type2, c->buffer_number2, c->is_offset2) && c->offset1 < c->offset2 + c->size && c->offset2 < c->offset1 + c->size;
}
static int in_memory(struct line_memcpy_reduce *c) { return c->offset1 >= 0 && c->offset2 >= 0 && c->size >= 0 && c->offset1 + c->size <= MEM && c->offset2 + c->size <= MEM; }
static void h_merge(void) {
  int lines = (int)vh_int("lines", 0, MAXL), i, j, k = 0;
  begin();
  for (i = 0; i < lines; i++) {
    struct ln *l = &A[na++];
    int dir = i && A[na - 2].what == 2 ? (int)vh_int("follows", 0, 3) : 0;
    if (dir) {                       /* next to the line before: behind it (1, 2) or in front of it (3) */
      *l = A[na - 2];
      int s = vh_int("same size", 0, 1) ? l->c.size : 8 * (int)vh_int("size", 1, 3);
      if (dir < 3) { l->c.offset1 += l->c.size; l->c.offset2 += l->c.size; } else { l->c.offset1 -= l->c.size; l->c.offset2 -= l->c.size; }
      l->c.size = s;
      if (vh_int("odd one out", 0, 7) == 0) { int w = (int)vh_int("which", 0, 2); if (w == 2) { if (l->c.buffer_type1 == eshmemo) l->c.is_offset1 ^= 1; else if (l->c.buffer_type2 == eshmemo) l->c.is_offset2 ^= 1; } else if (w) l->c.buffer_type2 = l->c.buffer_type2 == esendbufp ? erecvbufp : l->c.buffer_type2 == erecvbufp ? esendbufp : eshmemo; else l->c.type = tcpy[vh_int("copy", 0, 1)]; }
    } else if (vh_int("a copy", 0, 4)) {
      memset(l, 0, sizeof(*l));
      l->what = 2; l->c.type = tcpy[vh_int("copy", 0, 3)];
      area(&l->c.buffer_type1, &l->c.buffer_number1, &l->c.is_offset1, &l->c.offset_number1, 0); area(&l->c.buffer_type2, &l->c.buffer_number2, &l->c.is_offset2, &l->c.offset_number2, 0);
      l->c.offset1 = 8 * (int)vh_int("offset1", 0, 12); l->c.offset2 = 8 * (int)vh_int("offset2", 0, 12); l->c.size = 8 * (int)vh_int("size", 1, 3);
    } else { memset(l, 0, sizeof(*l)); word(l); }
    if (l->what == 2) VH_ASSUME(in_memory(&l->c) && !overlap(&l->c));
  }
  store(in);
  VH_CHECK(ext_mpi_generate_raw_code_merge(in, out) > 0, "the pass succeeds");
  struct parameters_block *p = load(out);
  VH_CHECK(same_par(p), "the parameters are handed on");
  for (i = 0; i < 6; i++) for (j = 0; j < MEM; j++) m1[i][j] = m2[i][j] = (unsigned char)(j * 7 + i * 61 + 1);
  /* between words (barriers, waits) the copies must have the same effect */
  for (i = j = 0;; i++, j++) {
    for (; i < na && A[i].what == 2; i++) run(m1, &A[i].c);
    for (; j < nb && B[j].what == 2; j++) { VH_CHECK(in_memory(&B[j].c) && !overlap(&B[j].c), "a merged copy does not overlap itself and names only memory named before"); run(m2, &B[j].c); }
    VH_CHECK(!memcmp(m1, m2, sizeof(m1)), "the copies have the same effect as before");
    k++;
    if (i >= na || j >= nb) break;
    VH_CHECK(A[i].len == B[j].len && !memcmp(A[i].raw, B[j].raw, A[i].len), "other lines are kept");
  }
  VH_CHECK(i >= na && j >= nb, "no other line is lost or added");
  ext_mpi_delete_parameters(p);
}
/* ---- sharing out: for every byte of shared work exactly one task of the node does it, always the same for one destination between barriers */
static void h_par(void) {
  static const int sizes[5] = {1, 4, 8, 4, 8};
  int lines = (int)vh_int("lines", 1, MAXL), i, j, b, r, n, sec, ts;
  static struct ln O[MAXL + 1];
  static signed char who[MAXL][MEM];
  begin();
  par.data_type = (enum edata_type)vh_int("data type", 0, 4); ts = sizes[par.data_type];
  par.socket_row_size = (int)vh_int("row", 1, 4); par.socket_column_size = (int)vh_int("column", 1, 2); n = par.socket_row_size * par.socket_column_size;
  for (i = 0; i < lines; i++) {
    struct ln *l = &A[na++];
    if (vh_int("a copy", 0, 3)) {
      memset(l, 0, sizeof(*l)); l->what = 2; l->c.type = tcpy[vh_int("copy", 0, 6)];
      area(&l->c.buffer_type1, &l->c.buffer_number1, &l->c.is_offset1, &l->c.offset_number1, 0); area(&l->c.buffer_type2, &l->c.buffer_number2, &l->c.is_offset2, &l->c.offset_number2, 0);
      if (vh_int("shared", 0, 3)) { l->c.buffer_type1 = l->c.buffer_type2 = eshmemo; l->c.buffer_number1 = l->c.buffer_number2 = 0; }
      l->c.offset1 = 64 * (int)vh_int("offset1", 0, 2); l->c.offset2 = 256 + 8 * (int)vh_int("offset2", 0, 12); l->c.size = ts * (int)vh_int("elements", 0, 64 / ts);
    } else { memset(l, 0, sizeof(*l)); word(l); }
  }
  memset(who, -1, sizeof(who));
  for (r = 0; r < n; r++) {
    par.socket_rank = r;
    store(in);
    VH_CHECK(ext_mpi_generate_parallel_memcpy(in, out) > 0, "the pass succeeds");
    struct parameters_block *p = load(out);
    VH_CHECK(same_par(p), "the parameters are handed on");
    for (i = j = 0; i < na; i++) {
      struct line_memcpy_reduce *a = &A[i].c, *q = &B[j].c;
      int shared = A[i].what == 2 && a->buffer_type1 == eshmemo && a->buffer_type2 == eshmemo && (a->type == ememcpy || a->type == ememcp_ || a->type == ereduce || a->type == ereduc_);
      if (!shared) { expect(i, &j, 1); continue; }
      int t = a->type == ememcp_ ? ememcpy : a->type == ereduc_ ? ereduce : a->type;
      if (j < nb && B[j].what == 2 && q->type == t && q->buffer_type1 == eshmemo && q->buffer_type2 == eshmemo && q->buffer_number1 == a->buffer_number1 && q->buffer_number2 == a->buffer_number2 && q->size > 0 &&
          q->offset1 - a->offset1 == q->offset2 - a->offset2 && q->offset1 >= a->offset1 && q->offset1 + q->size <= a->offset1 + a->size && (q->offset1 - a->offset1) % ts == 0 && q->size % ts == 0) {
        int clash = 0;
        for (b = q->offset1 - a->offset1; b < q->offset1 - a->offset1 + q->size; b++) { if (who[i][b] >= 0) clash = 1; who[i][b] = (signed char)r; }
        VH_CHECK(!clash, "no part of shared work is done by two tasks");
        j++;
      }
    }
    VH_CHECK(j == nb, "every line written is a piece of a line of the program, in order");
    ext_mpi_delete_parameters(p);
  }
  int last[4096];
  for (i = 0; i < 4096; i++) last[i] = -1;
  for (i = sec = 0; i < na; i++) {
    struct line_memcpy_reduce *a = &A[i].c;
    if (A[i].what == 0 && A[i].k == esocket_barrier) for (b = 0; b < 4096; b++) last[b] = -1;
    if (A[i].what != 2 || a->buffer_type1 != eshmemo || a->buffer_type2 != eshmemo || !(a->type == ememcpy || a->type == ememcp_ || a->type == ereduce || a->type == ereduc_)) continue;
    for (b = 0; b < a->size; b++) VH_CHECK(who[i][b] >= 0, "all shared work is done by some task");
    /* lines with the same destination, one right after the other: the same task has the same part */
    if (i && A[i - 1].what == 2 && A[i - 1].c.offset1 == a->offset1 && who[i - 1][0] >= 0 && A[i - 1].c.buffer_type1 == eshmemo && A[i - 1].c.buffer_type2 == eshmemo && tcpy[4] != A[i - 1].c.type && tcpy[5] != A[i - 1].c.type && tcpy[6] != A[i - 1].c.type)
      for (b = 0; b < a->size && b < A[i - 1].c.size; b++) VH_CHECK(who[i][b] == who[i - 1][b], "two steps on the same data one after the other: the same task does the same part");
  }
  (void)O; (void)last; (void)sec;
}
VH_MAIN(ENTRY)
