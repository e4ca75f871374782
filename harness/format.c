/* C08: what one pass writes is what the next pass reads */
#include "vh.h"
#include <limits.h>
#include <stdarg.h>
#ifdef __CPROVER__   /* the code names a local variable where C wants the last parameter; compilers ignore it, CBMC does not */
#undef va_start
#define va_start(v, n) __builtin_va_start(v, types)
#endif
#include "src/core/read_write.c"
#include "src/core/ports_groups.c"
#ifndef NL
#define NL 3   /* lines, entries */
#endif
static int anyint(const char *n) { return (int)vh_bits(n, INT_MIN, INT_MAX); }
static const enum eassembler_type areas[4] = {esendbufp, erecvbufp, elocmemp, eshmemo};
static const enum eassembler_type tmsg[4] = {eirecv, eirec_, eisend, eisen_};
static const enum eassembler_type tcpy[8] = {ememcpy, ememcp_, ereduce, ereduc_, esmemcpy, esmemcp_, esreduce, esreduc_};

static void draw_msg(struct line_irecv_isend *d) {
  memset(d, 0, sizeof(*d));
  d->type = tmsg[vh_int("type", 0, 3)];
  d->buffer_type = areas[vh_int("area", 0, 3)];
  d->buffer_number = d->offset_number = -1;
  if (d->buffer_type == eshmemo) {
    d->buffer_number = anyint("segment");
    d->is_offset = (int)vh_int("is_offset", 0, 1);
    if (d->is_offset) d->offset_number = anyint("offset number");
  }
  d->offset = anyint("offset"); d->size = anyint("size"); d->partner = anyint("partner"); d->tag = anyint("tag");
}
static void same_msg(const struct line_irecv_isend *a, const struct line_irecv_isend *b) {
  VH_CHECK(a->type == b->type, "message: kind of the line");
  VH_CHECK(a->buffer_type == b->buffer_type && a->buffer_number == b->buffer_number, "message: buffer");
  VH_CHECK(a->is_offset == b->is_offset && a->offset_number == b->offset_number && a->offset == b->offset, "message: offset");
  VH_CHECK(a->size == b->size, "message: size");
  VH_CHECK(a->partner == b->partner && a->tag == b->tag, "message: partner and tag");
}
static void draw_cpy(struct line_memcpy_reduce *d) {
  memset(d, 0, sizeof(*d));
  d->type = tcpy[vh_int("type", 0, 7)];
  d->buffer_type1 = areas[vh_int("area1", 0, 3)]; d->buffer_type2 = areas[vh_int("area2", 0, 3)];
  d->buffer_number1 = d->offset_number1 = d->buffer_number2 = d->offset_number2 = -1;
  if (d->buffer_type1 == eshmemo) { d->buffer_number1 = anyint("segment1"); d->is_offset1 = (int)vh_int("is_offset1", 0, 1); if (d->is_offset1) d->offset_number1 = anyint("offset number1"); }
  if (d->buffer_type2 == eshmemo) { d->buffer_number2 = anyint("segment2"); d->is_offset2 = (int)vh_int("is_offset2", 0, 1); if (d->is_offset2) d->offset_number2 = anyint("offset number2"); }
  d->offset1 = anyint("offset1"); d->offset2 = anyint("offset2"); d->size = anyint("size");
}
static void same_cpy(const struct line_memcpy_reduce *a, const struct line_memcpy_reduce *b) {
  VH_CHECK(a->type == b->type, "copy: kind of the line");
  VH_CHECK(a->buffer_type1 == b->buffer_type1 && a->buffer_number1 == b->buffer_number1, "copy: first buffer");
  VH_CHECK(a->is_offset1 == b->is_offset1 && (!a->is_offset1 || a->offset_number1 == b->offset_number1) && a->offset1 == b->offset1, "copy: first offset");
  VH_CHECK(a->buffer_type2 == b->buffer_type2 && a->buffer_number2 == b->buffer_number2, "copy: second buffer");
  VH_CHECK(a->is_offset2 == b->is_offset2 && (!a->is_offset2 || a->offset_number2 == b->offset_number2) && a->offset2 == b->offset2, "copy: second offset");
  VH_CHECK(a->size == b->size, "copy: size");
}
/* a line buffer as the passes use it */
static char buf[512], line[512];
static void h_msg(void) {
  struct line_irecv_isend a, b;
  struct line_memcpy_reduce c;
  int n, m;
  draw_msg(&a);
  n = ext_mpi_write_irecv_isend(buf, &a, 0);
  memset(line, -1, sizeof(line));
  m = ext_mpi_read_line(buf, line, 0);
  VH_CHECK(n == m, "reading a line consumes what writing it produced");
  VH_CHECK(ext_mpi_read_irecv_isend(line, &b) == 1, "a message line is recognised");
  same_msg(&a, &b);
  VH_CHECK(ext_mpi_read_memcpy_reduce(line, &c) == 0, "a message is not taken for a copy");
  VH_COVER("message");
}
static void h_cpy(void) {
  struct line_memcpy_reduce a, b;
  struct line_irecv_isend c;
  int n, m;
  draw_cpy(&a);
  n = ext_mpi_write_memcpy_reduce(buf, &a, 0);
  memset(line, -1, sizeof(line));
  m = ext_mpi_read_line(buf, line, 0);
  VH_CHECK(n == m, "reading a line consumes what writing it produced");
  VH_CHECK(ext_mpi_read_memcpy_reduce(line, &b) == 1, "a copy line is recognised");
  same_cpy(&a, &b);
  VH_CHECK(ext_mpi_read_irecv_isend(line, &c) == 0, "a copy is not taken for a message");
  VH_COVER("copy");
}
/* the other lines: one word, possibly with a number or a stage */
static void h_word(void) {
  static const enum eassembler_type other[] = {enode_barrier, esocket_barrier, eset_socket_barrier, ewait_socket_barrier, ewaitall, ewaitany, eattached, ereturn, estage, estart, egemv, enop};
  enum eassembler_type t = other[vh_int("word", 0, 11)], r = enop, r2;
  struct line_irecv_isend m; struct line_memcpy_reduce c;
  int x = anyint("number"), y = anyint("second"), form = (int)vh_int("form", 0, 2), n, k, u = 0, v = 0;
  n = form == 0 ? ext_mpi_write_assembler_line(buf, 0, "s", t) : form == 1 ? ext_mpi_write_assembler_line(buf, 0, "sd", t, x) : ext_mpi_write_assembler_line(buf, 0, "sdsd", t, x, elocmemp, y);
  memset(line, -1, sizeof(line));
  VH_CHECK(ext_mpi_read_line(buf, line, 0) == n, "reading a line consumes what writing it produced");
  k = ext_mpi_read_assembler_line(line, 0, "s", &r);
  VH_CHECK(k >= 0 && r == t, "the word of a line is read back");
  VH_CHECK((k > 0) == (form == 0), "a longer line is told from a complete one");
  k = ext_mpi_read_assembler_line(line, 0, "sd", &r, &u);
  if (form == 0) VH_CHECK(k < 0, "a missing operand is reported");
  else VH_CHECK(k >= 0 && r == t && u == x, "the operand is read back");
  if (form == 2) {
    k = ext_mpi_read_assembler_line(line, 0, "sdsd", &r, &u, &r2, &v);
    VH_CHECK(k == n && r == t && u == x && r2 == elocmemp && v == y, "all operands are read back");
  }
  VH_CHECK(ext_mpi_read_irecv_isend(line, &m) == 0, "no message where there is none");
  VH_CHECK(ext_mpi_read_memcpy_reduce(line, &c) == 0, "no copy where there is none");
  VH_COVER("word");
}
/* ------------------------------------------------------------ binary algorithm and parameters (also CBMC, bounded) */
static int *series(const char *n, int k) { int *r = malloc(sizeof(int) * (k + 1)), i; for (i = 0; i < k; i++) r[i] = anyint(n); r[k] = 0; return r; }
static int *sdup(const int *s, int k) { int *r = malloc(sizeof(int) * (k + 1)), i; for (i = 0; i < k; i++) r[i] = s[i]; r[k] = 0; return r; }
static int sameser(const int *a, int na, const int *b, int nb) { int i; if (na != nb) return 0; for (i = 0; i < na; i++) if (a[i] != b[i]) return 0; return 1; }
static void draw_alg(struct data_algorithm *d) {
  int i, j;
  d->num_blocks = (int)vh_int("blocks", 1, NL);
  d->blocks = malloc(sizeof(*d->blocks) * d->num_blocks);
  for (i = 0; i < d->num_blocks; i++) {
    d->blocks[i].num_lines = (int)vh_int("lines", 1, NL);
    d->blocks[i].lines = malloc(sizeof(struct data_algorithm_line) * d->blocks[i].num_lines);
    for (j = 0; j < d->blocks[i].num_lines; j++) {
      struct data_algorithm_line *l = &d->blocks[i].lines[j];
      l->frac = anyint("frac");
      l->sendto_max = (int)vh_int("sendto", 0, NL); l->sendto_node = series("node", l->sendto_max); l->sendto_line = series("line", l->sendto_max);
      l->recvfrom_max = (int)vh_int("recvfrom", 0, NL); l->recvfrom_node = series("node", l->recvfrom_max); l->recvfrom_line = series("line", l->recvfrom_max);
      l->reducefrom_max = (int)vh_int("reducefrom", 0, NL); l->reducefrom = series("line", l->reducefrom_max);
      l->copyreducefrom_max = (int)vh_int("copyreducefrom", 0, NL); l->copyreducefrom = series("line", l->copyreducefrom_max);
    }
  }
}
static void same_alg(const struct data_algorithm *a, const struct data_algorithm *b) {
  int i, j;
  VH_CHECK(a->num_blocks == b->num_blocks, "algorithm: stages");
  for (i = 0; i < a->num_blocks; i++) {
    VH_CHECK(a->blocks[i].num_lines == b->blocks[i].num_lines, "algorithm: lines of a stage");
    for (j = 0; j < a->blocks[i].num_lines; j++) {
      struct data_algorithm_line *l = &a->blocks[i].lines[j], *m = &b->blocks[i].lines[j];
      VH_CHECK(l->frac == m->frac, "algorithm: fraction");
      VH_CHECK(sameser(l->sendto_node, l->sendto_max, m->sendto_node, m->sendto_max) && sameser(l->sendto_line, l->sendto_max, m->sendto_line, m->sendto_max), "algorithm: sends");
      VH_CHECK(sameser(l->recvfrom_node, l->recvfrom_max, m->recvfrom_node, m->recvfrom_max) && sameser(l->recvfrom_line, l->recvfrom_max, m->recvfrom_line, m->recvfrom_max), "algorithm: receives");
      VH_CHECK(sameser(l->reducefrom, l->reducefrom_max, m->reducefrom, m->reducefrom_max), "algorithm: reductions");
      VH_CHECK(sameser(l->copyreducefrom, l->copyreducefrom_max, m->copyreducefrom, m->copyreducefrom_max), "algorithm: copies");
    }
  }
}
static char big[NL > 9 ? 20000000 : 200000];
static void h_alg(void) {
  struct data_algorithm a, b;
  int n, m, ascii;
  draw_alg(&a);
#ifdef __CPROVER__
  ascii = 0;
#else
  ascii = (int)vh_int("ascii", 0, 1);
#endif
  n = ext_mpi_write_algorithm(a, big, ascii);
  VH_CHECK(n > 0 && n < sizeof(big) - 100, "algorithm: written");
  ext_mpi_write_assembler_line(big + n, ascii, "s", enode_barrier);     /* something follows */
  m = ext_mpi_read_algorithm(big, &b, ascii);
  VH_CHECK(m == n, "algorithm: reading consumes what writing produced");
  same_alg(&a, &b);
  ext_mpi_delete_algorithm(a);
  ext_mpi_delete_algorithm(b);
  VH_COVER("algorithm");
}
static void same_par(const struct parameters_block *a, const struct parameters_block *b) {
  VH_CHECK(a->collective_type == b->collective_type && a->data_type == b->data_type && a->root == b->root && a->in_place == b->in_place && a->on_gpu == b->on_gpu, "parameters: collective, type, root, in place");
  VH_CHECK(a->socket == b->socket && a->num_sockets == b->num_sockets && a->socket_rank == b->socket_rank && a->socket_row_size == b->socket_row_size && a->socket_column_size == b->socket_column_size && a->num_sockets_per_node == b->num_sockets_per_node, "parameters: topology");
  VH_CHECK(a->copyin_method == b->copyin_method && a->verbose == b->verbose && a->bit_identical == b->bit_identical && a->not_recursive == b->not_recursive && a->ascii_out == b->ascii_out, "parameters: options");
  VH_CHECK(a->locmem_max == b->locmem_max && a->shmem_max == b->shmem_max, "parameters: memory");
  VH_CHECK(sameser(a->counts, a->counts_max, b->counts, b->counts_max), "parameters: counts");
  VH_CHECK(sameser(a->num_ports, a->num_ports_max, b->num_ports, b->num_ports_max) && sameser(a->groups, a->groups_max, b->groups, b->groups_max), "parameters: ports and groups");
  VH_CHECK(sameser(a->message_sizes, a->message_sizes_max, b->message_sizes, b->message_sizes_max), "parameters: message sizes");
  VH_CHECK(sameser(a->copyin_factors, a->copyin_factors_max, b->copyin_factors, b->copyin_factors_max), "parameters: copy-in factors");
  VH_CHECK(sameser(a->rank_perm, a->rank_perm_max, b->rank_perm, b->rank_perm_max), "parameters: rank permutation");
  VH_CHECK(sameser(a->iocounts, a->iocounts_max, b->iocounts, b->iocounts_max), "parameters: io counts");
  VH_CHECK(sameser(a->shmem_buffer_offset, a->shmem_buffer_offset_max, b->shmem_buffer_offset, b->shmem_buffer_offset_max), "parameters: offsets of the shared buffers");
}
#define SER(f, lo) p->f##_max = (int)vh_int(#f, lo, NL), p->f = p->f##_max ? series(#f, p->f##_max) : NULL
static void draw_ports(int **ports, int **groups, int *n) {
  int i, g, k;
  *n = 0; *ports = malloc(sizeof(int) * (NL * NL + 1)); *groups = malloc(sizeof(int) * (NL * NL + 1));
  for (g = (int)vh_int("groups", 1, NL); g; g--) {
    int size = (int)vh_bits("group size", 1, INT_MAX), len = (int)vh_int("ports", 1, NL);
    for (k = 0; k < len; k++) { int p = (int)vh_bits("port", -INT_MAX, INT_MAX); VH_ASSUME(p); (*ports)[*n] = p; (*groups)[(*n)++] = k == len - 1 ? -size : size; }
  }
  (*ports)[*n] = (*groups)[*n] = 0;
}
static void h_par(void) {
  struct parameters_block *p = malloc(sizeof(*p)), *q = NULL;
  int n, m;
  memset(p, 0, sizeof(*p));
  p->collective_type = (int)vh_int("collective", 0, 4); p->data_type = (int)vh_int("data type", 0, 4);
  p->socket = anyint("socket"); p->num_sockets = anyint("sockets"); p->socket_rank = anyint("rank"); p->socket_row_size = anyint("rows"); p->socket_column_size = anyint("columns"); p->num_sockets_per_node = anyint("sockets per node");
  p->copyin_method = anyint("copyin"); p->verbose = (int)vh_int("verbose", 0, 1); p->in_place = (int)vh_int("in_place", 0, 1); p->bit_identical = (int)vh_int("bit", 0, 1); p->not_recursive = (int)vh_int("not_recursive", 0, 1);
  p->locmem_max = (int)vh_bits("locmem", -1, INT_MAX); p->shmem_max = (int)vh_bits("shmem", -1, INT_MAX);
  p->root = anyint("root"); VH_ASSUME(p->root >= -1 || p->root <= -10);
#ifndef __CPROVER__
  p->ascii_out = (int)vh_int("ascii", 0, 1);
#endif
  SER(counts, 0); SER(message_sizes, 0); SER(copyin_factors, 0); SER(rank_perm, 0); SER(iocounts, 0); SER(shmem_buffer_offset, 0);
  if (vh_int("have ports", 0, 1)) { draw_ports(&p->num_ports, &p->groups, &p->num_ports_max); p->groups_max = p->num_ports_max; }
  n = ext_mpi_write_parameters(p, big);
  VH_CHECK(n > 0, "parameters: written");
  ext_mpi_write_assembler_line(big + n, p->ascii_out, "sd", estage, 0);
  m = ext_mpi_read_parameters(big, &q);
  VH_CHECK(m == n, "parameters: reading consumes what writing produced");
  same_par(p, q);
  VH_CHECK((q->ascii_in != 0) == (p->ascii_out != 0), "parameters: form of the input");
  ext_mpi_delete_parameters(p);
  ext_mpi_delete_parameters(q);
  VH_COVER("parameters");
}
#ifndef __CPROVER__
/* ------------------------------------------------------------ whole programs, both forms */
static void draw_line(char *out, int *n) {
  struct line_irecv_isend a; struct line_memcpy_reduce c;
  switch (vh_int("kind", 0, 3)) {
  case 0: draw_msg(&a); *n = ext_mpi_write_irecv_isend(out, &a, 0); break;
  case 1: draw_cpy(&c); *n = ext_mpi_write_memcpy_reduce(out, &c, 0); break;
  case 2: *n = ext_mpi_write_assembler_line(out, 0, "sd", (enum eassembler_type)vh_int("word", 0, egemv), anyint("number")); break;
  default: *n = ext_mpi_write_assembler_line(out, 0, "s", (enum eassembler_type)vh_int("word", 0, egemv));
  }
}
static void h_prog(void) {
  int lines = (int)vh_int("lines", 0, 2 * NL), i, n, off[2 * NL + 2], len[2 * NL + 1], ascii = (int)vh_int("ascii", 0, 1), pos = 0, rd = 0, m;
  static char src[200 * NL];
  for (off[0] = i = 0; i < lines; i++) {
    draw_line(src + off[i], &len[i]);
    off[i + 1] = off[i] + len[i];
    /* written directly or copied line by line: the same text */
    n = ext_mpi_write_line(big + pos, src + off[i], ascii);
    VH_CHECK(n > 0, "line written");
    pos += n;
  }
  VH_CHECK(ext_mpi_write_eof(big + pos, ascii) > 0, "end written");
  for (i = 0; i < lines; i++) {
    memset(line, 0, sizeof(line));
    m = ext_mpi_read_line(big + rd, line, ascii);
    VH_CHECK(m > 0, "line read");
    rd += m;
    memcpy(&n, line, sizeof(n));
    VH_CHECK(n == len[i] && !memcmp(line, src + off[i], n), "a line is read back as it was written");
  }
  VH_CHECK(rd == pos, "reading consumes what writing produced");
  memset(line, 0, sizeof(line));
  VH_CHECK(ext_mpi_read_line(big + rd, line, ascii) == 0, "the end of the program is recognised");
}
/* writing text directly is the same as writing binary and converting */
static void h_text(void) {
  struct line_irecv_isend a; struct line_memcpy_reduce c; int n, m, which = (int)vh_int("kind", 0, 1);
  static char t1[512], t2[512];
  if (which) { draw_msg(&a); n = ext_mpi_write_irecv_isend(t1, &a, 1); ext_mpi_write_irecv_isend(line, &a, 0); }
  else { draw_cpy(&c); n = ext_mpi_write_memcpy_reduce(t1, &c, 1); ext_mpi_write_memcpy_reduce(line, &c, 0); }
  m = ext_mpi_write_line(t2, line, 1);
  VH_CHECK(n == m && !memcmp(t1, t2, n), "both ways of writing text agree");
}
static void h_ports(void) {
  int *p, *g, *p2, *g2, n, i; char *s;
  draw_ports(&p, &g, &n);
  s = ext_mpi_print_ports_groups(p, g);
  VH_CHECK(ext_mpi_scan_ports_groups(s, &p2, &g2) == 0, "ports: read");
  for (i = 0; i <= n; i++) VH_CHECK(p[i] == p2[i] && g[i] == g2[i], "ports and groups are read back as written");
  free(s); free(p); free(g); free(p2); free(g2);
}
static void h_copyin(void) {
  int k = (int)vh_int("factors", 0, 12), *f = series("factor", k), m = anyint("method"), m2, *f2, i; char *s;
  for (i = 0; i < k; i++) VH_ASSUME(f[i]);
  s = ext_mpi_print_copyin(m, f);
  VH_CHECK(ext_mpi_scan_copyin(s, &m2, &f2) == 0, "copy-in: read");
  VH_CHECK(m == m2, "copy-in method is read back as written");
  for (i = 0; i <= k; i++) VH_CHECK(f[i] == f2[i], "copy-in factors are read back as written");
  free(s); free(f); free(f2);
}
#endif
VH_MAIN(ENTRY)
