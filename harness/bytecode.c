/* C07: the byte code holds exactly the instructions of the final program, with their operands, and its header describes the call */
#include "vh.h"
#include <limits.h>
#include <stdarg.h>
#include "src/core/read_write.c"
#include "src/core/ports_groups.c"
#include "src/core/byte_code.c"
#ifndef MAXL
#define MAXL 8
#endif
static const enum eassembler_type areas[3] = {esendbufp, erecvbufp, eshmemo};
static struct exp { int op, sub; void *p1, *p2; int i1, i2; } ex[MAXL + 1];
static int nex, sizes[] = {1, 8, 8, 4, 4}, ranks[8], nseg, nopseg;
static char *sendb, *recvb, *locm, *segs[4], **shm;
static char *addr(int area, int seg, int off) { return area == 0 ? sendb + off : area == 1 ? recvb + off : shm ? shm[seg] + off : (char *)0 + off; }
#define OFFS(n) (int)vh_int(n, 0, 1 << 20)
static int draw_op(char *out, int ascii, int cores, int redop, int reqsize) {
  struct line_irecv_isend m; struct line_memcpy_reduce c; int k = (int)vh_int("kind", 0, 12), x = (int)vh_int("number", 0, 5), y, a, b, n;
  memset(&m, 0, sizeof(m)); memset(&c, 0, sizeof(c));
  struct exp *e = &ex[nex];
  memset(e, 0, sizeof(*e));
  switch (k) {
  case 0: n = ext_mpi_write_assembler_line(out, ascii, "s", enode_barrier); e->op = OPCODE_NODEBARRIER; nex++; return n;
  case 1: n = ext_mpi_write_assembler_line(out, ascii, "s", esocket_barrier); e->op = OPCODE_SOCKETBARRIER; nex += cores != 1; return n;
  case 2: n = ext_mpi_write_assembler_line(out, ascii, "sd", eset_socket_barrier, x); e->op = OPCODE_SOCKETBARRIER_ATOMIC_SET; e->i1 = x; nex += cores != 1; return n;
  case 3: n = ext_mpi_write_assembler_line(out, ascii, "sd", ewait_socket_barrier, x); e->op = OPCODE_SOCKETBARRIER_ATOMIC_WAIT; e->i1 = x; nex += cores != 1; return n;
  case 4: n = ext_mpi_write_assembler_line(out, ascii, "sdsd", ewaitall, x, elocmemp, OFFS("locmem")); e->op = OPCODE_MPIWAITALL; e->i1 = x; e->p1 = locm; nex += x != 0; return n;
  case 5: y = (int)vh_int("reductions", 0, 9); n = ext_mpi_write_assembler_line(out, ascii, "sddsd", ewaitany, x, y, elocmemp, OFFS("locmem")); e->op = OPCODE_MPIWAITANY; e->i1 = x; e->i2 = y; e->p1 = locm; nex++; return n;
  case 6: n = ext_mpi_write_assembler_line(out, ascii, "s", eattached); e->op = OPCODE_ATTACHED; nex++; return n;
  case 7: case 8: { static const enum eassembler_type t[4] = {eisend, eirecv, eisen_, eirec_};
    m.type = t[(k - 7) + 2 * (int)vh_int("disabled", 0, 1)]; a = (int)vh_int("area", 0, 2); m.buffer_type = areas[a];
    if (a == 2) m.buffer_number = (int)vh_int("segment", 0, nseg - 1);
    m.offset = OFFS("offset"); m.size = (int)vh_int("size", 0, INT_MAX); m.partner = (int)vh_int("partner", 0, 7); m.tag = (int)vh_int("tag", 0, 15);
    n = ext_mpi_write_irecv_isend(out, &m, ascii);
    e->op = m.type == eisend ? OPCODE_MPIISEND : OPCODE_MPIIRECV; e->p1 = addr(a, m.buffer_number, m.offset); e->i1 = m.size; e->i2 = ranks[m.partner]; e->p2 = locm + reqsize * m.tag;
    nex += m.type == eisend || m.type == eirecv; return n; }
  case 9: case 10: { static const enum eassembler_type t[8] = {ememcpy, esmemcpy, ereduce, esreduce, ememcp_, esmemcp_, ereduc_, esreduc_};
    int w = (int)vh_int("form", 0, 7);
    c.type = t[w]; a = (int)vh_int("area1", 0, 2); b = (int)vh_int("area2", 0, 2);
    c.buffer_type1 = areas[a]; c.buffer_type2 = areas[b];
    if (a == 2) c.buffer_number1 = (int)vh_int("segment1", 0, nseg - 1);
    if (b == 2) c.buffer_number2 = (int)vh_int("segment2", 0, nseg - 1);
    c.offset1 = OFFS("offset1"); c.offset2 = OFFS("offset2");
    y = (int)vh_int("elements", 0, 1 << 26); c.size = y * sizes[redop];
    n = ext_mpi_write_memcpy_reduce(out, &c, ascii);
    e->op = w < 2 ? OPCODE_MEMCPY : OPCODE_REDUCE; e->sub = redop; e->p1 = addr(a, c.buffer_number1, c.offset1); e->p2 = addr(b, c.buffer_number2, c.offset2); e->i1 = w < 2 ? c.size : y;
    nex += w < 4; return n; }
  case 11: return ext_mpi_write_assembler_line(out, ascii, "sd", estage, x);
  default: return ext_mpi_write_assembler_line(out, ascii, "s", enop);
  }
}
static void h_gen(void) {
  struct parameters_block *p = malloc(sizeof(*p));
  static char prog[1 << 16];
  char *q = prog, *code, *ip, comm1[16], comm2[16];
  int i, n, size, reqsize = (int)vh_int("request size", 1, 16), redop = (int)vh_int("reduction", 0, 4), haveseg = (int)vh_int("have segments", 0, 1), shared = (int)vh_int("shared buffer", 0, 1 << 16), bars = (int)vh_int("barriers", 0, 4096),
      nrow = (int)vh_int("row cores", 1, 9), ncol = (int)vh_int("column cores", 1, 9), tag = (int)vh_int("message tag", 0, 30000), csize = (int)vh_int("communicator size", 1, 16), hcol = (int)vh_int("has column", 0, 1), hrow = (int)vh_int("has row", 0, 1), lines = (int)vh_int("lines", 0, MAXL), ascii = (int)vh_int("ascii", 0, 1), ids[4], gpu = 7;
  memset(p, 0, sizeof(*p));
  p->collective_type = collective_type_allreduce; p->socket_row_size = (int)vh_int("row", 1, 3); p->socket_column_size = (int)vh_int("column", 1, 3); p->socket_rank = (int)vh_int("socket rank", 0, 8); p->num_sockets_per_node = (int)vh_int("sockets", 1, 3);
  p->ascii_out = ascii; p->locmem_max = p->shmem_max = -1; p->root = -1; p->num_sockets = 1;
  nseg = p->num_sockets_per_node;
  sendb = (char *)0x100000000L; recvb = (char *)0x200000000L; locm = (char *)0x300000000L;
  for (i = 0; i < 4; i++) segs[i] = (char *)0x400000000L + 0x100000000L * i;
  for (i = 0; i < 8; i++) ranks[i] = (int)vh_bits("rank", 0, 1 << 20);
  for (i = 0; i < 16; i++) comm1[i] = 'a' + i, comm2[i] = 'A' + i;
  shm = haveseg ? segs : NULL;
  nex = 0;
  n = ext_mpi_write_parameters(p, q); q += n;
  for (i = 0; i < lines; i++) q += draw_op(q, ascii, p->socket_row_size * p->socket_column_size, redop, reqsize);
  q += ext_mpi_write_assembler_line(q, ascii, "s", ereturn);
  ext_mpi_write_eof(q, ascii);
  memset(&ex[nex], 0, sizeof(ex[0])); ex[nex++].op = OPCODE_RETURN;
  size = ext_mpi_generate_byte_code(shm, 12345, ids, prog, sendb, recvb, shared, bars, locm, redop, ranks, NULL, csize, reqsize, hrow ? comm1 : NULL, nrow, hcol ? comm2 : NULL, ncol, NULL, NULL, &gpu, tag);
  VH_CHECK(size > 0, "a size is returned");
  code = malloc(size);     /* exactly that size: writing more is caught */
  memset(code, 0x55, size);
  n = ext_mpi_generate_byte_code(shm, 12345, ids, prog, sendb, recvb, shared, bars, locm, redop, ranks, code, csize, reqsize, hrow ? comm1 : NULL, nrow, hcol ? comm2 : NULL, ncol, NULL, NULL, &gpu, tag);
  VH_CHECK(n == size, "the size announced is the size written");
  struct header_byte_code *h = (struct header_byte_code *)code;
  VH_CHECK(h->barrier_counter_socket == 1 && h->barrier_counter_node == 1, "barrier counters start behind the value of fresh memory");
  VH_CHECK(h->locmem == locm && h->shmem == shm && h->shmemid == ids, "header: memory");
  VH_CHECK(h->node_num_cores_row == nrow && h->node_num_cores_column == ncol && h->num_cores == p->socket_row_size * p->socket_column_size && h->socket_rank == p->socket_rank && h->num_sockets_per_node == p->num_sockets_per_node, "header: topology");
  VH_CHECK(h->tag == tag && h->barrier_shmem_size == bars, "header: tag and barrier size");
  if (shm) {
    VH_CHECK(h->barrier_shmem_socket == segs[0] + shared, "header: the barriers lie behind the data of the own segment");
    for (i = 0; i < nseg; i++) VH_CHECK(h->barrier_shmem_node[i] == segs[i] + shared + 2 * bars, "header: the node barriers lie behind the socket barriers and signals of every segment");
    free(h->barrier_shmem_node);
  } else VH_CHECK(!h->barrier_shmem_socket && !h->barrier_shmem_node, "header: no barriers without segments");
  ip = code + sizeof(*h);
  for (i = 0; i < nex; i++) {
    struct exp *e = &ex[i];
    int op;
    VH_CHECK(ip < code + h->size_to_return, "no instruction is missing");
    op = code_get_char(&ip);
    VH_CHECK(op == e->op, "instructions are those of the program, in order");
    switch (op) {
    case OPCODE_REDUCE: VH_CHECK(code_get_char(&ip) == e->sub, "reduction: type"); /* fall through */
    case OPCODE_MEMCPY: VH_CHECK(code_get_pointer(&ip) == e->p1, "copy or reduction: first operand"); VH_CHECK(code_get_pointer(&ip) == e->p2, "copy or reduction: second operand"); VH_CHECK(code_get_int(&ip) == e->i1, "copy or reduction: amount"); break;
    case OPCODE_MPIISEND: case OPCODE_MPIIRECV: VH_CHECK(code_get_pointer(&ip) == e->p1, "message: buffer"); VH_CHECK(code_get_int(&ip) == e->i1, "message: size"); VH_CHECK(code_get_int(&ip) == e->i2, "message: partner"); VH_CHECK(code_get_pointer(&ip) == e->p2, "message: request"); break;
    case OPCODE_MPIWAITALL: VH_CHECK(code_get_int(&ip) == e->i1, "wait: number"); VH_CHECK(code_get_pointer(&ip) == e->p1, "wait: requests"); break;
    case OPCODE_MPIWAITANY: VH_CHECK(code_get_int(&ip) == e->i1, "wait any: number"); VH_CHECK(code_get_int(&ip) == e->i2, "wait any: reductions"); VH_CHECK(code_get_pointer(&ip) == e->p1, "wait any: requests"); break;
    case OPCODE_SOCKETBARRIER_ATOMIC_SET: case OPCODE_SOCKETBARRIER_ATOMIC_WAIT: VH_CHECK(code_get_int(&ip) == e->i1, "signal: number"); break;
    }
  }
  VH_CHECK(ip == code + h->size_to_return, "the instructions end where the header says");
  for (i = 0; i < csize; i++) { VH_CHECK(ip[i] == (hrow ? comm1[i] : 0), "row communicator"); VH_CHECK(ip[csize + i] == (hcol ? comm2[i] : 0), "column communicator"); }
  VH_CHECK(ip + 2 * csize == code + size, "nothing follows");
  free(code); ext_mpi_delete_parameters(p);
}
VH_MAIN(ENTRY)
