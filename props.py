from runner import Vcg, Cbmc, Native, Script
import e2e
PROPS = {}

def _hash_native(tag, d):
    return [Native('hash%s-small' % tag, 'hash.c', defs=['SMALL'] + d, modes=[('exhaustive', 20, 60)], bound='all operation sequences of length <= 5 over 3 keys', functions=['hash table operations']),
            Native('hash%s-long' % tag, 'hash.c', defs=d, modes=[('random', 20, 300)], bound='random histories, <= 2500 operations over <= 1000 keys', functions=['hash table operations'])]

PROPS['C02'] = ([Cbmc('hashcode', 'hash_code.c', 'h_hash_code', unwind=9, functions=['hashCode']),
                 Cbmc('hashcode-blocking', 'hash_code.c', 'h_hash_code', unwind=9, defs=['BLOCKING'], functions=['hashCode']), Vcg('hash', 'hash')] + _hash_native('', []) + _hash_native('-blocking', ['BLOCKING']), {})

_IF = ['MPI_*_init (persistent)']
_w = ['waitall', 'waitany', 'waitsome', 'testall', 'testany', 'testsome', 'startall']
PROPS['C04'] = ([Vcg('requests', 'interface')] +
                [Cbmc('interface-' + f, 'interface.c', 'h_' + f, unwind=16, defs=["NEV=8"], unwindset=["add_comm_to_blocking.0:102", "h_comm.0:102", "strcmp.0:24"], mpi='real', functions=fn, kind=kd, bound=bd)
                 for f, fn, kd, bd in (('init', ['MPI_Allreduce_init', 'MPI_Allgatherv_init', 'MPI_Reduce_scatter_init', 'MPI_Bcast_init', 'MPI_Reduce_init', 'MPI_Gatherv_init', 'MPI_Scatterv_init'], 'proof', None),
                                       ('single', ['MPI_Start', 'MPI_Wait', 'MPI_Test', 'MPI_Request_free'], 'proof', None),
                                       ('uniform', ['MPI_Allgather_init', 'MPI_Gather_init', 'MPI_Scatter_init', 'MPI_Reduce_scatter_block_init'], 'bounded', 'communicators of at most 4 ranks (the count and displacement arrays are proved for every size by unit requests)'),
                                       ('blocking', ['MPI_Allreduce', 'MPI_Reduce_scatter_block', 'MPI_Allgather'], 'proof', None),
                                       ('comm', ['MPI_Comm_dup', 'MPI_Comm_create', 'MPI_Comm_split', 'MPI_Comm_split_type', 'MPI_Comm_free', 'add_comm_to_blocking', 'remove_comm_from_blocking'], 'bounded', 'at most 4 of the 100 slots in use'))] +
                [Native('interface-' + n, 'interface.c', modes=[('exhaustive', 4, 40), ('random', 2, 30)], defs=['ENTRY=h_' + e] + d, bound='lists of at most 3 requests, every split into accelerated and plain, every sequence of test results of length <= 5; scalars drawn at random',
                        functions=[n]) for n, e, d in [(w, 'many', ['WHICH=%d' % i]) for i, w in enumerate(_w)] + [('init', 'init', []), ('uniform', 'uniform', []), ('single', 'single', []), ('blocking', 'blocking', []), ('comm', 'comm', []), ('inactive', 'inactive', [])]],
                {'assumptions': ['specs/interface.py: the contracts of EXT_MPI_*, PMPI_*, MPI_Recv_init and ext_mpi_hash_search seen by the MPI layer are assumed (the last is C02)']})

PROPS['C03'] = ([Vcg('handles', 'handles'),
                 Native('handles', 'handles.c', modes=[('random', 12, 120)], defs=['ENTRY=h_handles'], link=['-Wl,--unresolved-symbols=ignore-all'], bound='4 simulated ranks, up to 190 requests over random subsets of them, up to 60 operations',
                        functions=['get_handle', 'init_epilogue', 'EXT_MPI_Start_native', 'EXT_MPI_Test_native', 'EXT_MPI_Wait_native', 'EXT_MPI_Progress_native', 'EXT_MPI_Done_native'])],
                {'assumptions': ['specs/handles.py: ext_mpi_exec_native runs to the end when it may wait and only moves its own execution pointer (C05); MPI_Allreduce returns the maximum; malloc succeeds; parameter blocks hold sizes below 2^28',
                                 'a request is released with its own memory not shared with another (precondition of EXT_MPI_Done_native); the error exits after a failed allocation are not reached']})

_EX = ['ext_mpi_exec_native', 'exec_waitany', 'reduce_waitany', 'ext_mpi_exec_blocking', 'ext_mpi_normalize_blocking', 'ext_mpi_exec_padding']
_ptr = ['--no-pointer-check']
PROPS['C05'] = ([Vcg('executor', 'execute'),
                 Cbmc('operands', 'exec_addr.c', 'h_code', unwind=5, mpi='real', functions=['code_put_char', 'code_put_int', 'code_put_pointer', 'code_get_char', 'code_get_int', 'code_get_pointer']),
                 Cbmc('recalculate', 'exec_addr.c', 'h_recalc', unwind=5, mpi='real', flags=_ptr + ['--no-signed-overflow-check', '--z3'], functions=['recalculate_address_io']),
                 Cbmc('padding-address', 'exec_addr.c', 'h_paddr', unwind=5, mpi='real', flags=_ptr, functions=['exec_padding_address']),
                 Cbmc('normalize-address', 'exec_addr.c', 'h_normadr', unwind=5, mpi='real', flags=_ptr, defs=['BO=4095', 'BC=31'], kind='bounded', bound='offsets below 4096, units up to 31 (bit-precise division does not scale further)', functions=['normalize_address'])] +
                [Native('exec-' + n, 'exec.c', modes=[('random', q, 60)] + ([('exhaustive', 6, 60)] if n == 'waitany' else []), defs=['ENTRY=h_' + n] + d, functions=f, bound=b) for n, q, d, f, b in (
                    ('native', 12, ['MAXI=6'], _EX[:1], 'programs of up to 6 instructions, up to 2 unfinished polls per wait'), ('waitany', 4, [], _EX[1:3], 'up to 4 requests, every completion order, up to 3 elements'),
                    ('blocking', 8, ['MAXI=6'], _EX[3:4], 'programs of up to 6 instructions'), ('normalize', 4, ['MAXI=6'], _EX[4:5], 'programs of up to 6 instructions'), ('padding', 3, ['MAXI=6'], _EX[5:], 'programs of up to 6 instructions'))] +
                [Native('addr-' + n, 'exec_addr.c', modes=[('random', 3, 20)], defs=['ENTRY=h_' + n], cflags=['-fno-sanitize=pointer-overflow'], functions=[n], bound='random') for n in ('normadr', 'recalc', 'paddr', 'code')],
                {'assumptions': ['specs/execute.py: the data areas of a reduction are equal or disjoint and belong to the caller; int and long sums do not overflow; memcpy and the MPI calls have their documented effect (logged)',
                                 'the program handed to an executor is well formed (the byte code writer, C07)']})
PROPS['C06'] = ([Vcg('barriers', 'barrier'),
                 Native('slots', 'barrier.c', cflags=['-O2', '-fno-sanitize=signed-integer-overflow'], modes=[('exhaustive', 25, 60), ('random', 5, 30)], defs=['ENTRY=h_slots'], functions=['socket_barrier', 'node_barrier', 'socket_barrier_test', 'node_barrier_test'], bound='up to 16 ranks, every arrival state of the others'),
                 Native('signals', 'barrier.c', cflags=['-O2', '-fno-sanitize=signed-integer-overflow'], modes=[('exhaustive', 5, 5)], defs=['ENTRY=h_signal'], functions=['socket_barrier_atomic_set', 'socket_barrier_atomic_wait', 'socket_barrier_atomic_test'], bound='17 entries'),
                 Native('threads', 'barrier.c', cflags=['-O2', '-fno-sanitize=signed-integer-overflow'], modes=[('exhaustive', 25, 60)], defs=['ENTRY=h_threads'], link=['-pthread'], functions=['socket_barrier', 'node_barrier'], bound='up to 8 ranks as threads, each late once')],
                {'assumptions': ['specs/barrier.py: other ranks only write their own slots, and stay within 2^31 of this rank\'s counter (the lemmas); segments of different sockets and the counter do not overlap; termination of the waiting loops is not proved']})

PROPS['C01'] = ([Script('end-to-end', e2e.run, replay=e2e.replay, functions=['EXT_MPI_*_init', 'the whole pipeline', 'EXT_MPI_Start', 'EXT_MPI_Wait', 'EXT_MPI_Test', 'EXT_MPI_Progress', 'EXT_MPI_Done'],
                        bound='2 to 8 ranks, random communicators, collectives, counts up to 5000, topologies and schedules (fixed seeds); the classes recorded as findings are left out')],
                {'level': 'exploration', 'assumptions': ['the collectives of the MPI library are the oracle', 'sums of small integers, exact in every data type']})

_f8 = {'msg': ['ext_mpi_write_irecv_isend', 'ext_mpi_read_irecv_isend'], 'cpy': ['ext_mpi_write_memcpy_reduce', 'ext_mpi_read_memcpy_reduce'],
       'word': ['ext_mpi_write_assembler_line', 'ext_mpi_read_assembler_line', 'ext_mpi_read_line']}
PROPS['C07'] = ([Vcg('bytecode', 'bytecode'),
                 Native('generate', 'bytecode.c', modes=[('random', 10, 90)], defs=['ENTRY=h_gen'], cflags=['-fno-sanitize=pointer-overflow'], functions=['ext_mpi_generate_byte_code'], bound='programs of up to 8 lines')],
                {'assumptions': ['code_put_char/int/pointer append exactly their operand (proved in C05), line readers deliver what was written (C08)',
                                 'lines are well formed: segments, partners and buffers exist, data addresses stay inside the address space, programs are shorter than 1 GB']})
PROPS['C08'] = ([Cbmc('line-' + n, 'format.c', 'h_' + n, unwind=16, mpi='real', functions=f) for n, f in _f8.items()] +
                [Native('format-' + n, 'format.c', modes=[('random', 4, 40)], defs=['ENTRY=h_' + n], functions=f, bound='random lines') for n, f in _f8.items()] +
                [Native('format-%s%s' % (n, t), 'format.c', modes=[('random', 5, 60)], defs=['ENTRY=h_' + n] + d, functions=f, standin=True, bound=b) for n, f in (
                    ('alg', ['ext_mpi_write_algorithm', 'ext_mpi_read_algorithm', 'ext_mpi_read_stage_line']), ('par', ['ext_mpi_write_parameters', 'ext_mpi_read_parameters']),
                    ('prog', ['ext_mpi_write_line', 'ext_mpi_read_line', 'ext_mpi_write_eof']), ('text', ['ext_mpi_write_line', 'ext_mpi_write_assembler_line']),
                    ('ports', ['ext_mpi_print_ports_groups', 'ext_mpi_scan_ports_groups']), ('copyin', ['ext_mpi_print_copyin', 'ext_mpi_scan_copyin']))
                 for t, d, b in (('', [], 'binary and text form; up to 3 entries per list, any values'), ('-long', ['NL=20'], 'binary and text form; up to 20 entries per list, any values')) if n in ('alg', 'par', 'ports', 'prog') or not d],
                {'assumptions': ['harness/format.c hands va_start the last parameter under CBMC (the code names a local variable; compilers ignore that operand)', 'text form: formatted printing and scanning of the C library are used as they are']})

import sim
_pn = lambda e, n, f, st, q=12: Native(n, 'passes.c', modes=[('random', q, 90)], defs=['ENTRY=h_' + e], functions=f, standin=st, bound='random programs of up to 8 lines')
_pa = ['specs/passes.py: the program is a sequence of well-formed lines, readers deliver what was written (C08), programs are shorter than 1 GB']
PROPS['C09'] = ([Vcg('sharing', 'passes', only=['ext_mpi_generate_parallel_memcpy']), _pn('par', 'all-tasks', ['ext_mpi_generate_parallel_memcpy'], False, 15)],
                {'assumptions': _pa + ['sizes are multiples of the element, buffers smaller than 1 GB; all tasks of a node are given the same shared lines', 'products and quotients of variables are uninterpreted in the obligations; the facts used about them are lemmas over true arithmetic']})
PROPS['C10'] = ([Vcg('barrier-passes', 'passes', only=['ext_mpi_clean_barriers', 'ext_mpi_generate_no_first_barrier', 'ext_mpi_generate_no_socket_barriers']),
                 _pn('keep', 'barrier-passes', ['ext_mpi_clean_barriers', 'ext_mpi_generate_no_first_barrier', 'ext_mpi_generate_no_socket_barriers', 'ext_mpi_generate_dummy'], False, 8),
                 Script('simulated-ranks', sim.run, replay=sim.replay, functions=['EXT_MPI_*_init', 'the whole pipeline', 'ext_mpi_exec_native', 'socket_barrier', 'node_barrier'],
                        bound='2 to 24 ranks as fibers of one process, random configurations and schedules (fixed seeds); the classes recorded as findings of C01 are left out')],
                {'level': 'other', 'assumptions': _pa + ['PMPI_Allreduce joins the votes of the ranks of the socket by their minimum; every rank votes 0 or 1',
                                 'simulated ranks: memory is sequentially consistent and a rank is interrupted at calls of the MPI library, barriers and between instructions']})
PROPS['C11'] = ([Vcg('rewriting', 'passes', only=['ext_mpi_generate_dummy', 'ext_mpi_generate_no_offset', 'ext_mpi_generate_buffer_offset', 'ext_mpi_generate_raw_code_merge']),
                 _pn('offset', 'places', ['ext_mpi_generate_buffer_offset', 'ext_mpi_generate_no_offset'], False), _pn('merge', 'joining', ['ext_mpi_generate_raw_code_merge'], False), _pn('keep', 'copying', ['ext_mpi_generate_dummy'], False, 4)],
                {'assumptions': _pa + ['places stay below 2 GB, joined copies name places and sizes below 1 GB; ereduce lines of the disabled short form do not occur (no pass generates them)']})
