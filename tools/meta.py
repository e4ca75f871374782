NOTES = ''
TECH = 'contract-based deductive verification: contracts and loop invariants on the real C code, obligations discharged by z3/cvc5 (vcg) and CBMC'


def prop(id, title, statement, over, text, why, files, mechanism, technique=TECH, note='', na=None, level='proof', state=(), observe=()):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}, 'technique': technique, 'note': note, 'level': level}
    if state:
        d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    if observe:
        d['anchors']['observe_at'] = list(observe)
    if na:
        d['na'] = na
    P.append(d)


P = []
prop('C01', 'Every accelerated collective gives the result of the MPI collective',
     'For every persistent collective the library accelerates, every rank ends up with exactly the data the MPI standard defines (equal to the MPI library\'s own collective; send buffers, the gaps and everything behind the receive buffer untouched), whatever the communicator, number of ranks per node, counts, datatype, operation, root, '
     'in-place argument and whatever schedule, copy-in method or segmentation the library or the user chose; it keeps doing so every time the request is started, and with several requests in flight.',
     ['inputs', 'configurations', 'histories'], 'every communicator, rank-to-node layout, collective, count, datatype, operation, root, schedule and number of restarts',
     'the tests check the text passes on a few recorded inputs and run the library for a handful of node counts with default schedules',
     ['src/mpi/ext_mpi_native.c', 'src/mpi/ext_mpi.c', 'src/core/alltoall.c', 'src/core/reduce_copyin.c', 'src/core/reduce_copyout.c', 'src/core/buffer_offset.c', 'src/core/rank_permutation.c', 'src/core/backward_interpreter.c', 'src/core/optimise_buffers.c'],
     [('the whole pipeline from the call to the byte code', 'src/mpi/ext_mpi_native.c:init_epilogue'), ('choice of the schedule', 'src/mpi/ext_mpi.c:allreduce_init_general')],
     technique='bounded stand-in for contracts the verifiers cannot reach (composition of 60 text-rewriting passes): differential end-to-end runs of the real library under mpirun against the MPI library',
     note='bounded exploration, nothing proved: fixed pseudo-random configurations on 2 to 8 ranks; the obligations of single stages are proved under the other properties', level='exploration')
prop('C02', 'A request or communicator always finds its own accelerated handle',
     'Once an MPI request (or communicator) has been registered with an accelerated handle, every later lookup returns exactly that handle until it is removed, and a lookup of anything not registered reports absence. '
     'Registering or removing one object never changes what any other object maps to, for any number of live objects and any order of operations, and every operation terminates.',
     ['histories', 'inputs'], 'every history of register / look up / remove over any set of handles, including colliding ones and more live ones than the initial table size',
     'the pipeline tests create a handful of requests in one process; collisions, deletions in the middle of a probe sequence and more than 256 live objects never occur',
     ['src/mpi/hash_table.c', 'src/mpi/hash_table_blocking.c', 'src/mpi/ext_mpi_interface.c'],
     [('open addressing with tombstones, bounded probing and growth', 'src/mpi/hash_table.c'), ('the same for communicators', 'src/mpi/hash_table_blocking.c')],
     note='every function of both tables under contract, all obligations discharged without bound (functional correctness, memory safety, termination); assumes malloc does not fail and a single thread')
prop('C03', 'Requests in flight do not disturb one another',
     'Any number of prepared requests live side by side: preparing, starting, testing, waiting for, progressing and releasing one never changes the program, the place of execution or the waiting mode of another, also when the table grows; a new request never gets a handle in use, a released handle becomes free and its memory is released once. '
     'Start selects the alternate program in turn, wait finishes the request, test tells exactly whether it finished, progress advances every running request once. Every process of a request uses the same message tag, and two requests that share a process never use the same one.',
     ['inputs', 'histories'], 'every number of requests, every order of operations on them, every overlap of their communicators',
     'the tests keep one or two requests at a time; a table that grows, handles reused in another order, or communicators that overlap partly never occur',
     ['src/mpi/ext_mpi_native.c'],
     [('table', 'src/mpi/ext_mpi_native.c:get_handle'), ('start', 'src/mpi/ext_mpi_native.c:EXT_MPI_Start_native'), ('release', 'src/mpi/ext_mpi_native.c:EXT_MPI_Done_native'), ('tags', 'src/mpi/ext_mpi_native.c:init_epilogue'), ('progress', 'src/mpi/ext_mpi_native.c:EXT_MPI_Progress_native')],
     note='every function that touches the table of handles is proved by vcg over an invariant of the table; that tags differ is a lemma over the contract of init_epilogue; histories over four simulated ranks find the failing input')

prop('C04', 'The MPI calls behave the same whether or not a request is accelerated',
     'Every intercepted MPI call does for a mix of accelerated and ordinary requests what MPI prescribes: an accelerated request is started, progressed, completed and freed exactly once through its own handle and never reaches the MPI library as an ordinary one, '
     'an ordinary request reaches the MPI library unchanged, and the flag, index, count, status and return values are those MPI defines for the whole list. '
     'The persistent-collective initialisers pass the user\'s buffers, counts, displacements, datatype, operation, root and communicator on unchanged, hand back a request registered with the new handle, and fall back to the MPI library exactly when no accelerated version exists; '
     'in blocking mode a collective runs accelerated on the communicators held and falls back on all others.',
     ['inputs', 'histories'], 'every list of requests, every split of it into accelerated and ordinary ones, every result of the MPI library and of the accelerated handles',
     'the tests call the EXT_MPI layer directly or wait for single requests; mixed lists, partial completion, ignored statuses and failures of the accelerated initialiser never occur in them',
     ['src/mpi/ext_mpi_interface.c'],
     [('request lists: Waitall, Waitany, Waitsome, Testall, Testany, Testsome, Startall', 'src/mpi/ext_mpi_interface.c'), ('persistent initialisers', 'src/mpi/ext_mpi_interface.c:MPI_*_init'),
      ('communicators held in blocking mode', 'src/mpi/ext_mpi_interface.c:add_comm_to_blocking')],
     note='request-list functions and the uniform initialisers proved for lists and communicators of any size (vcg); single-request and initialiser functions proved by CBMC without loops; the table of blocking communicators is bounded at 4 used slots; contracts of the MPI library and of EXT_MPI_* are assumed here')

prop('C05', 'Compiled byte code is executed exactly as written, at any interruption',
     'Executing a compiled program performs the effects of its instructions in order and nothing else: each copy, message, signal, barrier and reduction has exactly the operands stored for it, whatever instructions came before, for programs of any length. '
     'In non-blocking mode an executor that cannot pass a wait or a barrier stops at that very instruction with none of its effects done, is resumed there, and passes it exactly when the condition holds, so the overall effects do not depend on how often it was interrupted; it never blocks unless it was asked to. '
     'Reductions attached to messages run once per message, after it has arrived, and never into a buffer still being sent. '
     'The blocking executor maps every normalised address to its place in the buffers of the call and clips every piece, at sender and receiver alike, to the size of the user\'s buffers.',
     ['inputs', 'schedules', 'histories'], 'every well-formed program, every sequence of completion results, every completion order of the requests of a wait-any',
     'the tests run the programs the generator happens to emit, almost always in blocking mode and on one host where messages complete at once',
     ['src/mpi/ext_mpi_native_exec.c', 'include/core/constants.h'],
     [('interpreter loop and pause points', 'src/mpi/ext_mpi_native_exec.c:ext_mpi_exec_native'), ('wait-any reductions', 'src/mpi/ext_mpi_native_exec.c:exec_waitany'), ('blocking interpreter', 'src/mpi/ext_mpi_native_exec.c:ext_mpi_exec_blocking'),
      ('addresses', 'src/mpi/ext_mpi_native_exec.c:recalculate_address_io'), ('operand encoding', 'include/core/constants.h:code_put_int')],
     note='both interpreters proved for programs of any length (vcg), operand encoding and address recalculation by CBMC; exec_waitany, normalisation and the list of padding numbers are bounded')
prop('C06', 'Nobody leaves a barrier before everybody has entered it',
     'A socket or node barrier lets a rank pass only after every participating rank has entered the same barrier, for any number of ranks and any number of barriers one after the other; its non-blocking test passes exactly when the blocking form would not wait, and changes no counter. '
     'A signal waited for is passed exactly after it was set. Only the own slot is ever written, and slots keep their order when counters wrap around.',
     ['schedules', 'inputs'], 'every number of ranks, every rank, every interleaving of the slots of the other ranks, every counter value',
     'a missing or misplaced wait shows only under a particular interleaving of the ranks',
     ['src/mpi/ext_mpi_native_exec.c'],
     [('dissemination over slots in shared memory', 'src/mpi/ext_mpi_native_exec.c:socket_barrier'), ('node barrier over segments', 'src/mpi/ext_mpi_native_exec.c:node_barrier'), ('signals', 'src/mpi/ext_mpi_native_exec.c:socket_barrier_atomic_wait')],
     note='all seven barrier functions proved with volatile memory under a rely condition on the other ranks; the dissemination argument is a proved lemma; bounded thread runs beside it')

prop('C07', 'The byte code executes exactly the schedule it was generated from',
     'The byte-code generator turns every line of a finished schedule into exactly one instruction with the same meaning: the same order, the right opcode, data addresses resolved to the very place the line names (user buffers, or the segment of the right process plus the offset), sizes and tags scaled as executed, partners mapped to global ranks, '
     'the reduction of the datatype and operation asked for, and nothing is emitted for lines without effect. The header describes memory, barriers and topology of this communicator, barrier flags lie behind the data and behind one another, the communicators follow the program, and the dry run (no output) computes exactly the length of the real run.',
     ['inputs'], 'every schedule, every kind of line, every operand, every process of every topology',
     'the tests execute a handful of schedules; offsets into segments of other processes, rare datatypes, persistent and attached lines and the dry run appear only for certain topologies',
     ['src/core/byte_code.c'],
     [('generator', 'src/core/byte_code.c:ext_mpi_generate_byte_code'), ('append', 'src/core/byte_code.c:code_put_pointer')],
     note='ext_mpi_generate_byte_code is proved by vcg separately for each kind of the current line (14 kinds and all others together); differential decoding of generated programs finds the failing input')
prop('C08', 'What one pass writes is exactly what the next pass reads',
     'Every line of an algorithm in preparation is read back by the next pass with the same meaning it was written with: the kind of the line, the buffers, segments, offsets, sizes, partners and tags of every form a line can take, for every value, '
     'and no line is taken for one of another kind. Parameters and algorithms are read back unchanged, reading consumes exactly what writing produced and stops at the end, and the text form (which users write, and debugging prints) means the same as the binary form, including lists of ports, groups and copy-in factors.',
     ['inputs'], 'every line, parameter block and algorithm, every operand value, both forms',
     'the tests feed recorded text through single passes; the binary form, negative and large operands, rare forms of a line and the hand-over between passes are sampled by a handful of algorithms',
     ['src/core/read_write.c', 'src/core/ports_groups.c'],
     [('lines', 'src/core/read_write.c:ext_mpi_write_assembler_line'), ('message lines', 'src/core/read_write.c:ext_mpi_read_irecv_isend'), ('copy lines', 'src/core/read_write.c:ext_mpi_read_memcpy_reduce'),
      ('parameters', 'src/core/read_write.c:ext_mpi_read_parameters'), ('ports and copy-in as text', 'src/core/ports_groups.c')],
     note='binary lines: every form and every operand value proved by CBMC (contracts of the write/read pairs, all loops unrolled completely); parameters, algorithms and the text form are bounded (lists of at most 20 entries)')
prop('C09', 'Shared work is done completely and once',
     'When copies and reductions inside the shared memory of a node are dealt out to its tasks, the pieces of all tasks together are exactly the work of the line: nothing is left out, no element is copied or reduced by two tasks, '
     'all pieces keep source and destination aligned, every task does the same part of steps that follow one another on the same data, and nothing else in the program changes. This holds for every number of tasks, every size (also with fewer elements than tasks), every datatype and every program.',
     ['inputs'], 'every program, every number of tasks of a node, every task, every size and datatype',
     'the tests compare recorded outputs for a few sizes and one or two tasks; a part done twice only shows in reductions, with uneven sizes and particular neighbouring lines',
     ['src/core/parallel_memcpy.c'],
     [('the cut', 'src/core/parallel_memcpy.c:ext_mpi_generate_parallel_memcpy'), ('largest piece up to the next barrier', 'src/core/parallel_memcpy.c:ext_mpi_generate_parallel_memcpy (inner loop)')],
     note='ext_mpi_generate_parallel_memcpy is proved by vcg for each datatype, programs of any length and any task: the cut is a function of the program alone, the piece is [start(r), start(r+1)); that these are disjoint and cover the work are lemmas; a native run over all tasks of a node finds the failing input')
prop('C10', 'The outcome does not depend on which process is faster',
     'However the processes of a communicator are scheduled, however late messages arrive, and whatever the receive buffers hold before a collective, every process of a node sees the shared data of the others only after they were written, and no process overwrites data another still needs: the collective gives the right result under every interleaving, run after run. '
     'In particular the passes that remove barriers only remove those that order nothing: a barrier goes only when no process of the socket did anything since the last one, all processes decide alike, and the first barrier or all socket barriers go only where a single task makes them pointless.',
     ['schedules', 'inputs', 'configurations'], 'every interleaving of the processes and every delay of messages, for every collective, layout and schedule',
     'a missing barrier almost never shows when the processes really run at the same speed; the tests run on one host with few processes',
     ['src/mpi/clean_barriers.c', 'src/core/no_first_barrier.c', 'src/core/no_socket_barriers.c', 'src/core/reduce_copyin.c', 'src/core/reduce_copyout.c', 'src/core/raw_code.c', 'src/core/raw_code_tasks_node.c', 'src/core/raw_code_tasks_node_master.c', 'src/mpi/ext_mpi_native_exec.c'],
     [('votes on barriers', 'src/mpi/clean_barriers.c:ext_mpi_clean_barriers'), ('barriers around the copy in', 'src/core/reduce_copyin.c:ext_mpi_generate_reduce_copyin'), ('execution', 'src/mpi/ext_mpi_native_exec.c:ext_mpi_exec_native')],
     technique='contracts of the barrier-removing passes discharged by vcg (z3/cvc5); bounded stand-in for the composed pipeline: all ranks of the real library as fibers of one process under adversarial schedules',
     note='the three passes that remove barriers are proved for programs of any length; that the remaining barriers suffice is a bounded exploration (2 to 24 ranks, random schedules), nothing proved', level='other')
prop('C11', 'Rewriting a finished program does not change what it does',
     'The passes between scheduling and byte code keep the meaning of the program: copying it keeps every line; the memory segments they lay out never overlap, are large enough for everything that is copied in or out, and every place named by segment and offset becomes exactly that place; '
     'joining neighbouring copies gives the same memory contents as the copies one by one; messages, waits, signals and parameters are handed on unchanged and in order.',
     ['inputs'], 'every program, every line, every operand',
     'the tests compare recorded outputs of single passes for a few inputs; overlapping, descending, unequal or mixed-buffer neighbours and rarely used segments do not occur',
     ['src/core/dummy.c', 'src/core/no_offset.c', 'src/core/buffer_offset.c', 'src/core/raw_code_merge.c'],
     [('layout of the shared memory', 'src/core/buffer_offset.c:ext_mpi_generate_buffer_offset'), ('places', 'src/core/no_offset.c:ext_mpi_generate_no_offset'), ('joining copies', 'src/core/raw_code_merge.c:ext_mpi_generate_raw_code_merge')],
     note='all four passes are proved by vcg for programs of any length; that a joined copy has the effect of its lines is a lemma over the contract; native runs over random programs find the failing input')

prop('C12', 'No schedule deadlocks',
     'For every communicator, layout, collective and schedule every send meets exactly one receive of the same tag and size and no cycle of waits exists, so that every started collective finishes on all ranks.',
     ['schedules', 'configurations'], 'every communicator, layout, collective, schedule and interleaving', 'the tests run a few schedules on one host; a cycle needs a particular layout or a late process',
     ['src/core/alltoall.c', 'src/core/raw_code.c', 'src/mpi/ext_mpi_native_exec.c'], [('messages of a program', 'src/core/raw_code.c:ext_mpi_generate_raw_code')],
     na='a statement about the programs of all ranks together and about liveness; contracts on single functions express neither, and the verifiers at hand prove no termination of waiting. The bounded runs of C01 and C10 report a hang when they meet one')
prop('C13', 'Floating-point results do not depend on timing',
     'Two runs of the same reduction with the same data on the same communicator give bit for bit the same floating-point result on every rank, whatever the timing.',
     ['schedules', 'inputs'], 'every floating-point input, every interleaving', 'the tests use small integers, whose sums are exact in any order',
     ['src/core/reduce_copyin.c', 'src/mpi/ext_mpi_native_exec.c'], [('order of summation', 'src/mpi/ext_mpi_native_exec.c:exec_waitany')],
     na='floating point is uninterpreted in the deductive verifier and the order of summation is spread over some 60 passes and, for attached reductions, decided by message arrival by design')
prop('C14', 'Shared memory is released with the last request',
     'Every shared segment is attached by all processes of a node, detached once by each and removed by the system when the last request using it is released, also when an initialiser fails half way.',
     ['histories', 'fault_sequences'], 'every history of requests, every failing allocation', 'the tests never inspect the segments of the operating system, nor let an allocation fail',
     ['src/mpi/ext_mpi_native.c', 'src/mpi/shmem.c'], [('setup and removal', 'src/mpi/shmem.c')],
     na='the effects are those of the operating system (shmget, shmat, shmctl, mmap) on several processes; a contract would be proved of a model of these calls, which is a different family')
