def P(id, title, statement, over, text, why, files, mech, observe=(), state=(), **kw):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if observe: d['anchors']['observe_at'] = list(observe)
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d.update(kw)
    PROPS.append(d)


PROPS = []

# ---------------------------------------------------------------- virtual machine
P('V01', 'Primitives keep the operand stack balanced',
  'Whenever a built-in operation fails, the Smalltalk code that runs in its place sees exactly the receiver and the arguments of the message; whenever it succeeds, receiver and arguments are replaced by exactly one result. No outcome of a built-in operation leaves anything else on, or removes anything else from, the sender\'s operand stack.',
  ['inputs', 'programs'], 'every built-in operation, every argument count it is attached with, every success and failure path through its C implementation',
  'Most failure exits need an argument of an unexpected class, a full disk or an interrupted operation; the tests take almost none of them, and an unbalanced stack often goes unnoticed in a short method.',
  ['libgst/prims.def', 'libgst/interp-bc.inl', 'libgst/interp.c', 'libgst/dict.inl', 'kernel/*.st'],
  [('primitive bodies, POP_OOP/UNPOP/SET_STACKTOP', 'libgst/prims.def'), ('execute_primitive_operation', 'libgst/interp.c'), ('<primitive:> attachments', 'kernel/*.st, packages/**/*.st')],
  ['result and arguments seen by the fallback code of a failing primitive'],
  technique='abstract interpretation of the LLVM IR of every primitive (symbolic operand-stack displacement and slot contents)',
  note='Every path of every attached primitive for every argument count it is attached with. Trusts clang, and that a nested interpretation or a collection leaves the caller\'s stack pointer in place. Five open findings in the Blox debugger are listed.')

P('V02', 'Built-in operations and C calls are declared consistently on both sides',
  'Every built-in operation or C function that library code is bound to exists in the virtual machine or in the module that comes with the library, and a C function takes the number, width and kind of arguments that the Smalltalk declaration states. The result type that the Smalltalk side declares is void or has the width and kind of what the C function returns, and the virtual machine converts every declared type as the C type of that name.',
  ['programs', 'inputs'], 'all <primitive:>, <cCall:> and #define: style bindings in kernel/ and packages/ against all primitives and registered C functions',
  'A binding is only resolved when its method is called; hundreds are never called by a test, and a wrong argument width works by luck for small values.',
  ['libgst/prims.def', 'libgst/cint.c', 'kernel/*.st', 'packages/**/*.st', 'packages/**/*.c'],
  [('primitive table', 'libgst/prims.def'), ('_gst_define_cfunc / defineCFunc registrations', 'libgst/cint.c, packages/**/*.c'), ('<cCall:returning:args:> pragmas', 'kernel/*.st, packages/**/*.st')],
  technique='cross-language declaration agreement: Smalltalk syntax trees against the primitive table in LLVM IR and the clang-parsed prototypes of registered C functions',
  note='Decides name, arity and argument/result width and kind for every binding whose C function is registered in this tree.')

P('V03', 'The virtual machine never uses an object address across a possible move',
  'No built-in operation and no interpreter service reads or writes a Smalltalk object through an address it obtained before a point at which the garbage collector may have run. This holds whatever the heap occupancy is when the operation starts.',
  ['histories', 'programs'], 'every C function of the VM and every heap occupancy, i.e. every choice of which allocation triggers a collection',
  'Corruption appears only when a collection happens at one specific allocation; tests run with an almost empty eden and hit practically none of those points.',
  ['libgst/*.c', 'libgst/*.inl', 'libgst/prims.def', 'libgst/vm.def'],
  [('OOP_TO_OBJ re-read after allocation', 'libgst/*.c'), ('copying collector', 'libgst/oop.c'), ('allocation functions', 'libgst/oop.c')],
  technique='interprocedural may-collect effect analysis plus SSA liveness of object-body addresses over LLVM IR',
  note='Covers all functions of libgst in the analysed configuration (no JIT). Trusts the list of allocation roots and the classification of which pointers address object bodies (propagated from the OOP layout).')

P('V04', 'Objects in use by the virtual machine are never reclaimed under it',
  'An object that a built-in operation or a VM service creates or pops and uses again after a point where the garbage collector may run is reachable from a root at that point. Every scope that protects such objects releases exactly what it protected.',
  ['histories', 'programs'], 'every C function of the VM and every choice of which allocation triggers a collection',
  'Reclaiming a live temporary needs a collection between two particular allocations; tests cannot place it there.',
  ['libgst/*.c', 'libgst/*.inl', 'libgst/prims.def'],
  [('INC_ADD_OOP / INC_SAVE_POINTER / INC_RESTORE_POINTER', 'libgst/oop.h'), ('operand stack as a root', 'libgst/oop.c')],
  technique='interprocedural rooting dataflow over LLVM IR (allocated OOP, may-collect call, later use, not rooted)',
  note='origins are the results of allocating functions and operands popped off the stack; obligations are uses after a call that may collect; start-up code that runs in an empty nursery is exempt')

P('V05', 'Indexed access by built-in operations stays inside the object',
  'Reading or writing an element of an object through a built-in operation either touches an element of that object or fails; no index, size or offset argument, however large or negative, makes it touch other memory. The fallback code sees the failure as an ordinary Smalltalk error.',
  ['inputs'], 'all receivers, shapes, indices, sizes and offsets, including values near the ends of the SmallInteger range',
  'Tests try a handful of small in-range and off-by-one indices; the arithmetic that goes wrong needs indices near 2^60 or unusual combinations of start, stop and replacement start.',
  ['libgst/dict.inl', 'libgst/prims.def', 'libgst/interp.c'],
  [('index_oop_spec, index_oop_put_spec, CHECK_INDEX', 'libgst/dict.inl'), ('replaceFrom primitives', 'libgst/prims.def')],
  technique='linear-inequality dataflow over LLVM IR with overflow accounting', note='Every address computed from a Smalltalk integer in the indexing, replacing and instantiating operations; trusts the size headers of objects and the limits stated in DESIGN.md.')

P('V06', 'Small integers and character codes never wrap silently',
  'Every small integer the virtual machine creates from a computed value has exactly that value: results that do not fit are computed with large integers or reported as a failure. This covers arithmetic, shifts, conversions from floating point, number literals, and sizes or offsets reported by the system. Likewise, an integer stored into an element that is narrower than it, or converted between a large integer and a C number, keeps its value or is refused; and an operation never acts on only the lower bits of an integer argument, such as the count of a shift, or of a number that the compiler puts in the header of a method or block.',
  ['inputs'], 'all integer and floating-point operands, in particular those whose result is next to or outside the SmallInteger range',
  'The range boundary is 2^62; tests use a few values around it for addition and multiplication only.',
  ['libgst/prims.def', 'libgst/vm.def', 'libgst/interp-bc.inl', 'libgst/oop.h'],
  [('FROM_INT and overflow checks', 'libgst/oop.h, libgst/gstpriv.h'), ('arithmetic bytecodes', 'libgst/vm.def')],
  technique='linear-inequality and floating-point interval dataflow over LLVM IR at every integer tagging site', note='numbers the host hands over in C types it chose (results of calls, ids) are trusted to fit their declared types; see trusted list in the evidence')

P('V07', 'Read-only objects are never modified through built-in operations',
  'An object marked read-only (literals included) is not changed by element, instance-variable, replacement, class-change or identity operations of the built-in set; such an attempt is reported as a failure.',
  ['inputs', 'programs'], 'all built-in operations that store into their receiver, with every receiver that is read-only',
  'There is one test per operation at best, on the direct path; specialised and fast paths of the same store are not exercised with read-only receivers.',
  ['libgst/dict.inl', 'libgst/prims.def', 'libgst/vm.def'],
  [('IS_OOP_READONLY checks', 'libgst/dict.inl, libgst/prims.def')],
  technique='path-sensitive abstract interpretation over LLVM IR: element, class and identity stores only after the read-only mark was found clear; must-reach analysis of the mark', note='All primitives with all arities, the store that the interpreter makes without a send, all updates of the mark and the builders of literals. Assignments of instance variables by the methods of the object, and operations on the private state of processes, contexts, C objects and random generators are not element stores.')

P('V08', 'System calls never write into write-protected heap pages',
  'Whenever the operating system is asked to write directly into the body of a Smalltalk object, the pages concerned have been made writable for the garbage collector\'s write barrier first. A read or receive therefore never fails with a bad-address error because the buffer is old.',
  ['histories', 'inputs'], 'all system calls that fill Smalltalk memory, for buffers of any age and size',
  'It needs a buffer that has been tenured and protected before the call; test buffers are young.',
  ['libgst/prims.def', 'libgst/sockets.c', 'libgst/files.c', 'libgst/oop.c'],
  [('_gst_grey_oop_range before read()/recvfrom()', 'libgst/files.c, libgst/oop.c')],
  technique='dominance analysis on LLVM IR: OS-filled buffers that may be object bodies', note='Every call that lets the operating system (or a C library routine) fill memory that may be an object body, in the VM; the barrier must be opened on all paths before it. Trusts the may-point-to classification of object bodies.')

P('V09', 'Built-in operations release their native resources on every path',
  'Temporary native memory obtained during a built-in operation (copied strings, arbitrary-precision temporaries, parser buffers, file descriptors) is released exactly once on every path, including all failing ones. Failing operations repeated forever do not exhaust memory, and none releases the same block twice.',
  ['inputs', 'fault_sequences'], 'all paths through the primitives and their helpers',
  'A leak or a double free on an error path leaves no trace in a short test.',
  ['libgst/prims.def', 'libgst/mpz.c', 'libgst/files.c', 'libgst/cint.c', 'libgst/dict.c'],
  [('xfree, _gst_mpz_clear pairing', 'libgst/prims.def')],
  technique='path-sensitive typestate of malloc-family results over LLVM IR', note='All functions of libgst in the analysed configuration; correlated path conditions are kept apart. A block stored in non-local memory or passed to a function that stores it counts as owned there; globals and fields that own blocks must have a release somewhere.')

P('V10', 'Every protected evaluation is unwound exactly once',
  'Each entry into a nested evaluation, parse or protected region of the virtual machine is matched by exactly one exit on every path, normal or interrupted. After any sequence of errors and interrupts the interpreter returns to the same nesting level.',
  ['fault_sequences', 'histories'], 'all functions that push a recovery point, an input stream or an incubator scope, on all paths',
  'An unmatched entry is visible only after many repetitions or a second interrupt.',
  ['libgst/interp.c', 'libgst/callin.c', 'libgst/comp.c', 'libgst/input.c', 'libgst/prims.def'],
  [('push_jmp_buf/pop_jmp_buf, _gst_push_*stream/_gst_pop_stream, INC_SAVE/RESTORE', 'libgst')],
  technique='pairing typestate over all paths of LLVM IR', note='All functions with push/pop style pairs (streams, recovery points, temporary roots, parser and compiler state) on all paths, including the non-local exits that a recovery point catches.')

P('V11', 'Signal handlers only do async-signal-safe work',
  'A signal that arrives at any instruction of the virtual machine cannot deadlock it or corrupt the C heap or the Smalltalk heap: code run in signal context neither allocates memory nor takes locks nor uses buffered output, except when the process is about to abort.',
  ['schedules'], 'all signals with installed handlers, arriving at any instruction',
  'A handler interrupting malloc or stdio is a matter of nanoseconds; tests practically never hit it.',
  ['libgst/sysdep.c', 'libgst/interp.c', 'libgst/events.c', 'libgst/sockets.c', 'libgst/oop.c'],
  [('signal handlers and async queue', 'libgst/interp.c, libgst/events.c')],
  technique='call-graph reachability from registered handlers to non-async-signal-safe functions', note='Everything reachable from installed handlers by direct or resolved indirect calls. Two open findings (SIGINT schedules) are listed.')

P('V12', 'C and Smalltalk agree on the layout of shared objects',
  'For every class whose instances the virtual machine accesses by field, the field order and count assumed by the virtual machine equals the instance-variable order of the class as defined by the kernel sources, inherited variables included. Class-shape and indexing kind agree as well.',
  ['programs', 'configurations'], 'all structures with which C code overlays Smalltalk objects and all class definitions in the kernel',
  'Swapping two fields of the same kind in one place only is visible only in the operations that use them.',
  ['libgst/dict.h', 'libgst/dict.c', 'libgst/interp.h', 'libgst/comp.h', 'kernel/*.st'],
  [('class_info table', 'libgst/dict.c'), ('struct definitions', 'libgst/*.h'), ('class definitions', 'kernel/*.st')],
  technique='layout agreement between clang record layouts, the bootstrap class table and parsed class definitions', note='All structures that overlay Smalltalk objects, the bootstrap class table and the header bit fields against the kernel class definitions and hard-coded decodings.')

P('V13', 'All components agree on the bytecode set',
  'The interpreter, the bytecode verifier, the optimiser, the C compiler, the disassembler and the Smalltalk-in-Smalltalk compiler agree on the numbers, operands and stack effect of every bytecode. Compiled code accepted by one is executed with the same meaning by the others.',
  ['programs'], 'all bytecodes and superoperators',
  'Rare bytecodes and superoperators are emitted only for unusual code shapes.',
  ['libgst/vm.def', 'libgst/byte.def', 'libgst/opt.c', 'libgst/comp.c', 'packages/stinst/compiler/*.st'],
  [('bytecode tables', 'libgst/byte.def, libgst/vm.def, packages/stinst/compiler/STCompiler.st')],
  technique='per-bytecode effect analysis of the bytecode walkers over LLVM IR against the decoder tables; table agreement', note='All 256 bytecodes in byte.def, vm.def and the class library tables; stack effects on all paths of the verifier and the inline-cache layout, block classification, disassembler operands, superoperator and special selector tables, jump sizes. Operation bodies of vm.def are not compared with their names.')

P('V14', 'Built-in operations check the class of what they dereference',
  'A built-in operation never interprets a small integer as an object address, nor an argument as an object of a class it does not have: arguments of an unexpected class make it fail, leaving the decision to the Smalltalk fallback code. This holds for every argument of every operation.',
  ['inputs'], 'all arguments of all built-in operations, with values of every class including small integers',
  'Tests pass arguments of the right class, or one wrong class for a few operations.',
  ['libgst/prims.def', 'libgst/dict.inl', 'libgst/interp.c'],
  [('IS_INT / IS_OOP / IS_CLASS guards', 'libgst/prims.def')],
  technique='path-sensitive abstract interpretation of the LLVM IR of every primitive with tag and class facts about its stack arguments; helpers summarised by need and outcome', note='Contents of objects (instance variables, elements) are trusted; a helper that never returns is not followed.')

P('V15', 'A failed snapshot is reported and never taken for a good image',
  'When writing an image does not complete (disk full, I/O error, interrupted), saving reports failure to its caller, also when part of the data was written, and leaves no image file behind; all buffered data is written, once, before success is reported. When reading meets a file that is truncated, foreign or written by a newer version, loading is refused rather than running on partial data.',
  ['fault_sequences', 'crash_points'], 'every write, open and close of the saving path, every read and check of the loading path, each with every outcome',
  'The tests never make a write or read fail.',
  ['libgst/save.c', 'libgst/files.c', 'libgst/prims.def'],
  [('buffer_write/buffer_read/load_file_version, _gst_save_to_file', 'libgst/save.c')],
  technique='outcome-directed path walk over LLVM IR (each call assumed to fail, to write nothing, to succeed), typestate of the write buffer, and dependence of the refusing conditions on header fields and file size',
  note='All functions that serve only saving or loading, and the callers of both. The size checks are decided by their shape (announced size times element size against what is left of the file), not proved arithmetically.')

P('V16', 'Interrupted and partial system calls are retried or reported',
  'A system call of the file, socket or event layer that fails is noticed by the function that made it, and its error result is never used as a count, offset, size or descriptor. Stream transfers and waits that a signal interrupts are restarted. The number of bytes that a transfer moved is passed on or used to continue, never replaced by the number requested. The error code is looked at only after a call that failed, and the one that a file operation reports is that of the call that failed.',
  ['fault_sequences', 'schedules'], 'all input/output system calls of the VM, with failure, EINTR and short counts',
  'Signals, failures and short counts during the system calls of a test are rare.',
  ['libgst/sysdep/common/files.c', 'libgst/sysdep/posix/events.c', 'libgst/sockets.c', 'libgst/prims.def', 'libgst/input.c', 'libgst/save.c'],
  [('retry loops', 'libgst/sysdep/common/files.c, libgst/sysdep/posix/events.c')],
  technique='outcome-directed path walk over LLVM IR: every system call is assumed to fail, to be interrupted and to succeed, and the paths behind it are followed with taint and constant propagation',
  note='POSIX configuration. Calls with a documented fallback (closing, position probes, descriptor flags) may fail silently. Functions that Smalltalk calls directly pass the result on instead of restarting.')

# ---------------------------------------------------------------- class library
P('S01', 'Equal objects have equal hashes',
  'For every class of the library that defines equality, two objects that answer true to = answer the same hash. A class never defines equality while inheriting a hash that depends on identity or on state equality ignores.',
  ['inputs', 'histories'], 'all pairs of instances of all classes in kernel/, on every pair of paths through = and hash',
  'Tests compare a few equal pairs of a few classes; a violation shows up only as a lost key in a hashed collection.',
  ['kernel/*.st'],
  [('= and hash methods', 'kernel/*.st')],
  technique='dependence analysis of = and hash over Smalltalk syntax trees with inheritance', note='Kernel classes; packages only through the classes they inherit from. Number classes are trusted to hash equal values alike once they share the hash of Number; contents comparison by a loop that answers false at the first difference counts as comparing the contents.')

P('S02', 'Storing operations answer the stored object',
  'Every storing and adding message of the library (at:put:, add:, addAll:, addFirst:, addLast: and their variants) answers the object that was passed to be stored, whatever path it takes. The argument variable that is answered is not something else, such as the receiver.',
  ['inputs', 'histories'], 'all implementations in kernel/, all paths through them',
  'The answer is ignored by nearly all callers, tests included.',
  ['kernel/*.st'], [('return statements of the mutators', 'kernel/*.st')],
  technique='return-value dataflow over Smalltalk syntax trees with message-send summaries', note='Exact for the kernel classes up to storing messages sent to other objects, which are assumed to keep the same rule.')

P('S03', 'Locks and resources are released when a block is unwound',
  'A library operation that acquires a lock, disables process switching, opens a file or changes process-wide state around user-supplied code restores it even if that code returns non-locally, is terminated or signals an error.',
  ['fault_sequences', 'schedules'], 'all acquire/release pairs in kernel/, with every exit from the code between them',
  'Abnormal exits from the protected code are hardly tested.',
  ['kernel/*.st'], [('ensure: and ifCurtailed: around acquire/release pairs', 'kernel/*.st')],
  na='which messages between an acquisition and its release can run user code is not visible in untyped source, and the same messages (wait, signal, suspend) also serve as events between processes: a pairing rule cannot tell a lock from an event without false alarms')

P('S04', 'Library code only refers to things that exist',
  'Every global, class, class-pool or namespace variable that library code names is defined where that code is loaded, and every message that library code sends to itself, to its superclass or to a named class is understood there, and every message sent anywhere is implemented somewhere. Running any library method never fails because of a dangling name.',
  ['programs', 'inputs'], 'all methods of kernel/ (including error paths never run by tests)',
  'A dangling name is only noticed when the statement containing it is executed.',
  ['kernel/*.st'], [('method bodies', 'kernel/*.st')],
  technique='whole-library name and selector resolution over Smalltalk syntax trees', note='Names resolve exactly (namespaces, pools, class pools); self/super/class sends against the inherited protocol, other sends against all implementors of the loaded world.')

P('S05', 'Packages declare what they need',
  'Every file a package lists exists or is built, every file it loads parses, every package it requires exists, and no chain of requirements is circular. Superclasses and extended classes are defined before they are needed in the load order, and the classes of other packages that a package uses belong to packages it requires. The modules it needs are built and the test classes it announces exist.',
  ['configurations'], 'all packages in the source tree',
  'Packages are tested in an environment where other packages are already loaded.',
  ['packages/*/package.xml*'], [('package descriptions', 'packages.xml, packages/**/package.xml'), ('configuration', 'configure.ac GST_PACKAGE_ENABLE')],
  technique='closure and load-order analysis over package descriptions and parsed Smalltalk sources', note='Exact for files, requirements, load order and modules. Class use is judged by name: a class counts as missing when another package defines it and nothing loaded does. Packages with generated sources (GTK) are exempt from class resolution in their own namespace.')

P('S06', 'A copied collection does not share its mutable storage',
  'Changing the contents of a copy of a library collection never changes the original, nor the reverse. Views that are documented to store into another collection are exempt.',
  ['histories'], 'all collection classes of kernel/ that keep their contents in a separate internal object, all sequences of mutations after a copy',
  'Tests copy a collection and compare it; few mutate the copy and look at the original.',
  ['kernel/*.st'], [('copy, postCopy, deepCopy', 'kernel/*.st')],
  technique='escape analysis of owned storage through postCopy', note='One level of storage: objects inside the storage that the class changes in place are not followed. MappedCollection is a documented view; a block shares the literals of its method.')

P('S07', 'Indices are checked against the logical size',
  'A collection whose capacity exceeds its size never reads or writes a slot outside its current elements on behalf of its user: any other index is reported as an error.',
  ['inputs', 'histories'], 'all indexed accessors of growable collections, all indices and histories of additions and removals',
  'Tests probe one or two out-of-range indices on freshly built collections.',
  ['kernel/OrderColl.st'], [('index checks before primitive access', 'kernel/OrderColl.st')],
  na='the guards compare indices with firstIndex and lastIndex, whose relation to the allocated size is an invariant across histories of calls; a rule on the form of the guard would also fire on equivalent rewrites')

P('S08', 'A failing built-in operation is never ignored',
  'When a built-in operation that a library method relies on fails, that method signals an error or computes the result in another way; it never silently answers its receiver as if nothing had happened.',
  ['inputs', 'fault_sequences'], 'all methods bound to a built-in operation that can fail',
  'Failures of built-in operations are rarely provoked by tests.',
  ['kernel/*.st', 'libgst/prims.def'], [('fallback code after <primitive:>', 'kernel/*.st')],
  technique='fallback-reachability analysis combining the primitive failure analysis with Smalltalk syntax trees', note='Kernel and packages. Whether an operation can fail is decided on its LLVM IR; four hash and ageing messages that fail for small integers only are exempt by design.')

P('S09', 'Instantiable classes implement their whole protocol',
  'No class of the library that is meant to be instantiated leaves a message unimplemented that its superclass declares to be the responsibility of subclasses and that the library itself sends to instances.',
  ['programs'], 'all concrete classes in kernel/',
  'Only called messages are noticed.',
  ['kernel/*.st'], [('subclassResponsibility methods', 'kernel/*.st')],
  na='the library uses subclassResponsibility also for operations that concrete classes deliberately leave unsupported (storing into a read stream, removing from an array), so the source does not tell an omission from a decision')

P('S10', 'State shared between processes is accessed under its lock',
  'Library state that is protected by a lock is accessed by every method only while that lock is held, apart from creation.',
  ['schedules'], 'all accesses to lock-protected variables, all interleavings of Smalltalk processes',
  'Process switches inside the short unprotected window are rare.',
  ['kernel/*.st'], [('critical: blocks', 'kernel/*.st')],
  na='the source does not say which variables a lock protects; inferring it from the majority of the accesses reports the deliberate unlocked reads of the scheduler, the weak collections and the file layer')

# ---------------------------------------------------------------- declined
P('N01', 'Arithmetic is exact and obeys the usual laws',
  'Integer, fraction and scaled-decimal arithmetic gives the mathematically exact result for all operands, and division, remainder and modulus satisfy their defining identities.',
  ['inputs'], 'all numeric operands', 'Tests sample a few operands of an infinite domain.',
  ['kernel/Number.st', 'kernel/LargeInt.st', 'kernel/Fraction.st', 'libgst/mpz.c'], [('arithmetic methods', 'kernel/*.st, libgst/mpz.c')],
  na='quantifies over run-time numerical values: exactness of multi-precision algorithms is not visible in the shape of the code; the range clause that is (no silent wrap when tagging results) is claimed as V06')
P('N02', 'Printing and reading back are inverse',
  'Printing a number, string, symbol or literal array and reading the text back yields an equal object.',
  ['inputs'], 'all printable literals', 'Tests sample some literals.',
  ['kernel/Float.st', 'kernel/Number.st', 'libgst/lex.c'], [('printOn:, storeOn:, lexer', 'kernel, libgst/lex.c')],
  na='round-trip equality over all run-time values (shortest float printing in particular) is numerical; no sound static argument in reach bounds it')
P('N03', 'Image save and load preserve the object graph',
  'Loading a saved image yields an object graph isomorphic to the saved one, including identity, classes, weak and read-only flags, and continues every process where it was.',
  ['histories', 'crash_points'], 'all object graphs and all points at which a snapshot is taken', 'Tests save one small image.',
  ['libgst/save.c'], [('save and load passes', 'libgst/save.c')],
  na='isomorphism of run-time graphs is a round-trip property over heap contents; the structural clause (write and read failures are noticed) is claimed as V15')
P('N04', 'Process scheduling is fair and priority-correct',
  'The highest-priority ready process runs; processes of equal priority are served in order; a signalled semaphore wakes exactly its first waiter; no wake-up is lost.',
  ['schedules'], 'all interleavings of signals, waits, priorities and terminations', 'Tests follow a handful of schedules.',
  ['libgst/interp.c', 'kernel/Process.st', 'kernel/ProcSched.st', 'kernel/Semaphore.st'], [('ready lists, semaphores', 'libgst/interp.c')],
  na='ordering of run-time histories over linked lists in the heap: needs a shape analysis or model checking, not a structural rule that would stay quiet on equivalent rewrites')
P('N05', 'Unwinding runs every protection block exactly once in order',
  'When a context is unwound by a return, an exception or a termination, the protection blocks of exactly the unwound contexts run, innermost first, each once.',
  ['programs', 'fault_sequences'], 'all nestings of handlers, protections, non-local returns and terminations', 'Tests cover simple nestings.',
  ['kernel/AnySOS.st', 'kernel/BlkClosure.st', 'kernel/ContextPart.st'], [('unwind markers', 'kernel/ContextPart.st')],
  na='ordering over run-time context chains; the per-method pairing clause is claimed as S03')
P('N06', 'The generational collector preserves reachable objects',
  'After any sequence of allocations and collections, every object reachable from a root is unchanged and every weak or ephemeron reference to a dead object is cleared exactly once.',
  ['histories'], 'all heaps and allocation histories', 'Tests cover a tiny part of the heap configurations.',
  ['libgst/oop.c', 'libgst/alloc.c'], [('copying and marking passes', 'libgst/oop.c')],
  na='functional correctness of the copying/marking algorithm over arbitrary heaps is a run-time graph property; the mutator-side obligations that make it hold are claimed as V03, V04 and V08')
P('N07', 'Streams and sockets deliver bytes in order without loss',
  'What is written to a file, pipe or socket stream is what its reader obtains, in order, under every buffering state and every split of the transfers.',
  ['histories', 'fault_sequences'], 'all sequences of buffered operations and transfer sizes', 'Tests use small transfers that are never split.',
  ['kernel/FileStream.st', 'kernel/FileDescr.st', 'packages/sockets/*.st'], [('read and write buffers', 'kernel/FileStream.st')],
  na='equality of run-time byte histories; no structural necessary condition found that would not also fire on equivalent rewrites')
P('N08', 'Hashed collections find what was put into them',
  'A key added to a set or dictionary is found until it is removed, whatever collisions, growth and removals happen in between.',
  ['histories', 'inputs'], 'all histories of insertions, removals and growth', 'Tests use few colliding keys.',
  ['libgst/dict.c', 'kernel/HashedColl.st', 'kernel/Dictionary.st', 'kernel/LookupTbl.st'], [('probing and rehash after removal', 'kernel/HashedColl.st')],
  na='probe-sequence invariants quantify over run-time table contents; the structural precondition (hash agrees with equality) is claimed as S01')
P('N09', 'Compiled code means what the source says',
  'Optimised and inlined forms of control-flow messages, cascades and literals behave as the corresponding ordinary message sends for every program.',
  ['programs'], 'all programs', 'Tests cover common shapes.',
  ['libgst/comp.c', 'libgst/opt.c', 'packages/stinst/compiler/*.st'], [('inlining and peephole optimisation', 'libgst/comp.c')],
  na='semantic equivalence of source and generated code over all programs; the structural clause (agreement of the bytecode tables) is considered as V13')
