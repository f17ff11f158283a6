prop("M01", "A call that fails gives back everything it acquired",
     "Whenever an operation reports an error, every memory block and operating-system object it acquired during the call has been released again or is still reachable from the caller's objects. This holds whichever of its allocations, system calls or callbacks is the one that fails.",
     ["fault_sequences", "inputs"], "every public operation and registered callback, every caller state, every sequence of allocation / system-call / callback outcomes",
     "The tests inject no allocation or system-call failures, so cleanup paths are never executed.",
     ["src/**/*.c"], [("goto-style cleanup chains", "every *_create function and callback handler"), ("resource_release", "src/resource/resource_release.c")])
prop("M02", "Every acquired block is handed over, and released with its owner",
     "Whenever an operation reports success, every block it acquired is reachable from what it returned or from the caller's objects. Releasing an object that an operation handed out gives back, when the release reports success, every block that object owned. Every object an operation hands out, or puts in one of the library's containers, carries the methods it is to be released with.",
     ["inputs", "histories"], "every public operation and registered callback; every object handed out, released right after",
     "A leak changes no result; the stable tests run no leak checker and cover a handful of types.",
     ["src/**/*.c"], [("release functions in the resource vtables", "src/**/*_create.c, src/**/*_release.c")])
prop("M03", "No block is used after its release or released twice",
     "No operation reads, writes or releases a block that has already been released, releases anything but a whole block through the allocator it came from, or returns leaving one of the caller's objects referring to a released block.",
     ["inputs", "fault_sequences"], "every public operation and registered callback, every caller state and outcome sequence",
     "Needs particular failure orders and object states; the tests neither inject failures nor run under a memory checker.",
     ["src/**/*.c"], [("ownership transfer by pointer and NULLing of moved pointers", "src/**/*.c")])
prop("M04", "Every memory access stays inside the object it addresses",
     "No operation reads or writes outside the object it was given or allocated, whatever the sizes, counts and offsets passed in or received from the outside.",
     ["inputs"], "every public operation and registered callback, every size / count / offset value",
     "Tests use a few sizes; off-by-one accesses often go unnoticed without a memory checker.",
     ["src/psock/*.c", "src/string/*.c", "src/bigint/*.c", "src/fiber/**/*.c", "src/**/*.c"], [("size computations before allocation and copying", "src/psock/psock_read_boxed_*.c, src/psock/psock_br_*.c, src/fiber/common/fiber_scheduler_discipline_add.c")])
prop("M05", "No null or uninitialised value is dereferenced, called or compared",
     "No operation dereferences, calls, releases or bases a decision on a null pointer or a value that was never set, for any caller state its documentation allows and any outcome of the calls it makes. No byte that was never set leaves through a write or a message.",
     ["inputs", "fault_sequences"], "every public operation and registered callback, every caller state and outcome sequence",
     "Uninitialised reads depend on stack residue and usually stay invisible to tests.",
     ["src/**/*.c"], [("initialisation of locals and clearing of new structures", "src/**/*.c")])
prop("M06", "Descriptors opened by the library are closed exactly once or kept",
     "Every descriptor an operation opens, accepts or receives is, when the operation returns, either closed or held by an object the caller can reach, and none is closed twice or used after being closed.",
     ["inputs", "fault_sequences"], "every public operation and registered callback, every outcome of every system call",
     "Descriptor leaks need failing system calls; the tests do not provoke them.",
     ["src/psock/*.c", "src/psock/**/*.c", "src/socket_utilities/*.c"], [("close on error paths", "src/psock/psock_create_from_*.c, src/psock/psock_accept*.c")])
prop("E01", "A failure is never reported as success",
     "When an operation returns success, no allocation, system call, callback or inner operation it performed on that path has failed, unless it handled that particular error or delivered it to the party it concerns. A read that already holds bytes may hand these out first; the next read reports the error.",
     ["fault_sequences"], "every public operation and registered callback, every sequence of inner failures",
     "The tests inject no failures, so the error branches are not taken.",
     ["src/**/*.c"], [("status propagation", "src/**/*.c")])
prop("E02", "A returned status is success or a genuine error code",
     "Every status an operation returns is either success (zero) or a value with the error bit set; a constant it returns is one of the defined error codes, and no two defined error codes are equal.",
     ["inputs", "fault_sequences"], "every operation returning a status, every exit; every pair of defined codes",
     "Tests compare a few results with success; a raw system-call result on an error path looks like neither.",
     ["include/rcpr/status.h", "include/rcpr/status/*.h", "src/**/*.c"], [("STATUS_CODE construction", "include/rcpr/status.h"), ("error mapping", "src/**/*.c")])
SPEC = "abstract interpretation of the LLVM IR against a state specification"
DSN = "Decided per shape on every abstract path; element contents and the rest of the container are symbolic. Trusts clang's IR and the allocator/release outcome model."
prop("C01", "Doubly linked list operations implement a sequence",
     "Every list operation (append, insert at either end or next to a node, remove, pop, head, tail, count, swap, clear, release) has exactly the effect of the same operation on a sequence, whatever the list's length and the position operated on: order, links in both directions, ends, count and back references agree, and no element is lost or duplicated. A failing operation leaves the sequence as it was, except that a failing clear or release may have removed a prefix.",
     ["inputs", "histories", "fault_sequences"], "every list length and position (opaque segments), every allocation / release outcome",
     "Tests walk a few short lists forward; a wrong back link or an end pointer left behind shows only in later operations.",
     ["src/list/*.c"], [("link surgery", "src/list/*.c")], SPEC, DSN)
prop("C02", "Singly linked list operations implement a sequence",
     "Every slist operation (append, insert at the beginning or after a node, remove, pop, head, tail, count, swap, clear, release) has exactly the effect of the same operation on a sequence, whatever the list's length and the position operated on: order, links, ends, count and back references agree, and no element is lost or duplicated. A failing operation leaves the sequence as it was, except that a failing clear or release may have removed a prefix.",
     ["inputs", "histories", "fault_sequences"], "every list length and position (opaque segments), every allocation / release outcome",
     "Tests walk a few short lists; tail pointers left behind show only in a later append.",
     ["src/slist/*.c"], [("link surgery", "src/slist/*.c")], SPEC, DSN)
prop("C03", "The queue hands elements out in order, each exactly once",
     "Append puts an element at the back of the queue, insert puts it at the front, and pop takes the element at the front or yields nothing from an empty queue; every element is handed out exactly once and the count is the number of elements held. A failing operation leaves the queue as it was, and releasing it releases every element once.",
     ["inputs", "histories", "fault_sequences"], "every queue length (opaque segments), every allocation / release outcome",
     "Tests use queues of up to three elements and no failing allocation.",
     ["src/queue/*.c", "src/slist/*.c"], [("queue over slist", "src/queue/*.c")], SPEC, DSN)
prop("C04", "The red-black tree stays ordered, balanced and complete",
     "After every tree operation the tree is a valid red-black tree (ordered by the user's compare, black root, no red node with a red child, equal black heights, parent links and nil node intact) holding exactly the elements it should: insert adds one and rejects an equal key, delete removes exactly the element asked for, clear and release remove all, swap exchanges two trees. Find, minimum, maximum, successor, predecessor, root, parent, child and count report that same content, and a failing insert or find changes nothing.",
     ["inputs", "histories", "fault_sequences"], "every red-black tree up to 9 nodes (13 thorough), every position of the key, every compare answer consistent with an order, every allocation / release outcome",
     "The tests build a few trees in fixed orders and never check the colour or black-height invariants after a deletion.",
     ["src/rbtree/*.c"], [("insert and delete fix-up", "src/rbtree/rbtree_internal_insert*.c, src/rbtree/rbtree_internal_delete*.c")], SPEC,
     "Bounded in tree size; values and keys symbolic. Trusts clang's IR and that the user's compare is a consistent order.")
WIRE = "Decided for all values at once over symbolic bytes; the psock's read and write methods are modelled as full, short, empty or failing transfers."
prop("P01", "Typed integers and booleans travel as tagged big-endian bytes",
     "Every typed writer puts exactly the published 4-byte type tag (boxed forms only) followed by the value in network byte order on the stream, and every typed reader yields exactly the value so encoded, for every value; a boxed reader refuses any other tag with ERROR_PSOCK_READ_BOXED_INVALID_TYPE. A transfer that fails or is short never leads to success, a complete one never to failure, and a failing read leaves the caller's variable unchanged.",
     ["inputs", "fault_sequences"], "every 8 to 64 bit integer and boolean, raw and boxed, every value, every transfer outcome",
     "Tests send a few values that both ends of the same build agree on, so a changed tag or byte order goes unnoticed.",
     ["src/psock/psock_read_*.c", "src/psock/psock_write_*.c", "src/byteswap/*.c", "include/rcpr/psock.h"], [("tags", "include/rcpr/psock.h"), ("byte order", "src/byteswap, include/rcpr/byteswap.h")], SPEC, WIRE)
prop("P02", "Data and string payloads travel complete, in order, once",
     "Writing raw data, boxed data (up to 4 GiB) or a boxed string transfers every byte of the caller's payload exactly once and in order, however the stream splits the transfers, preceded in the boxed forms by the published tag and the payload length; reading them yields a new block holding exactly those bytes, with the received length, and for strings a terminating zero. Success is reported only when the whole payload was transferred, and a failing read leaves the caller's variables unchanged; a partial raw read hands on exactly the count and the result of the psock's read.",
     ["inputs", "fault_sequences"], "every payload length, every sequence of full, partial, empty and failing transfers",
     "Tests use short payloads that a socket transfers at once.",
     ["src/psock/psock_read_raw_data.c", "src/psock/psock_write_raw_data.c", "src/psock/psock_read_boxed_data.c", "src/psock/psock_write_boxed_data.c", "src/psock/psock_read_boxed_string.c", "src/psock/psock_write_boxed_string.c"],
     [("transfer loops", "src/psock/psock_read_raw_data.c, src/psock/psock_write_raw_data.c")], SPEC, WIRE)
PSIO = "Decided on every abstract path; system calls, the wrapped psock and the scheduler are modelled by all their outcomes. Trusts clang's IR and the system-call contracts."
prop("P03", "A descriptor psock performs exactly the operation asked for",
     "Each operation of a psock made from a descriptor performs the corresponding system call exactly once, on that descriptor and with the caller's arguments; it reports success with the count (or descriptor) the system call returned, the would-block code of its direction (and, for a read, that nothing was read) exactly when the call failed with EAGAIN, and another error for every other failure.",
     ["inputs", "fault_sequences"], "read, write, accept, recvmsg, sendmsg and setsockopt through the installed vtable; every system-call outcome",
     "Tests see full transfers on local sockets; EAGAIN and odd errno values do not occur on blocking descriptors.",
     ["src/psock/psock_from_descriptor_*.c", "src/psock/psock_create_from_descriptor.c"], [("system calls", "src/psock/psock_from_descriptor_*.c")], SPEC, PSIO)
prop("P10", "A passed descriptor arrives once, and no other is taken in",
     "Writing a descriptor to a datagram psock sends one message whose only control data are this descriptor, with at least one byte of data. Reading one succeeds exactly when a descriptor arrived and hands out that one; whatever else a peer sends, no descriptor received stays open unheld. Other socket types, and psocks without message methods, are refused as unsupported before anything is sent; a failure of the psock's method is returned as it is.",
     ["inputs", "fault_sequences"], "every socket type, descriptor value, and kind of message (no, foreign or several control data) the receive buffer has room for; every method failure",
     "The tests pass one descriptor between cooperating ends; a peer that sends two, or none, does not occur.",
     ["src/psock/psock_write_raw_descriptor.c", "src/psock/psock_read_raw_descriptor.c"], [("control message construction and scan", "src/psock/psock_*_raw_descriptor.c")], SPEC, PSIO)
prop("P04", "Fiber-blocking psock operations are complete and lossless",
     "An operation on a psock wrapped for fiber I/O applies the wrapped psock's operation to consecutive parts of the caller's data, waits for readiness in its own direction exactly after each would-block result and then tries again, and reports success only when all of it was transferred; any other error is returned as it is, end of file is an error. A non-blocking read never waits and never drops data: it hands out the bytes it got before the wrapped psock would block, failed or ended. Operations the wrapped psock lacks are reported as undefined.",
     ["inputs", "schedules", "fault_sequences"], "read, write, accept, recvmsg, sendmsg; every size; every sequence of would-block, failing, empty, partial and full transfers",
     "The tests transfer small amounts between two fibers, so a partial transfer followed by a wait hardly occurs.",
     ["src/psock/psock_wrap_async_*.c", "src/psock/psock_create_wrap_async.c"], [("transfer loops", "src/psock/psock_wrap_async_read.c, src/psock/psock_wrap_async_write.c")], SPEC, PSIO)
prop("P05", "A fiber waiting for a psock is recorded, registered and woken",
     "A fiber that waits for a psock to become readable or writable is recorded as its only waiter in that direction while it waits, a second one is refused, and the record is cleared (without touching anyone else's) when it resumes; it returns success only when resumed by the readiness discipline. The wait handlers register the psock's descriptor with epoll for exactly the directions waited for. The idle fiber makes every waiter runnable whose direction is reported ready, failed or hung up, once, with its own direction's resume event; it keeps and re-arms the others, retries interrupted polls, and gives up its place when it ends. A failing re-arm inside the idle fiber is not covered.",
     ["schedules", "fault_sequences"], "both wait functions and handlers, every combination of waiters and reported epoll events (one or two psocks per poll), every outcome of epoll_ctl and epoll_wait",
     "Event combinations such as an error without readiness, or two waiters of which one is ready, do not occur in the tests.",
     ["src/psock/psock_read_block.c", "src/psock/psock_write_block.c", "src/psock/platform/epoll/*.c"], [("wait", "src/psock/psock_read_block.c"), ("wake", "src/psock/platform/epoll/psock_idle_fiber_entry.c")], SPEC, PSIO)

prop("P06", "The buffered reader delivers the stream in order without loss",
     "A read through the buffered reader hands out the bytes buffered so far, then what the wrapped psock delivers, in stream order, each byte once: it returns the count it wrote, never writes past the requested size, and keeps every byte it has fetched but not delivered. A blocking read ends only with all bytes or an error; a non-blocking read returns what is buffered without waiting. Reading a line ends at the first newline, the end of the input or a full caller's buffer, zero-terminates what it yields, reports truncation, and leaves the rest buffered. The other operations go to the wrapped psock with their arguments and result unchanged.",
     ["inputs", "fault_sequences"], "buffers of 3 bytes (thorough: 4) in every fill state with symbolic contents, every request size around them, every outcome of the wrapped psock",
     "The interplay of fill state, request size and short or failing deliveries is far larger than any list of tests.",
     ["src/psock/psock_br_*.c"], [("buffering", "src/psock/psock_br_fill.c"), ("line reading", "src/psock/psock_br_read_line.c")], SPEC, PSIO)
FIB = "Decided on every abstract path; the run queue and the fiber set are modelled as sequences, the context switch as a return. Trusts clang's IR, the container properties (C02-C04) and the allocation outcome model."
prop("F01", "A yield hands control to the next runnable fiber, with its own message",
     "A yield reaches the handler of exactly the event asked for, once, with that handler's context, the yielding fiber and the parameter given; an event that does not exist is refused. Control then passes to the fiber at the front of the run queue (the idle fiber when the queue is empty), which leaves the queue, becomes the scheduler's current fiber and receives exactly the discipline, event and parameter stored for it; with nothing to run the yield fails with the exhausted error. A fiber's function runs in the running state with its own context, and its end is announced to the scheduler in the stopped state.",
     ["schedules", "fault_sequences"], "every event number, run queue of zero to two fibers, outcome of the handler, yields by all public functions",
     "The tests drive a handful of fixed schedules; a lost runnable fiber or stale resume argument needs particular interleavings.",
     ["src/fiber/common/*.c"], [("dispatch", "src/fiber/common/fiber_scheduler_disciplined_callback.c"), ("yield", "src/fiber/common/fiber_scheduler_yield.c, src/fiber/common/fiber_discipline_yield.c")], SPEC, FIB)
prop("F02", "Each scheduler event makes exactly the right fibers runnable",
     "Running, adding a fiber, stopping, entering main, releasing resources, and waiting for, quiescing or terminating fibers each make exactly the fibers concerned runnable, once and in the documented order, with the resume event and parameter meant for them, and leave every other fiber, its message and the scheduler's records untouched. A request to a fiber reaches it exactly if it is running and its requester is told the result; a request to all reaches every running fiber but the requester and the management fiber. The sending functions return that result, and an error when resumed by anything else.",
     ["schedules", "inputs", "fault_sequences"], "every handler the scheduler installs, each combination of idle, management, target and runnable fibers and fiber states, every queue outcome",
     "Tests use one management fiber and one or two others; a fiber queued twice or told the wrong thing shows only under particular schedules.",
     ["src/fiber/common/*.c"], [("event handlers", "src/fiber/common/fiber_scheduler_disciplined_*_callback_handler.c, src/fiber/common/fiber_scheduler_management_discipline_*.c")], SPEC, FIB)
prop("F03", "The scheduler's registries hold exactly what was put there",
     "Adding a discipline gives its events codes no other discipline has and makes it findable by exactly its identifier; a second discipline with the same identifier, one that another scheduler owns, or a scheduler without disciplines is refused, and a failing addition leaves the registry unchanged. A created fiber or scheduler starts in its documented initial state with the callbacks, handlers and keys that belong to it; adding, replacing or removing fibers and the idle fiber changes only that record, and the accessors report it. Releasing the scheduler releases everything it owns exactly once. An unexpected event reaches the fiber's own handler with the arguments given.",
     ["histories", "inputs", "fault_sequences"], "every registry content up to two disciplines and fibers, every identifier relation, every allocation / container outcome",
     "Tests add one or two disciplines and never fail an allocation, so a half-registered discipline or a shared event code stays unseen.",
     ["src/fiber/common/*.c", "src/fiber/platform/**/*.c"], [("registry", "src/fiber/common/fiber_scheduler_discipline_add.c, src/fiber/common/fiber_scheduler_discipline_find.c"), ("creation", "src/fiber/common/fiber_scheduler_create.c, src/fiber/platform/sysv/x86_64/fiber_create.c")], SPEC, FIB)
prop("F04", "Switching fibers away and back restores the fiber exactly",
     "A switch saves the running fiber on its own stack, stores the identifier, event and parameter given into the next fiber and continues that fiber where it left off, with the stack pointer, callee-saved registers and floating-point control words it had; it writes nothing else. A fiber entered for the first time starts its entry function with its scheduler and itself as arguments, on its own correctly aligned stack, whatever the alignment of the stack's end, and a returning entry function ends the process with a failure code. Making a fiber leaves its creator's registers and stack as they were.",
     ["schedules", "inputs"], "every register content and stack position (symbolic), every alignment of a new stack's end, first entry and every later resumption",
     "A register or control word lost in a switch shows only when the compiler happens to keep something there.",
     ["src/fiber/platform/sysv/x86_64/fiber_switch.s", "src/fiber/platform/sysv/x86_64/fiber_make.s", "src/fiber/platform/sysv/x86_64/fiber_struct.inc", "src/fiber/common/fiber_internal.h"],
     [("switch", "src/fiber/platform/sysv/x86_64/fiber_switch.s"), ("first frame", "src/fiber/platform/sysv/x86_64/fiber_make.s")],
     "symbolic interpretation of the assembler routines' instructions against the C structure layout and the System V ABI",
     "Decided over symbolic register and memory contents; instructions the two routines do not use today and the interpreter does not know make the check give no verdict. Trusts GNU as and objdump.")
prop("F05", "A scheduler's service is set up once, whole or not at all, and ends with it",
     "The first mailbox, condition or fiber socket of a scheduler gives it that service: one discipline with the service's own identifier, context and handlers, and for sockets the idle fiber that waits for descriptors; every later use finds this one and sets up no second. A set-up that fails at any step leaves the scheduler without the service and keeps no memory, descriptor, tree or fiber. Releasing a service's discipline ends its context, its tree or descriptor and all its memory, each exactly once, and reports a failure. A socket wrapped for fibers is made non-blocking, keeps its kind and ends exactly once with its wrapper; other sockets are refused.",
     ["histories", "fault_sequences"], "a scheduler with or without the service, every step of the set-up failing in turn, every release failing in turn",
     "Tests set a service up once, on a fresh scheduler, with nothing failing; a half-made service shows only in the next use, or as a leak.",
     ["src/message/*.c", "src/condition/**/*.c", "src/psock/psock_create_wrap_async.c", "src/psock/psock_fiber_scheduler_discipline_create.c", "src/psock/platform/**/*.c"], [("set-up", "src/psock/psock_create_wrap_async.c, src/message/message_discipline_get_or_create.c"), ("end", "src/message/message_discipline_set_resource_release.c, src/psock/platform/epoll/psock_fiber_scheduler_discipline_set_resource_release.c")], SPEC, FIB)
prop("G01", "A message goes to exactly one receiver, in order, or stays with its sender",
     "Mailbox addresses are never zero, never reused while the discipline lives and found by exactly their value. A sent message goes to the fiber waiting at that mailbox, or else behind the messages already there, and the sender is then told so; on any failure it stays the sender's and the error is told. A receiver gets the oldest message or waits, at most one fiber waits at a mailbox, and other mailboxes and fibers are untouched. The functions entering the discipline return what it answered, an error when resumed by anything else, and hand out nothing on failure; a message and its payload are handed over, returned and released as documented.",
     ["schedules", "inputs", "fault_sequences"], "two mailboxes with symbolic distinct addresses, zero to two messages or a waiting fiber in each, every container and run-queue outcome, every answer to a request",
     "Tests exchange a few messages between two fibers; a message lost, duplicated or misdirected needs a particular interleaving, mailbox state or failing allocation.",
     ["src/message/*.c", "include/rcpr/message.h"], [("send and receive", "src/message/message_discipline_message_send_callback_handler.c, src/message/message_discipline_message_receive_callback_handler.c"), ("client side", "src/message/message_receive.c")], SPEC, FIB)
prop("G02", "A notification wakes exactly the fibers it is for, first come first served",
     "Condition handles are never zero, never reused while the discipline lives and found by exactly their value. A waiting fiber joins the end of that barrier's wait list and runs again only when notified; notifying one makes the longest-waiting fiber runnable, notifying all makes every one runnable in order, each once, and the notifier goes on after them. Other barriers and fibers are untouched, and releasing a barrier leaves the fibers waiting at it alone. The functions entering the discipline return what it answered, an error when resumed by anything else, and hand out nothing on failure.",
     ["schedules", "inputs", "fault_sequences"], "two barriers with symbolic distinct handles, zero to three waiting fibers, every container and run-queue outcome, every answer to a request",
     "Tests wake one or two fibers in one order; a lost or doubled wake-up needs particular wait lists or failures.",
     ["src/condition/*.c", "src/condition/fiber/*.c"], [("waiting and notifying", "src/condition/fiber/condition_discipline_*_callback_handler.c"), ("client side", "src/condition/conditional_wait.c")], SPEC, FIB)
prop("V01", "No method runs through a vtable that is not one of the library's",
     "With run-time vtable enforcement switched on, every operation that calls a method of an object (release, allocate, reclaim, reallocate, control, read, write, accept, sendmsg, recvmsg, setsockopt and all functions built on them) calls it only after that object's vtable was found to lie in the vtable section, and an operation that meets any other vtable returns an error without calling it. The membership test accepts exactly the addresses inside the section, and every vtable of the library is constant and lies in it.",
     ["inputs", "fault_sequences"], "every operation reaching a method call, compiled with enforcement, over unconstrained objects and both outcomes of each vtable check",
     "The tests are built without enforcement and only use genuine objects, so a missing or misplaced check is invisible to them.",
     ["include/rcpr/vtable.h", "src/resource/resource_release.c", "src/resource/resource_vtable_read.c", "src/allocator/*.c", "src/psock/*.c"],
     [("checks", "src/resource/resource_release.c, src/resource/resource_vtable_read.c, src/allocator/allocator_*.c"), ("membership test", "include/rcpr/vtable.h")],
     AI, "Trusts clang's IR and the linker's section bounds; the method table a user passes to psock_create_from_user_methods is the caller's own and is not judged.")
prop("A01", "Allocators hand out disjoint, aligned, large enough blocks or fail cleanly",
     "A block from the bump allocator lies inside its region behind the allocator itself, has at least the size asked for whatever that size is, is aligned to 16 bytes and overlaps no block handed out since the last reset; a request is refused only when it does not fit, and a reset makes the region available again. The malloc allocator yields exactly the block the C library gave for at least that size, frees exactly the block given and never loses one. A failing allocation sets the caller's pointer to NULL and a failing reallocation leaves it and its block as they were.",
     ["inputs", "histories", "fault_sequences"], "every region size, fill state and request size (split by residues modulo 16 and by wrap-around), every outcome of malloc and realloc",
     "The tests allocate a few small blocks from a large region; sizes near the end of the region or of the address space and failing calls do not occur.",
     ["src/allocator/*.c"], [("bump allocator", "src/allocator/bump_allocator_create.c"), ("malloc allocator", "src/allocator/malloc_allocator_create.c")],
     SPEC, "Trusts clang's IR and the C library's contract for malloc, realloc and free. The bump allocator's region is taken to start with the allocator, as its constructor arranges (checked).")
prop("R01", "An operation on an object runs that object's own method, once, unchanged",
     "Releasing a resource, allocating, reclaiming, reallocating or controlling through an allocator, and accepting or setting options on a psock call exactly the method found in that object's vtable, once, with the caller's arguments (and the object's own context), and return exactly what it returned; an object without that method is reported as such. A psock made from user-supplied methods passes each operation to the user's method in the same way. The resource handle of every object designates that object, and a resource's vtable is the one it was initialised with.",
     ["inputs", "histories"], "every dispatching operation and resource handle accessor, over an object with an unknown vtable",
     "Tests use one kind of object per operation and mostly ignore the arguments that reach its method.",
     ["src/resource/*.c", "src/allocator/allocator_*.c", "src/psock/psock_accept.c", "src/psock/psock_setsockopt.c", "src/psock/psock_create_from_user_methods.c"],
     [("release", "src/resource/resource_release.c"), ("allocation", "src/allocator/allocator_*.c")], SPEC, "Decided on every abstract path; the method is an unknown function with an unknown result. Trusts clang's IR.")
prop("T01", "Threads, mutexes, locks and conditions use exactly their own pthread object",
     "A created thread runs the user's function once with the user's context and the stack size asked for, even when it starts before thread_create returns; releasing it joins that thread and reports the status its function returned. A lock acquires its mutex and its release unlocks that mutex; waiting and signalling use the condition's own pthread condition, waiting with the mutex of the lock. Creation initialises and release destroys each object exactly once, and a system call that fails is reported with nothing lost.",
     ["inputs", "schedules", "fault_sequences"], "whole life cycles with the thread running before or after its creator returns, and each pthread call and allocation succeeding or failing",
     "Tests start a few well-behaved threads; a call that fails, or a thread that is faster than its creator, cannot be produced at will.",
     ["src/platform/pthread/thread/*.c", "include/rcpr/thread.h"], [("threads", "src/platform/pthread/thread/thread_create.c"), ("mutexes and conditions", "src/platform/pthread/thread/thread_mutex_create.c")],
     SPEC, "Trusts clang's IR and the pthread functions' contracts. Failure to reclaim memory while releasing is decided by E01.")
prop("T02", "Separate objects share no hidden state",
     "Everything an operation remembers lies in the objects its callers made: the library keeps no writable variable of its own that decides anything, and calls no function that answers from process-wide storage or changes a process-wide setting. So threads, and fibers or callbacks that interrupt an operation, cannot disturb each other through different objects.",
     ["schedules", "histories"], "every variable of static storage and every call of the library",
     "Needs two operations to overlap in one particular way; the tests run one at a time.",
     ["src/**/*.c", "include/rcpr/**/*.h"], [("per-object state", "src/**/*.c"), ("name resolution", "src/psock/psock_create_from_hostname_and_port.c")],
     "effect analysis of static storage and of calls with process-wide effects over the LLVM IR", "Decides by who writes and reads each variable, in any order. Trusts clang's IR and the table of libc functions with process-wide state.")
prop("P08", "Descriptor helpers move, map and close exactly the descriptors they name",
     "Moving descriptors puts each one at a descriptor at or above the threshold, closes its old one, reports the new one and disturbs no other open descriptor, wherever the descriptors lie. Mapping puts each file at its target, closes its old descriptor unless it is already in place and leaves all others alone. Closing the other descriptors leaves those up to the given one open and closes those above; making a descriptor non-blocking keeps its other flags, and a stack's memory is the whole mapping it was given. A system call that fails is reported.",
     ["inputs", "fault_sequences"], "descriptor tables with sources below, at and above the threshold or target, every system call failing in turn",
     "Tests move and map descriptors into empty ranges; overlaps with descriptors already open, and failing calls, are not produced.",
     ["src/socket_utilities/*.c"], [("moving", "src/socket_utilities/vsocket_utility_move_descriptors.c"), ("mapping", "src/socket_utilities/vsocket_utility_setfds.c")],
     SPEC, "Decided for the enumerated descriptor layouts. Trusts clang's IR and the contracts of dup2, fcntl and close. Sources and targets of one mapping are taken to be disjoint, which the documented use after moving ensures.")
prop("P07", "A buffer socket returns exactly the bytes that were written to it",
     "The output of a buffer socket is the concatenation of all data written to it, whatever the sizes of the writes, and each successful write reports that all of its bytes were written. A write that fails leaves what was written before in place, followed by at most a beginning of its own data, and the socket stays usable. Reading an input socket yields the caller's bytes in order, no read passes their end, and the end is reported as such; fetching output fails without touching the caller's variables, and releasing the socket gives everything back.",
     ["inputs", "histories", "fault_sequences"], "histories of up to three writes (two reads) whose sizes lie at and around every multiple of the internal buffer size, one allocation failing anywhere",
     "The tests write a few sizes once; a boundary between two internal buffers, or an allocation failing between them, is hit by few combinations.",
     ["src/psock/psock_from_buffer_*.c", "src/psock/psock_create_from_buffer.c", "src/slist/*.c"], [("writes", "src/psock/psock_from_buffer_write.c"), ("output", "src/psock/psock_from_buffer_get_output_buffer.c")],
     SPEC, "Decided for the enumerated sizes; bytes away from buffer boundaries are represented by zeroes. Trusts clang's IR.")
prop("I01", "An imported name is the function of that name",
     "Every name a public header's import macro introduces, with or without prefix, passes all of its arguments in order to the library function of the same name and returns its result; variadic names pass on their whole argument list. Every public function can be imported, every imported type is the type of its name, and every header that can be imported compiles on its own, as C and as C++.",
     ["inputs"], "every import macro of every public header, prefixed and bare",
     "Each import is a hand-written forwarding function; tests import a fraction of them, and an exchanged pair of arguments of the same type compiles.",
     ["include/rcpr/*.h"], [("imports", "include/rcpr/*.h")],
     "Queries over the optimised LLVM IR of a unit that instantiates every import macro, with compile-time witnesses for types and headers", "Trusts clang.")
prop("E03", "Every status code names one outcome",
     "Every error code has the error bit set and differs from every other code, success is zero, and the enumerators of each public enumeration differ from one another, as do the identifiers of the services a fiber scheduler can carry.",
     ["inputs"], "every status code and enumerator of the public headers",
     "Callers tell outcomes apart by code; tests compare with the same macros the library uses, so two that coincide pass.",
     ["include/rcpr/status.h", "include/rcpr/status/*.h"], [("codes", "include/rcpr/status/*.h")],
     "Constant evaluation of every status macro and enumerator by the compiler, compared pairwise", "Trusts clang.")
prop("E04", "No operation runs round in circles",
     "No operation, callback or method can come back to exactly a state it has been in, with nothing decided and nothing received from outside in between: it would never return to its caller or let another fiber run.",
     ["inputs", "histories"], "every loop of every public operation and installed callback, from any caller state, over all outcomes of what it calls",
     "A hang needs the one input or list shape that reaches the stuck iteration; the tests sample few, and a test that hangs says nothing about the others.",
     ["src/**/*.c"], [("loop", "src/rbtree/rbtree_find_node.c"), ("loop", "src/list/list_clear.c")],
     AI, "Finds exact repetition of a state, which is conclusive; a loop that changes its state forever (a counter stepping away from its bound) is left to the checks that follow loops to their end. Trusts clang's IR.")
prop("W01", "No size loses its upper part",
     "Buffers, strings, payloads, blocks and tables of any size a size_t can express are handled in full: no operation cuts a byte count or an element count down to fewer bits on its way, unless its value fits there. The length of boxed data and the codes of scheduler callbacks, which are 32 bits wide by their interfaces, are the only exceptions.",
     ["inputs"], "every conversion of a size_t or ssize_t value to a narrower type that a public operation or installed callback can reach, for every size the caller, a string or a system call can bring about",
     "The upper part matters only for sizes no unit test allocates; the compiler converts without a word.",
     ["src/**/*.c", "src/**/*_internal.h"], [("socket payloads", "src/psock"), ("strings", "src/string"), ("allocators and tables", "src/allocator, src/stack, src/bigint, src/fiber")],
     AI, "Counters that are incremented by one in a narrower type are not conversions and not covered. Trusts clang's IR and debug information.")
prop("K01", "What a caller hands in for reading only is never written to",
     "No operation, callback or method writes to the object behind an argument that its declaration promises only to read (text, payloads, keys, messages, addresses, identifiers), not even for a moment and whatever the outcome: the caller may keep it in read-only memory or share it with another thread.",
     ["inputs", "fault_sequences"], "every argument declared as a pointer to const, of every public operation and installed callback, from any caller state, over all outcomes of what it calls",
     "C lets a cast take the promise back silently; a test passes a writable buffer and looks at the result, not at the input, and certainly not at what happens to it in between.",
     ["include/rcpr/**/*.h", "src/**/*.c"], [("text", "src/string, src/uuid"), ("payloads", "src/psock/psock_write_*.c, src/psock/*_sendmsg.c")],
     AI, "The tree search (whose key is compared by the caller's own function) is in C04's models and not covered here. Trusts clang's IR and debug information.")
prop("C05", "Every signal of an auto-reset trigger reaches exactly one registered listener",
     "A step notifies the registered listener with its own context exactly when a signal is pending, and then forgets both; a signal without listener stays pending, a listener without signal stays registered, and a second listener is refused while one is registered. A signal or registration made during the notification counts for the next step. A trigger that cannot be created leaves the caller's pointer NULL.",
     ["inputs", "histories"], "every history of signals, steps and registrations (closure of the reachable states), with listeners that signal and register again",
     "Tests run a few sequences with listeners that do nothing to the trigger.",
     ["src/auto_reset_trigger/*.c"], [("step", "src/auto_reset_trigger/auto_reset_trigger_step.c")],
     SPEC, "Decided for histories of any length, since the reachable states close. Trusts clang's IR.")
prop("S01", "String helpers cut, trim, split and copy exactly where the characters say",
     "Trimming removes exactly the white space at the named ends, chomping exactly the last character; words and multisplit deliver every maximal run of non-separators once, in order, terminated and in place, and then the end of input. Splitting happens at the first delimiter and changes nothing when there is none. Prefix and suffix tests answer by the characters, duplicating and concatenating produce new terminated strings with exactly the characters given, and nothing beyond the string is touched.",
     ["inputs"], "every string up to four characters (six in the thorough tier) by character classes, each class member symbolic; every list of up to four strings for concatenation",
     "The tests use a few sentences; empty strings, strings of separators only and characters beyond ASCII decide the edge cases.",
     ["src/string/*.c"], [("trimming", "src/string/right_trim.c"), ("words", "src/string/words.c")],
     SPEC, "Decided for strings up to the stated length. Trusts clang's IR and the C library's string functions.")
prop("U01", "A UUID survives its text, and only the exact text form is a UUID",
     "Formatting yields the 36 character lower-case form of exactly these 16 bytes in a new string, and parsing accepts exactly the 36 character form with dashes in the four places and hexadecimal digits of either case elsewhere. Every other text (a wrong, missing or surplus character at any position, another length, no text at all) is refused without reading past it, and a refused text leaves the caller's UUID as it was.",
     ["inputs"], "every digit at every position, and every class of wrong character at every position, for both parsers and the formatter",
     "Tests parse a handful of texts; one position or one letter handled differently is missed by almost all of them.",
     ["src/uuid/*.c"], [("parsing", "src/uuid/rcpr_uuid_parse_string.c"), ("formatting", "src/uuid/rcpr_uuid_to_string.c")],
     SPEC, "Decided for every character at every position, one position at a time. Trusts clang's IR.")
prop("N01", "A failed call leaves the caller's output variables as documented",
     "Every constructor and accessor documented to set the caller's pointer to NULL on failure does so on every failing path, a failed pop leaves it NULL, and every operation documented to leave its outputs unchanged on failure (typed and raw reads, parsing, reallocation, waiting, child swaps, wrapping, fetching output) leaves each of them unchanged.",
     ["inputs", "fault_sequences"], "every failing exit of every operation with a documented failure result",
     "Failing paths need a particular allocation or system call to fail, and tests then look at the status only.",
     ["include/rcpr/*.h", "src/**/*_create*.c", "src/psock/psock_read_*.c"], [("constructors", "src/**/*_create*.c"), ("reads", "src/psock/psock_read_boxed_*.c")],
     AI, "Trusts clang's IR and the allocator contract. The contents of a raw data buffer after a partial read are not constrained.")
prop("P09", "A socket object uses, describes and ends exactly what it was made from",
     "A psock made from a descriptor reads and writes that descriptor and reports its true kind; connecting looks the name up, makes one stream socket of the family found and connects it to that address and port; listening binds one socket to the caller's address and then listens. A psock over user methods carries the caller's context and runs the release method once; a buffered reader reports the kind of the socket behind it and never ends it. Release closes the descriptor exactly once and returns all memory, and a failure at any step closes what was opened, keeps nothing and gives that step's error.",
     ["inputs", "fault_sequences"], "every constructor with every outcome of each lookup, system call and allocation, followed by release",
     "Tests connect over loopback and never see a call fail half way through a constructor.",
     ["src/psock/psock_create_*.c", "src/psock/psock_br_create_from_psock.c", "src/psock/psock_*_release.c"],
     [("connecting", "src/psock/psock_create_from_hostname_and_port.c"), ("listening", "src/psock/psock_create_from_listen_address.c")],
     SPEC, "Trusts clang's IR and the socket calls' contracts. Listening is judged for IPv4 addresses, the only family the library makes.")
prop("B01", "A big integer holds enough zero digits when made and the same digits when copied",
     "A new big integer has the least number of whole digits that holds the bits asked for, all zero, and is not negative; a copy has the same digits and sign in memory of its own, and the original is unchanged. Each belongs to the allocator given, its release returns both of its blocks, and a failed creation keeps nothing.",
     ["inputs", "fault_sequences"], "every bit size at and around digit and byte boundaries, copies with unconstrained digits, each allocation failing in turn",
     "Tests make one or two sizes; a rounding slip shows only just past a digit boundary.",
     ["src/bigint/*.c"], [("creation", "src/bigint/bigint_create_zero.c"), ("copy", "src/bigint/bigint_clone.c")],
     SPEC, "Decided for the enumerated sizes. Trusts clang's IR.")
