ORACLE = "Trusts the reference model (mc/model) and the Go toolchain; bounds are in the evidence file. "
NOTE["C01"] = ("explicit-state exhaustive enumeration of positions, counts and values on the real code against a reference model", "Every execution within the bounds is run on the real code and compared with the model. " + ORACLE + "Values of 64-bit types are enumerated by structure (bits, pairs of bits, exponents), not all 2^64.")
NOTE["C02"] = ("explicit-state exhaustive enumeration of bit positions, counts, data and contents on the real code against a reference model", "Every execution within the bounds is run on the real code and compared with the model. " + ORACLE)
NOTE["C03"] = ("explicit-state exhaustive enumeration of ranges and capacity histories on the real code against a reference model", "Every execution within the bounds is run on the real code and compared with the model. " + ORACLE)
TWIN = "The oracle is the code itself, run beside a second instance (differential), so nothing but the property's own relation is judged; bounds are in the evidence file. "
SCHED = "Stateless exploration of the real code: an overlay puts a scheduling point before every statement and replaces the locks, and every schedule within the preemption bound is run (no reduction, no sampling). "
NOTE["C04"] = ("bounded exhaustive enumeration of refused calls, each compared with a twin that never saw it, on the real code", "Every refusal within the bounds is followed by every single later operation and by long sequences. " + TWIN + "Locks that stay held show through a replacement of package sync in the build.")
NOTE["C05"] = ("explicit-state exhaustive enumeration of cursors, counts and short histories on the real code, cursor-relative calls compared with positioned twins", "Every execution within the bounds is run. " + TWIN + "Counts beyond 2^16 and cursors are taken around powers of two.")
NOTE["C06"] = ("explicit-state exhaustive enumeration of cursors, arguments and histories on the real code against a reference model", "Every execution within the bounds is run on the real code and compared with the model. " + ORACLE)
NOTE["C07"] = ("bounded exhaustive enumeration of capacity histories on the real code against a reference model", "Every history within the bounds is run on the real code. " + ORACLE)
NOTE["C08"] = ("bounded exhaustive enumeration of histories that mix buffer operations with changes to the user's slices, on the real code against a model of memory sharing", "Every history within the bounds is run on the real code. " + ORACLE)
NOTE["C09"] = ("exhaustive enumeration of merges of two operation sequences, and stateless schedule exploration under a controlled scheduler with the race detector, on the real code", SCHED + TWIN + "Data races are judged in every explored schedule by the Go race detector with the scheduler's hand-offs hidden from it.")
NOTE["C10"] = ("bounded exhaustive enumeration of histories run on the checked and the mini buffer in lockstep (real code against real code)", "Every accepted history within the bounds is replayed on the mini buffer and compared after every step. " + TWIN)
NOTE["C11"] = ("bounded exhaustive enumeration of histories run on all major versions in lockstep (real code against real code)", "Every common history within the bounds is compared after every step. " + TWIN + "Which operations correspond to each other is a fixed table.")
NOTE["C12"] = ("explicit-state exhaustive enumeration of zero-length operations from every small state on the real code", "Every execution within the bounds is run; before and after states are compared. The number of ways to pass a zero length (nil, empty, with room) is enumerated.")
NOTE["C13"] = ("stateless model checking of thread interleavings of the real code under a controlled scheduler with a preemption bound; linearizability against one-at-a-time runs", SCHED + "Every outcome is compared with all one-at-a-time orders of the same calls, run on the same code. Assumes statements are atomic, which C14's race detection justifies.")
NOTE["C14"] = ("stateless model checking of thread interleavings of the real code under a controlled scheduler with a preemption bound; happens-before race detection and deadlock detection in every schedule", SCHED + "Go's race detector judges every schedule by the synchronization of the code under test only; deadlocks are states in which no thread can run.")
NOTE["C15"] = ("explicit-state exhaustive enumeration of outputs' previous values and requests on the real code, compared with fresh outputs", "Every execution within the bounds is run. " + TWIN)
NOTE["C16"] = ("stateless model checking of thread interleavings of locked groups of the real code under a controlled scheduler with a preemption bound; serializability of groups and happens-before race detection", SCHED + "Every outcome is compared with all orders of the groups run on the same code; TryLock in another goroutine at every point shows whether an operation touches the lock.")
NOTE["C19"] = ("bounded exhaustive enumeration of histories with and without inserted reads and queries on the real code", "Every insertion within the bounds is compared with the same history without it. " + TWIN)
NOTE["C20"] = ("explicit-state reachability to a fixpoint over the real code's states, every view compared with a reference model in each state", "All states reachable within the size limits are visited, identified by the buffer's full memory (hidden fields included). " + ORACLE)
NOTE["C17"] = ("exhaustive enumeration of directives and their contexts through the real generator, then explicit-state enumeration of the emitted methods against a reference model and in lockstep with the committed package", "Every directive over the argument alphabet is generated and compiled; emitted code is run, not read. " + ORACLE)
NOTE["C18"] = ("bounded exhaustive exploration of directory states, histories of runs and iteration orders on the real generator binary, against a model of its output", "Every scenario within the bounds is run in a scratch directory and everything in it compared. Orders of map iteration and directory listing are enumerated by depth-first search on a build in which the explorer chooses them.")
