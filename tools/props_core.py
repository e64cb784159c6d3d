prop("C01", "Job command queue is FIFO with priority overtaking",
     "For every history of operations the command queue behaves as a sequence: a normal push appends, "
     "a priority push is accepted exactly when the queue is empty or the command ranks strictly above "
     "the first command, in which case its action runs exactly once and the command becomes the first "
     "one (unless the action throws, which its caller sees), and otherwise nothing changes. Retrieval takes the first command, and size and emptiness "
     "always agree with the commands accepted and not yet retrieved.",
     ["histories", "inputs"], "all operation histories over all commands",
     "Two fixed histories are tested; order, refusal and action behaviour depend on the whole queue "
     "content.",
     ["job_command_queue.h", "runner/job_command_queue.cpp", "runner/job_commands.cpp"],
     [("JobCommandQueue::PriorityPush", "runner/job_command_queue.cpp"),
      ("operator<=(JobCommand, JobCommand)", "runner/job_commands.cpp")],
     "model-based random operation histories (shrinking)",
     "Random histories against a deque model; sampled, not exhaustive.")
prop("C02", "Job command queue is linearizable and never loses a wake-up",
     "When several threads use the command queue at once, every operation takes effect atomically "
     "between its call and its return: no command is lost, duplicated or reordered against the "
     "sequential rules, and no access is a data race. A thread blocked waiting for a command is woken "
     "whenever a command is available to it, whatever the schedule and spurious wake-ups. The action "
     "of an accepted priority push has completed before its command can be retrieved by anyone.",
     ["schedules", "histories"], "all interleavings of operations of any number of threads",
     "The tests call the queue from one thread only.",
     ["job_command_queue.h", "runner/job_command_queue.cpp"],
     [("mutex and condition variable of JobCommandQueue", "runner/job_command_queue.cpp")],
     "random controlled schedules with linearizability oracle; TSan stress",
     "Schedules are sampled with preemption at synchronisation and memory accesses under sequential "
     "consistency; weak memory effects are covered only as data races seen by ThreadSanitizer.")
prop("C03", "Scope guards run their function exactly once",
     "A function handed to a scope guard runs exactly once: when the guard that finally holds it ends "
     "or is assigned another one, on normal exit and on exceptions alike, whatever sequence of moves, "
     "self moves and swaps transferred it. A guard that was moved from or created without function is "
     "reported as invalid and does nothing.",
     ["histories"], "all histories of guard construction, moves, swaps and destruction",
     "Three fixed scenarios are tested.",
     ["scope_guard.h", "base/scope_guard.cpp"],
     [("ScopeGuard move operations and destructor", "base/scope_guard.cpp")],
     "model-based random histories under ASan/UBSan",
     "Random histories over a few guards and a vector of guards against a token model.")
prop("C04", "Named callbacks are delivered exactly to the registered listeners",
     "Executing callbacks for a name calls every callback registered for that name and every generic "
     "callback exactly once, in registration order among each kind, with exactly the given arguments "
     "(and the name for generic ones), and calls nothing else. Unregistering a listener, explicitly or "
     "through a guard, removes all of its callbacks and only those and reports whether there were any; "
     "empty functions are refused, and a callback that throws leaves the manager usable and unchanged; managers are independent, a callback may use another one.",
     ["histories", "inputs"], "all histories of registration, unregistration and execution",
     "Tests cover a few registrations with one listener each and one argument type.",
     ["named_callback_manager.h"],
     [("NamedCallbackManager", "named_callback_manager.h")],
     "model-based random histories over four parameter lists",
     "Random histories against a list model, four template instantiations.")
prop("C05", "Callback registration is safe against concurrent execution",
     "With threads registering, unregistering and executing callbacks at the same time there is no "
     "data race, and every execution calls each matching callback that stayed registered throughout "
     "exactly once. Once unregistering a listener (explicitly or by ending its guard) has returned, "
     "none of its callbacks is running or will ever run, and an execution meanwhile calls all of them or none. Callbacks of one "
     "manager run one at a time. Threads may share listeners: what the operations report agrees with executing them one after "
     "another, in an order that respects the order of the calls.",
     ["schedules", "histories"], "all interleavings of registrations, unregistrations and executions",
     "The tests are single threaded.",
     ["named_callback_manager.h", "base/scope_guard.cpp"],
     [("mutex held during execution of callbacks", "named_callback_manager.h")],
     "random controlled schedules with history oracle and linearizability check; TSan stress",
     "Sampled schedules under sequential consistency plus ThreadSanitizer stress.")
prop("C06", "Status, state, command and severity vocabularies are consistent",
     "Execution statuses and job states are classified as finished, executing, ready and needing "
     "execution exactly as documented, for every value; each has its documented name, and names are non-empty "
     "and unambiguous, also for out-of-range values. Log severities and their names convert to each other without loss and every "
     "other string is recognised as unknown. Job commands are totally ordered from start up to "
     "terminate. Several threads may ask at once, also when nobody asked before.",
     ["inputs", "schedules"], "all enumeration values, arbitrary integers and strings",
     "Tests sample names only and never the predicates or unknown values.",
     ["execution_status.h", "procedure/execution_status.cpp", "runner/job_states.cpp",
      "base/log_severity.cpp", "runner/job_commands.cpp"],
     [("StatusToString, IsFinishedStatus, ...", "procedure/execution_status.cpp"),
      ("IsFinishedJobState", "runner/job_states.cpp"),
      ("SeverityString, GetSeverityFromString", "base/log_severity.cpp")],
     "generated values against the documented tables; TSan stress",
     "The defined values are covered completely, other integers and strings are sampled.")
prop("C07", "Preambles, exceptions and breakpoints preserve their content",
     "A procedure preamble returns exactly the type registrations and plugin paths added to it, in "
     "order, and copies of it are independent. Each exception type can be caught as itself and as its "
     "bases and no other type, and reports the message it was created with however it is copied or "
     "rethrown; a breakpoint keeps its instruction and the last status set.",
     ["inputs", "histories"], "all messages, registrations and histories of additions and copies",
     "No test covers these value types beyond a single use.",
     ["procedure_preamble.h", "procedure/procedure_preamble.cpp", "exceptions.h",
      "base/exceptions.cpp", "breakpoint.h", "runner/breakpoint.cpp"],
     [("ProcedurePreamble", "procedure/procedure_preamble.cpp"),
      ("MessageException", "base/exceptions.cpp"), ("Breakpoint", "runner/breakpoint.cpp")],
     "model-based random histories under ASan/UBSan", "Sampled histories and byte strings.")
