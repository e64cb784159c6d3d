I = "instructions/"
prop("C08", "Instruction trees execute as documented",
     "For every tree of the built-in compound and decorator instructions and every script of leaf results, each tick executes exactly "
     "the leaves that the documented semantics of Sequence, Fallback, ReactiveSequence, ReactiveFallback, Choice, UserChoice, Repeat, "
     "For, Listen, Inverter, ForceSuccess, Wait and the user instructions select, in that order, and every node's status and list of "
     "next instructions is the documented one after every tick. This includes repeated and invalid selections, failing initialisation, "
     "halting and resetting at any moment. For visits every element of its array, and Repeat, Choice and Condition take their number, "
     "indices or truth value, from variables or fields of any type, as they were when the execution began.",
     ["inputs", "histories"], "all trees over the built-in instructions, leaf result scripts and tick/reset/halt histories",
     "Each test runs one small tree once; statuses depend on the combination of nesting and history.",
     [I + "sequence.cpp", I + "fallback.cpp", I + "reactive_sequence.cpp", I + "reactive_fallback.cpp", I + "choice.cpp",
      I + "user_choice.cpp", I + "repeat.cpp", I + "for.cpp", I + "listen.cpp", I + "inverter.cpp", I + "force_success.cpp",
      I + "instruction.cpp"],
     [("Instruction::ExecuteSingle", I + "instruction.cpp"), ("CalculateCompoundStatus", I + "sequence.cpp")],
     "random trees and histories against a reference interpreter (shrinking)",
     "Trees of up to about a dozen nodes; independent interpreter written from the documentation.")
prop("C09", "Status notifications tell the true history of every instruction",
     "The user interface receives, for every instruction, exactly the sequence of its status changes: starting from not-started, each "
     "notification reports a change allowed by the life cycle (initialised or failed, then executing, then finished, and not-started "
     "again only by a reset), two threads never report the same instruction at once, and the last report always agrees with the status "
     "afterwards. Instructions execute only while reported as executing, never in two threads at once, also under parallel and "
     "asynchronous instructions.",
     ["schedules", "histories"], "all trees with parallel and asynchronous nodes and all thread interleavings",
     "Tests look at a few notifications of sequential trees.",
     [I + "instruction.cpp", I + "async_wrapper.cpp", I + "parallel_sequence.cpp", I + "async.cpp", "procedure/procedure.cpp"],
     [("Preamble, Postamble, Reset", I + "instruction.cpp"), ("AsyncWrapper::Tick", I + "async_wrapper.cpp")],
     "random trees under random controlled schedules with a protocol monitor; TSan stress",
     "Sampled schedules and trees of up to nine nodes.")
prop("C10", "A reset procedure behaves like a fresh one",
     "Resetting a procedure after any history, including interrupted, halted and failed executions, leaves nothing behind: all "
     "instructions are not started, all workspace variables have their initial values again, and from then on it behaves in every "
     "respect (statuses, executed leaves, variable values, user requests) as a newly created procedure.",
     ["histories"], "all procedures and all histories before the reset",
     "Tests reset after one complete execution at most.",
     ["procedure/procedure.cpp", I + "instruction.cpp", "procedure/workspace.cpp", I + "repeat.cpp", I + "for.cpp", I + "choice.cpp",
      I + "listen.cpp", I + "wait.cpp"],
     [("Procedure::Reset", "procedure/procedure.cpp"), ("ResetHook implementations", I + "repeat.cpp")],
     "metamorphic random testing: reset procedure against a fresh one",
     "Random procedures and histories; comparison of complete traces.")
prop("C11", "Halting stops every procedure",
     "A halt request, at whatever moment and from whatever thread, reaches every executing instruction of the tree: the execution "
     "returns, no instruction starts afterwards, instructions that wait for time, variables or the user stop waiting, threads of "
     "parallel and asynchronous children end, and the procedure counts as finished. A later reset clears the halt request everywhere "
     "and releases pending user requests.",
     ["schedules", "histories"], "all trees and all interleavings of execution and halt",
     "Tests halt a few single instructions at a convenient moment.",
     [I + "instruction.cpp", I + "compound_instruction.cpp", I + "decorator_instruction.cpp", I + "parallel_sequence.cpp",
      I + "async.cpp", I + "wait.cpp", I + "user_choice.cpp", I + "input.cpp", "runner/runner.cpp"],
     [("Instruction::Halt", I + "instruction.cpp"), ("Runner::Halt", "runner/runner.cpp")],
     "random trees with a halt at a random moment under random controlled schedules; TSan stress",
     "Sampled schedules; liveness is decided with a virtual clock (four seconds of virtual time).")
prop("C12", "Parallel and asynchronous children run concurrently to the right result",
     "ParallelSequence executes all its children at the same time without waiting for them, each until it finishes and never in two "
     "threads at once. It succeeds as soon as it is ticked with the success threshold of children succeeded, fails as soon as the "
     "failure threshold failed (thresholds limited as documented so that a result always exists), stays unfinished otherwise, and "
     "halts the remaining children when it finishes. Async executes its child in the background and takes over its status. Resetting "
     "either waits for the children and leaves none executing.",
     ["schedules", "inputs"], "all numbers of children, thresholds, child behaviours and interleavings",
     "Tests use fixed children and real waiting times.",
     [I + "parallel_sequence.cpp", I + "async.cpp", I + "async_wrapper.cpp"],
     [("ParallelSequence::CalculateCompoundStatus, InitThresholds", I + "parallel_sequence.cpp"),
      ("AsyncWrapper::Tick", I + "async_wrapper.cpp")],
     "random children, thresholds and controlled schedules against a counting oracle; TSan stress",
     "Up to five children per node; sampled schedules.")

prop("C13", "Runner honours steps, pauses and breakpoints",
     "A Runner ticks its procedure until it finishes, is halted, is paused or reaches a breakpoint. A single step executes exactly one "
     "tick; a pause takes effect before the next tick and is forgotten by the next execution. Execution stops before a tick whose next "
     "instructions include one with a set breakpoint, reports exactly those instructions as the current breakpoints, and continues "
     "through them once when it is resumed or stepped. Breakpoints can be set and removed at any time between executions; they never "
     "change which instructions execute in which order. This includes breakpoints in the branches of parallel and asynchronous "
     "instructions: a branch that is not finished does not go on past one, and one that is executing is not reported.",
     ["histories", "schedules"], "all procedures, breakpoint placements, thread schedules and histories of run, step, pause, halt and reset",
     "Tests use fixed procedures with one or two breakpoints.",
     ["runner/runner.cpp", "runner/breakpoint.cpp", "runner/breakpoint_manager.cpp", "instructions/parallel_sequence.cpp", "instructions/async_wrapper.cpp"],
     [("Runner::ExecuteProcedure, ExecuteSingle", "runner/runner.cpp"), ("ParallelSequence::NextInstructionsImpl", "instructions/parallel_sequence.cpp")],
     "random procedures and command histories against a reference runner; trees with parallel branches under controlled schedules, "
     "with an invariant over the history (no execution of a leaf with a breakpoint without a stop before)",
     "A breakpoint below Repeat is only demanded to stop the first repetition, see DESIGN.md.")

prop("C14", "AsyncRunner follows its commands through the documented states",
     "An AsyncRunner executes its procedure in the background under the commands start, step, pause, reset and halt. Commands are "
     "handled in the order they are given, except that a halt goes first and takes effect on executing instructions at once; a command "
     "that the current state does not allow is ignored. The monitor is told every change of state, only along the documented "
     "transitions, and the state agrees with the procedure: a step is one tick, a paused or finished job executes nothing, Succeeded "
     "and Failed follow the root status, a reset restores the initial state. Ticks of a running procedure are separated by its tick "
     "timeout and breakpoints pause the job. Destroying the runner ends everything it started.",
     ["schedules", "histories"], "all procedures, histories of commands and interleavings of commands with execution",
     "Tests give a few commands at convenient moments.",
     ["runner/async_runner.cpp", "runner/job_command_queue.cpp", "runner/job_states.cpp", "runner/runner.cpp"],
     [("AsyncRunner::HandleCommand and the handlers per state", "runner/async_runner.cpp"),
      ("JobCommandQueue::PriorityPush", "runner/job_command_queue.cpp")],
     "scripted command histories on a virtual clock against a reference model; racing clients against a state automaton under "
     "controlled schedules; TSan stress",
     "Sampled schedules; up to a few dozen commands.")
prop("C15", "LocalJob reports the whole job by index and forwards the user's input",
     "A LocalJob publishes one description of its procedure in which every instruction and variable has a unique index below the "
     "announced number. From then on it reports every change of an instruction's status or breakpoint, of a variable and of the job "
     "state, and the next instructions, under exactly these indices, in order and with current values. Requests for user input reach "
     "the user one at a time with fresh identifications, the reply goes to the instruction that asked, an abandoned request is "
     "interrupted, and destroying the job at any moment ends all its activity before the objects it uses.",
     ["schedules", "histories"], "all procedures, command histories, replies and interleavings",
     "Tests use fixed procedures and replies that come at once.",
     ["runner/local_job.cpp", "runner/job_interface_adapter.cpp", "runner/job_map.cpp", "base/async_input_adapter.cpp",
      "runner/job_info_utils.cpp"],
     [("JobInterfaceAdapter", "runner/job_interface_adapter.cpp"), ("AsyncInputAdapter::HandleRequestQueue", "base/async_input_adapter.cpp")],
     "scripted and racing clients of a job with user input under controlled schedules against a reference model; TSan stress",
     "Sampled schedules; the whole user interface is a generated stand-in.")

prop("C16", "Workspace variables are a typed store that reports every change",
     "A workspace keeps its variables under unique names in the order they were added. A value written to a variable, or to one of its "
     "fields, is read back until the next write; fields read and write exactly that part; a statically typed variable keeps its type "
     "and converts what is written; a read converts to the type asked for. A file variable holds what its file holds, resolved "
     "against the folder of the procedure, also for later readers, and is unavailable without a readable file. An operation that "
     "cannot be done says so and changes nothing. Listeners hear exactly the successful updates of what they registered for, with "
     "the new value, until their guard is gone.",
     ["inputs", "histories"], "all values and types, and all histories of additions, writes, reads, resets and listeners",
     "Tests write a few values of simple types.",
     ["procedure/workspace.cpp", "variables/variable.cpp", "variables/local_variable.cpp", "variables/file_variable.cpp"],
     [("Workspace::SetValue, GetValue, SplitFieldName", "procedure/workspace.cpp"),
      ("Variable::SetValue, GetValue", "variables/variable.cpp")],
     "model-based random histories against a reference store; AddressSanitizer",
     "Conversions between types are those of the dto library (a stand-in here); only which conversions are asked for is decided.")
prop("C17", "Setup and teardown of a workspace are complete and done once",
     "Setting up a workspace sets up every variable once and then calls each common setup action once for all variables that share its "
     "identifier; a second setup does nothing. Teardown, and likewise destruction, calls each common teardown action once and then "
     "tears every variable down. A variable that cannot be set up makes the setup fail with an exception, without common actions; so "
     "does a common setup action that throws; in both cases the workspace can be torn down and set up again. Variables that are not set up cannot be read, written or available. Resetting "
     "one variable affects only that variable.",
     ["histories", "fault_sequences"], "all sets of variables, identifiers, failures and histories of setup, teardown and reset",
     "Tests use one or two well-behaved variables.",
     ["procedure/workspace.cpp", "variables/variable.cpp", "variables/local_variable.cpp"],
     [("Workspace::Setup, Teardown, ParseSetupTeardownActions", "procedure/workspace.cpp")],
     "model-based random histories with instrumented variables and injected setup failures; AddressSanitizer",
     "Common teardown actions that throw are not generated.")
prop("C18", "Workspace variables can be used from several threads",
     "Concurrent reads and writes of variables and their fields behave as if done one after another: no torn or stale values, no lost "
     "update of a field, every write reported once, reports in the order of the writes, and no report after a listener left. Waiting "
     "for a variable to become available or unavailable succeeds as soon as it does, and fails after its timeout and not before.",
     ["schedules"], "all programs of concurrent accesses and all interleavings",
     "Tests hardly use a workspace from two threads.",
     ["procedure/workspace.cpp", "variables/variable.cpp", "named_callback_manager.h"],
     [("Variable::SetValue, GetValue, Notify", "variables/variable.cpp"), ("Workspace::WaitForVariable", "procedure/workspace.cpp")],
     "random concurrent programs under controlled schedules with a virtual clock, checked by invariants over the history; TSan stress",
     "Two to four threads; sampled schedules.")
prop("C19", "Instructions that change variables do what they say, or nothing",
     "Copy, AddElement, AddMember, Increment, Decrement, ResetVariable, CopyFromProcedure and CopyToProcedure change exactly the "
     "variable or field they name, in the workspace they name, to the documented value, with one update reported, and succeed; when "
     "an input is missing, of the wrong kind or cannot be written they fail, change nothing and log a warning or error that names them. Condition and VarExists change "
     "nothing and succeed exactly when the value is true, or readable. A reset instruction can be executed again with the same effect.",
     ["inputs", "histories"], "all values, types, field names and histories of such instructions, also between procedures in files",
     "Tests execute each instruction on a few values.",
     ["instructions/copy.cpp", "instructions/add_element.cpp", "instructions/add_member.cpp", "instructions/increment.cpp",
      "instructions/decrement.cpp", "instructions/condition.cpp", "instructions/var_exists.cpp", "instructions/reset_variable.cpp",
      "instructions/copy_from_procedure.cpp", "instructions/copy_to_procedure.cpp", "instructions/instruction.cpp"],
     [("ExecuteSingleImpl of each instruction", "instructions/"), ("Instruction::GetAttributeValue, SetValueFromAttributeName", "instructions/instruction.cpp")],
     "differential random histories: the instruction on one workspace, the documented operation on a twin workspace; AddressSanitizer",
     "The twin uses the Workspace functions decided by C16 and the value functions of the dto library (a stand-in).")
prop("C20", "Comparison instructions agree with the order of the values",
     "Equals succeeds exactly when both values are readable and equal. LessThan, LessThanOrEqual, GreaterThan and GreaterThanOrEqual "
     "succeed exactly when both are readable, comparable and in that order. All five are consistent with each other and with exchanged "
     "operands, change nothing, and give the same result when executed again. They complain exactly when a value cannot be read.",
     ["inputs"], "all pairs of values of all types, of whole variables and fields",
     "Tests compare a handful of pairs.",
     ["instructions/equals.cpp", "instructions/lessthan.cpp", "instructions/lessthanorequal.cpp", "instructions/greaterthan.cpp", "instructions/greaterthanorequal.cpp"],
     [("ExecuteSingleImpl of each instruction", "instructions/equals.cpp")],
     "random pairs of values against the order of the numbers, and metamorphic relations between the five instructions",
     "Which values of different types are equal or comparable is what the dto library (a stand-in) says.")
prop("C21", "Waiting instructions respect their timeout and see their condition",
     "Wait succeeds once its timeout has elapsed and not before, within the timing accuracy when it blocks; halting ends it. "
     "WaitForVariable and WaitForVariables succeed at the first execution at which the condition holds, are running before, and fail "
     "at the first execution at or after the timeout without it. Timeouts are literals or variables, between zero and the maximum; "
     "anything else is refused at setup, or fails at once. After a reset the time starts anew. Listen executes its child exactly when "
     "one of its variables has another value than when it last looked. The executions of a running procedure are separated by its tick "
     "timeout, other executions by nothing.",
     ["inputs", "histories"], "all timeouts, times of execution, halts, changes and availability of the variables",
     "Tests wait a few fixed times and cannot control the clock.",
     ["instructions/wait.cpp", "instructions/wait_for_variable.cpp", "instructions/wait_for_variables.cpp", "instructions/listen.cpp", "instructions/instruction_utils.cpp", "procedure/procedure.cpp", "runner/runner.cpp", "runner/async_runner.cpp"],
     [("Wait::InitHook, ExecuteSingleImpl", "instructions/wait.cpp"), ("WaitForVariable::CheckCondition", "instructions/wait_for_variable.cpp"),
      ("ConvertToTimeoutNanoseconds", "instructions/instruction_utils.cpp")],
     "model-based random histories under a virtual clock, aimed at the moment of the timeout; controlled schedules for halting",
     "Virtual time: the instructions see an exact clock, not a loaded machine.")
prop("C22", "Instructions that talk to the user deliver texts, values and replies",
     "Message, Log and Output hand exactly their text, severity and value to the user interface, or fail and say why. Input, "
     "UserConfirmation and UserChoice make one request with the documented content, are running until it is answered, and then act on "
     "the reply: store the value, succeed on the first option, or execute only the chosen child; an unusable or negative reply or a "
     "request that cannot be made fails with a warning. Halting or resetting withdraws the request. Texts come from literals or variables.",
     ["inputs", "histories"], "all texts, values, options, replies (also malformed ones), and times of reply, halt and reset",
     "Tests use a few well-formed replies that are there at once.",
     ["instructions/message.cpp", "instructions/log_instruction.cpp", "instructions/output.cpp", "instructions/input.cpp",
      "instructions/user_choice.cpp", "instructions/user_confirmation.cpp", "runner/user_interface.cpp", "base/user_input_request.cpp", "base/user_input_reply.cpp"],
     [("Input, UserChoice, UserConfirmation: InitHook, ExecuteSingleImpl", "instructions/input.cpp")],
     "model-based random histories with a scripted user interface whose replies come late, negative or malformed; AddressSanitizer",
     "Replies of a concurrent user are decided by C15 and the adapter property.")
prop("C23", "Attributes are validated against their definitions and constraints",
     "An instruction's, variable's or procedure's attributes are accepted exactly when every mandatory one is present, every literal "
     "one can be read as its type and every constraint (exists, fixed type, and, or, xor, not) holds; each failing one is reported. "
     "Valid attributes then have exactly the value of their text, or of the variable they name. Placeholders are replaced by the "
     "attribute they name, or a failure is reported. Constraints and definitions can be copied and moved without change of meaning.",
     ["inputs", "histories"], "all attribute lists, definitions, nested constraints, and sequences of additions and changes",
     "Tests evaluate single constraints on a few attribute lists.",
     ["attributes/attribute_handler.cpp", "attributes/attribute_validator.cpp", "attributes/attribute_utils.cpp", "attributes/concrete_constraints.cpp",
      "attributes/constraint.cpp", "attributes/attribute_definition.cpp", "instructions/instruction.cpp", "instructions/instruction_helper.cpp"],
     [("AttributeHandler::ValidateAttributes", "attributes/attribute_handler.cpp"), ("Exists, FixedType, Xor, Or, And, Not", "attributes/concrete_constraints.cpp"),
      ("Instruction::GetAttributeValue", "instructions/instruction.cpp")],
     "random rules against a truth-table model; stateful histories of the handler and of custom instructions; AddressSanitizer",
     "Whether e.g. 'true' can be read as a number is left to the JSON parser of the dto library.")
prop("C24", "Procedure files are parsed faithfully or refused, and can be written back",
     "A parsed procedure has exactly the instructions, children, attributes, variables, plugins and type registrations of its file, "
     "in their order; its root is the only or marked instruction. Unknown elements, children of leaves, second children of "
     "decorators, nameless or duplicate variables and bad preambles are refused with an exception that explains it. The text of a "
     "procedure, also one that was edited, parses to the same procedure. Types are registered in order, from files next to the procedure.",
     ["inputs", "histories"], "all trees of elements, attribute values with any characters, mistakes at any place, and edits",
     "Tests parse and write a few small files.",
     ["parser/procedure_parser.cpp", "parser/instruction_parser.cpp", "parser/variable_parser.cpp", "parser/sequence_parser.cpp",
      "parser/procedure_to_treedata_utils.cpp", "procedure/procedure.cpp", "procedure/procedure_preamble.cpp"],
     [("ParseProcedure", "parser/procedure_parser.cpp"), ("ToTreeData", "parser/procedure_to_treedata_utils.cpp"),
      ("Procedure::SetupPreamble, ResolveRelativePath", "procedure/procedure.cpp")],
     "random documents compared element by element with the parsed procedure, round trips after random edits, planted mistakes",
     "The XML reader and writer and the JSON type parser are stand-ins for those of the libraries used.")
prop("C25", "Included instructions behave as if they were written in place",
     "Include and IncludeProcedure find the instruction at the given path, in the given file relative to the file they are written "
     "in, and behave exactly as a copy of it with all placeholders replaced, at any depth. Include uses the workspace it is executed "
     "in, IncludeProcedure the one of the file, which is shared by all that use it and reset with the procedure. A path, file or "
     "placeholder that does not exist, and an include that leads back to itself, are refused at setup.",
     ["programs", "inputs"], "all sets of files with templates that include each other, with placeholders, paths and mistakes",
     "Tests include one or two fixed files.",
     ["instructions/include.cpp", "instructions/include_procedure.cpp", "instructions/instruction_helper.cpp", "procedure/procedure_context.cpp",
      "procedure/procedure_store.cpp", "procedure/procedure.cpp"],
     [("Include::SetupImpl", "instructions/include.cpp"), ("IncludeProcedure::SetupImpl, ExecuteSingleImpl", "instructions/include_procedure.cpp"),
      ("ProcedureStore::LoadProcedure", "procedure/procedure_store.cpp")],
     "random sets of files, differential against the expanded procedure without includes: same tree, messages, results and variables",
     "Two different spellings of the same file name are two files to the code; the generator uses one spelling per file.")
prop("C26", "Malformed procedures are refused at setup, others are executed safely",
     "Setup of a procedure ends with an instruction, variable or procedure setup exception exactly when it is malformed: a missing "
     "or unreadable attribute, a wrong number of children, an unknown variable, file or instruction. A procedure that passes can be "
     "executed, halted and reset any number of times, in any order, with any replies of the user and any values in its variables: "
     "no exception escapes, no memory error or undefined behaviour occurs, and all its threads end.",
     ["programs", "inputs", "fault_sequences"], "all procedures over all instructions and variables, and all mistakes in them",
     "Tests execute procedures that make sense.",
     ["instructions", "procedure/procedure.cpp", "workspace/workspace.cpp", "attributes/attribute_handler.cpp"],
     [("Procedure::Setup", "procedure/procedure.cpp"), ("Instruction::Setup, ExecuteSingle", "instructions/instruction.cpp")],
     "random procedures over a table of all instructions, with planted mistakes, executed with an adversarial user; AddressSanitizer",
     "The table of attributes is that of the documentation.")
prop("C27", "Job descriptions, requests and replies are faithful and survive transport",
     "The description of a job has exactly the procedure's name, instructions, categories, attributes, children and variables in their "
     "order, with indices that cover each range once and agree with the instruction and variable maps. Converted to a value and back "
     "it is equal, as are instruction states; copies and moves keep all of it. A value with a missing, misnamed or mistyped field or "
     "inconsistent indices is refused with an exception. User requests and replies parse to what they were made of, and as nothing else.",
     ["inputs", "fault_sequences"], "all procedures, descriptions, requests and replies, and all corruptions of their values",
     "Tests convert a few fixed descriptions.",
     ["runner/job_info.cpp", "runner/job_info_utils.cpp", "runner/instruction_info.cpp", "runner/instruction_info_utils.cpp", "runner/variable_info.cpp",
      "runner/variable_utils.cpp", "runner/workspace_info.cpp", "runner/instruction_map.cpp", "runner/variable_map.cpp", "runner/instruction_state.cpp",
      "instructions/instruction_tree.cpp", "base/user_input_request.cpp", "base/user_input_reply.cpp"],
     [("CreateJobInfo, ToJobInfo, ToAnyValue", "runner/job_info_utils.cpp"), ("ValidateInstructionInfoTree", "runner/instruction_info.cpp"),
      ("InstructionMap", "runner/instruction_map.cpp"), ("ParseUserChoiceRequest", "base/user_input_request.cpp")],
     "random procedures and descriptions, round trips, single faults in their values against an independent reader; AddressSanitizer",
     "Unknown instruction categories in a value may be accepted or refused.")
prop("C28", "User requests are answered one by one and replies reach who asked",
     "Requests handed to the input adapter by any threads are given to the user one at a time, each at most once, in the order they "
     "were made, as soon as the user is free. The future of a request becomes ready exactly when its own reply is there, waiting for it "
     "ends at that moment or after its timeout, and the reply can be taken once. A withdrawn request is not given to the user any "
     "more, or the user is told to give up; other requests are not affected. Destroying the adapter ends the request being handled.",
     ["schedules", "histories"], "all interleavings of asking, waiting, taking, withdrawing and answering",
     "Tests have one thread and one request at a time, with a user that needs a fixed time.",
     ["async_input_adapter.h", "base/async_input_adapter.cpp", "base/i_user_input_future.cpp"],
     [("AsyncInputAdapter::HandleRequestQueue", "base/async_input_adapter.cpp"), ("AsyncInputAdapter::CancelInputRequest, WaitForRequestReady", "base/async_input_adapter.cpp")],
     "random controlled schedules in virtual time with a history oracle; TSan stress",
     "An input function that throws is not covered.")
prop("C29", "The programs run the given procedure, show what it says and report how it ended",
     "The command line program and the daemon execute the procedure in the given file: its messages, values, logged lines (up to the "
     "chosen verbosity) and questions appear in the order of execution, each question takes one line of input, a number, text or choice "
     "is taken as it was typed if it is in range for its type and refused with a logged error otherwise, and the final state of the "
     "procedure is reported. A procedure that is missing, malformed or only to be validated is not executed: an error and exit code 1, "
     "or a confirmation, follow.",
     ["programs", "inputs"], "all procedures, lines typed by the user and command line options",
     "There are no tests of the programs.",
     ["src/app/oac-tree-cli/cl_interface.cpp", "src/app/oac-tree-cli/main.cpp", "src/app/oac-tree-daemon/daemon_interface.cpp",
      "src/app/oac-tree-daemon/main.cpp", "base/application_utils.cpp", "base/log_severity.cpp"],
     [("CLInterface::GetUserValue, GetUserChoice", "src/app/oac-tree-cli/cl_interface.cpp"), ("main", "src/app/oac-tree-cli/main.cpp"),
      ("DaemonInterface::Log", "src/app/oac-tree-daemon/daemon_interface.cpp"), ("SafeParseProcedure", "base/application_utils.cpp")],
     "random procedures and typed lines run through the programs' main functions, against a model of their whole output; AddressSanitizer",
     "The system log is replaced by a recorder. Text after a number on the same line is not generated.")
prop("C30", "Everyone who waits for a state of a job is woken up when the job gets there",
     "Any number of threads that wait with a job-state monitor, for the end of the job or for one state with a time limit, at any times, "
     "return as soon as such a state is current, and only with a state that was current while they waited; a wait is given up exactly "
     "when its time is over without the state having been reached for any time.",
     ["schedules", "histories"], "all interleavings of state changes and waits of several threads",
     "Tests have one waiting thread.",
     ["application_utils.h", "base/application_utils.cpp"],
     [("SimpleJobStateMonitor::OnStateChange, WaitForFinished, WaitForState", "base/application_utils.cpp")],
     "random controlled schedules in virtual time with a history oracle; TSan stress",
     "State changes are made by one thread, as by the runner of a job.")
prop("C31", "Procedures built and edited by a program are what they were made to be",
     "Any sequence of creating, inserting, appending, replacing, taking, cloning and naming instructions and setting attributes, also "
     "between executions, leaves exactly the tree that the accepted edits describe: refused edits change nothing and lose no "
     "instruction, nothing is leaked or deleted twice, the root is found by its rules, and the procedure executes like the same "
     "procedure read from a file and like a clone of it. Registries create what was registered under a name and refuse the rest. Attributes of "
     "instructions, variables and procedures are kept in order; adding one that is there is refused and changes nothing, while the others of a list are added. Trees "
     "of instructions and attribute definitions are values that can be copied, moved and assigned.",
     ["histories", "inputs"], "all histories of edits, registrations, copies and moves",
     "Tests insert or take one or two instructions and never execute an edited procedure, or assign to a moved-from object.",
     ["instruction.h", "instructions/instruction.cpp", "instructions/compound_instruction.cpp", "instructions/decorator_instruction.cpp",
      "procedure/procedure.cpp", "procedure/procedure_context.cpp", "instructions/instruction_tree.cpp",
      "instructions/instruction_registry.cpp", "variables/variable_registry.cpp", "attributes/attribute_definition.cpp"],
     [("CompoundInstruction::InsertInstructionImpl, TakeInstructionImpl", "instructions/compound_instruction.cpp"),
      ("CloneInstructionTree", "procedure/procedure_context.cpp"), ("Procedure::RootInstruction", "procedure/procedure.cpp"),
      ("InstructionTree", "instructions/instruction_tree.cpp"), ("AttributeDefinition::operator=", "attributes/attribute_definition.cpp")],
     "stateful random edits against a reference tree; executions compared with the parsed and the cloned procedure; AddressSanitizer",
     "Instructions are created by the global registry, on one thread.")
prop("C32", "Helpers for questions, directories and plugins do what they say",
     "A helper that asks the user asks once, exactly what it was given, waits until the answer is there, returns it if it is an accepted "
     "answer of the right kind and a failure otherwise, logs one error if nobody can be asked, and is over soon after its instruction is "
     "halted. Metadata of dialogues are recognised by the types of their fields. A directory is reported as created exactly if it is "
     "there afterwards, with all its parents and nothing else changed. Plugins are loaded once, in order and before the instructions of "
     "the procedure are created, and a missing one is an error.",
     ["inputs", "histories", "schedules"], "all replies, times of replies and halts, metadata, path names and histories of libraries",
     "Tests have one reply, one directory and no plugin that exists.",
     ["user_interface.h", "runner/user_interface.cpp", "base/generic_utils.cpp", "base/user_input_reply.cpp", "base/user_input_request.cpp",
      "parser/sequence_parser.cpp", "parser/procedure_parser.cpp"],
     [("GetBlockingUserValue, GetBlockingUserChoice, GetInterruptableUserChoice, IsUserChoiceMetadata", "runner/user_interface.cpp"),
      ("CreateDir, LoadLibrary, UnloadLibrary", "base/generic_utils.cpp"), ("ParsePreamble", "parser/procedure_parser.cpp")],
     "random scripted answers, path names compared with a reference for mkdir -p in scratch directories, and libraries that report when "
     "they are loaded, against models; controlled schedules of answers and halts in virtual time; AddressSanitizer",
     "The checks run as root, so that missing permissions are not explored.")

prop("C33", "Repeated use neither uses up memory nor threads nor files",
     "Whatever is done again and again - executing and resetting a procedure, ticking an endless loop, reading documents (also ones that "
     "are refused), asking the user (answered, dropped or cancelled), registering and removing listeners, setting workspaces up and "
     "tearing them down, starting, halting and resetting jobs - leaves neither objects nor memory nor threads nor open files behind "
     "that grow with the number of repetitions. Requests to the user never share their number.",
     ["histories"], "all trees, documents, requests, workspace and job histories, repeated without bound",
     "Tests use each object a few times; what is left behind each time is too small to notice, while a procedure runs for weeks.",
     ["runner/runner.cpp", "runner/local_job.cpp", "procedure/procedure.cpp", "procedure/workspace.cpp", "base/async_input_adapter.cpp",
      "named_callback_manager.h", "instructions/parallel_sequence.cpp"],
     [("AsyncInputAdapter::GetReply, CancelInputRequest", "base/async_input_adapter.cpp"),
      ("NamedCallbackManager::UnregisterListener", "named_callback_manager.h"), ("Workspace::Setup, Teardown", "procedure/workspace.cpp")],
     "random rounds of use repeated up to hundreds of times with counting global allocation functions and counts of threads and open "
     "files; the least use of late rounds is compared with the greatest of early ones",
     "Memory that a dependency allocates with malloc is not counted. Growth by fewer than three objects in four rounds is not seen.")

prop("C34", "A procedure does the same whichever way it is executed",
     "For every procedure without concurrency, the instructions that are executed, what they see and change, every status report, "
     "message and value shown, the variables at the end and the result are the same whether it is ticked by hand, executed by a Runner, "
     "an AsyncRunner or a LocalJob, at once, step by step or stopped by pauses and breakpoints at any moment and continued, the first "
     "time or after a reset, and as it was read or after its text was written and read again. An execution stops before its end only "
     "if it was paused or reached a breakpoint.",
     ["inputs", "histories", "schedules"], "all sequential procedures, ways of executing them and interruptions",
     "Tests run one procedure in one way; what an interruption disturbs depends on where it comes.",
     ["runner/runner.cpp", "runner/async_runner.cpp", "runner/local_job.cpp", "runner/breakpoint_manager.cpp", "runner/job_interface_adapter.cpp",
      "procedure/procedure.cpp", "parser/sequence_parser.cpp"],
     [("Runner::ExecuteProcedure, ExecuteSingle", "runner/runner.cpp"), ("AsyncRunner::RunProcedure, StepProcedure", "runner/async_runner.cpp"),
      ("BreakpointManager::HandleBreakpoints", "runner/breakpoint_manager.cpp")],
     "metamorphic: random procedures executed by hand and in another way with random interruptions under controlled schedules; the "
     "recorded histories must be equal",
     "Procedures that end within 120 ticks; those that ask the user are not compared as jobs.")

prop("C35", "Several procedures in one process do not influence each other",
     "Procedures that are executed in the same process at the same time - taking turns in one thread, each in a thread of its own, or "
     "each by an AsyncRunner - each execute the same instructions, see and change the same values, make the same reports and end with "
     "the same variables and result as they do alone, and there is no data race between them: nothing is shared between procedures "
     "except the registries of instruction and variable types.",
     ["inputs", "histories", "schedules"], "all sets of procedures and all ways in which their executions are interleaved",
     "Tests execute one procedure at a time; a function's static or shared variable goes unnoticed until another procedure uses it too.",
     ["procedure/procedure.cpp", "procedure/workspace.cpp", "runner/runner.cpp", "runner/async_runner.cpp",
      "instructions/compound_instruction.cpp", "instruction_registry.h", "instructions/instruction_registry.cpp"],
     [("Procedure::ExecuteSingle, GetInstructions", "procedure/procedure.cpp"), ("Runner::ExecuteProcedure", "runner/runner.cpp"),
      ("AsyncRunner::RunProcedure", "runner/async_runner.cpp")],
     "metamorphic: two to four random procedures executed alone and together, by turns and under controlled schedules of threads; the "
     "recorded histories must be equal; ThreadSanitizer",
     "Procedures that end within 120 ticks, at most four at a time.")
