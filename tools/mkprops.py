#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe or ["public API return values in every process that takes part"],
         "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

ASY = "src/asynchronous.rs"; INT = "src/platform/unix/internals.rs"; SUB = "src/platform/unix/subprocess.rs"
ENT = "src/platform/unix/entry.rs"; SER = "src/serde.rs"; BUI = "src/builtins.rs"; DER = "crossmist-derive/src/lib.rs"

p("C01", "Channels deliver exactly the sent values, whole and in order",
  "On any channel or duplex direction, the values a receiver obtains are exactly the values passed to successful sends, each exactly once, in the order sent, with every byte and every attached handle unchanged. This holds whatever the size of the value in bytes and in handles, for plain-data and structured element types, for every mix of blocking, tokio and smol ends, and for both directions of a duplex independently.",
  ["inputs", "schedules", "histories"],
  "every sequence of sends and receives, every value size (in particular around multiples of the transport's packet limits for bytes and for handles), every interleaving of sender and receiver, all runtimes",
  "The tests send a few small values plus one large vector in lock-step; they never sweep sizes around packet boundaries, large handle counts, fast senders against slow receivers, or mixed runtimes, and smol channels are never executed.",
  [INT, ASY, "src/blocking.rs", "src/tokio.rs", "src/smol.rs"],
  [("fragmentation of one value into packets with an end marker", INT + " SingleObjectSender::send_next"),
   ("reassembly", INT + " SingleObjectReceiver::recv_next")],
  [("data_pos/fds_pos", "how much of the current value is already transferred", INT)])

p("C02", "End of stream is reported exactly when no more data can arrive",
  "A receive reports end-of-stream only after every value sent before has been received and every copy of the opposite end, in any process or in flight, is gone; and once that is so it does report it instead of hanging or failing, even if the departing side left data unread. A send whose receiving side is entirely gone fails with an error instead of reporting success or hanging.",
  ["schedules", "histories", "crash_points"],
  "every order of sends, receives, drops, conversions, process exits and kills on either side, with any number of unread values in either direction",
  "The tests only drop an end after a clean exchange in one process; no test has unread data in the opposite direction, an end held by another process or inside an unread message, or a killed owner.",
  [INT, ASY],
  [("zero-length read is end of stream", INT + " recv_next"), ("ownership of the socket by each end", ASY + " Sender/Receiver/Duplex")])

p("C03", "Interrupted transfers never fabricate, merge or cut a value",
  "If a send or receive is interrupted part-way (its future is dropped, a signal arrives, the process is killed, or descriptors run out), every value any receiver subsequently obtains is still one that was passed whole to a send, with its own bytes and handles, in order. Whatever was only partly transferred surfaces as an error or end-of-stream, never as a value, and a signal that merely interrupts a system call is invisible to the caller.",
  ["crash_points", "fault_sequences", "schedules"],
  "every packet boundary of every value as the interruption point, every kind of interruption, on either side, followed by any further operations",
  "No test cancels a future, delivers a signal, kills a process mid-transfer or exhausts descriptors.",
  [INT, ASY, "src/tokio.rs", "src/smol.rs"],
  [("abandoned transfers poison their direction", INT + " Drop for SingleObjectSender/SingleObjectReceiver"),
   ("retry of interrupted calls", INT + " send_next/recv_next"), ("truncated ancillary data is an error", INT + " recv_next")])

p("C04", "A transferred handle refers to the very same open object",
  "Every handle-bearing object (file, owned handle, socket, channel end, in its standard, tokio or smol form) sent over a channel, passed to or returned from a child arrives as a new descriptor for the same open object (shared offset, same peer), in the position it had in the value, exactly once per occurrence. The sender's own handle stays valid and unchanged.",
  ["inputs", "histories", "configurations"],
  "every arrangement and number of handles in a value (including the same object several times and more than one packet's worth), every handle type, every route and runtime, chains of transfers through several processes",
  "The tests pass a single file, a channel end or two; no test passes hundreds, duplicates, nested or delayed handles, or forwards them through several processes.",
  [SER, BUI, INT, SUB, ENT, "src/delayed.rs"],
  [("handles are collected in serialization order and handed out in the same order", SER + " serialize_handle / " + BUI + " OwnedHandle"),
   ("SCM_RIGHTS batching", INT), ("inheritance across exec", SUB + ", " + ENT)])

p("C05", "Handles never leak into processes they were not sent to",
  "At any moment a process started by the library holds exactly the handles that were passed in its arguments or that it later received or created, besides the standard streams; no concurrent spawn, grandchild, or unrelated program started by either side obtains any of them. Descriptors created by the library are closed when their owning objects are dropped and when an operation fails, so repeated use does not accumulate descriptors.",
  ["schedules", "programs", "histories"],
  "every interleaving of concurrent spawns from several threads with transfers, every nesting of processes, every failing operation",
  "Tests never look at descriptor tables and never spawn concurrently.",
  [SUB, ENT, INT],
  [("close-on-exec on every descriptor, cleared only in the cloned child", SUB + " fork_child_main"), ("close-on-exec restored at child start", ENT + " crossmist_main"), ("CMSG_CLOEXEC on receive", INT)])

p("C06", "join reports exactly what happened to the child",
  "join returns Ok with the function's return value if the function returned and the process then ended successfully, and Ok(()) for a unit function whose process ended successfully however it ended. In every other case (panic, non-zero or early exit, termination by a signal at any point, even half-way through handing over the result) it returns an error, never a value and never a hang.",
  ["crash_points", "inputs", "histories"],
  "every way a child can end at every point of its life (before reading its arguments, in the body, while sending the result, after sending it), every result type and size, all runtimes on both sides",
  "Tests cover one panic, one exit and one signal at the function body; no test kills the child before it read its arguments or while it returns a large value.",
  [ASY, DER, ENT],
  [("result value and exit status are both required", ASY + " Child::join"), ("child sends result, then exits 0", DER + " call_object_once")])

p("C07", "join always reaps the child",
  "When join returns, with whatever outcome, the child process has ended and been reaped: it is neither running nor a zombie, its exit status has been consumed exactly once, and its termination handle reports it as joined. join does not return while the child is still alive.",
  ["crash_points", "schedules", "fault_sequences"],
  "every way and time the child can end, interrupted waits, joins from several threads or tasks in any order, children that outlive their result",
  "Tests never look at the process table and never interrupt a join.",
  [ASY], [("waitpid after result", ASY + " Child::join")])

p("C08", "Termination handles never hit an unrelated process",
  "Terminating through a kill handle signals only the child it was obtained from, and only while that child has not been reaped; once join has reaped the child every clone of the handle returns an error without sending any signal. If the handle reports success before the child finished, the child is terminated and join reports an error.",
  ["schedules", "histories"],
  "every interleaving of kill calls from any number of threads with the steps of join and with the child's own exit, including reuse of the process id",
  "The one test kills and then joins sequentially; the race window between reaping and marking is never exercised.",
  [ASY], [("flag checked and set under one mutex held across the wait and the kill", ASY + " Child::join, KillHandle::kill")],
  [("may_kill", "whether the pid still belongs to the child", ASY)])

p("C09", "A spawned function runs exactly once, with exactly its arguments",
  "Each successful spawn or run executes the named function exactly once, in a new process, with exactly the given argument values and type parameters, and the program's own main body is never executed in a child. This holds for every combination of blocking, tokio and smol callers with blocking, tokio and smol functions, any number and size of arguments, and however deep processes are nested.",
  ["inputs", "configurations", "programs"],
  "every function shape (arity, generics, async flavour and options), every caller flavour, arbitrary argument sizes, nested spawns",
  "Tests use a dozen fixed functions with tiny arguments, never a smol function, and do not observe duplicates or main being re-run.",
  [DER, ENT, ASY, "src/imp.rs", "src/fns.rs"],
  [("argument vector marks children", "src/imp.rs init"), ("entry closure transferred over the channel", ASY + " spawn, " + ENT + " crossmist_main"), ("macro-generated entry", DER)])

p("C10", "Every value survives serialization unchanged",
  "For every supported type, built-in, derived or composed of such, and every value of it, reading back what was written yields an equal value and consumes exactly what was written, so values written one after another are read back one after another. This holds for direct use of the serializer, over channels, as arguments and as results.",
  ["inputs"],
  "every supported type constructor nested arbitrarily, every value including empty, boundary and non-UTF-8 contents, any sequence of values in one stream",
  "Tests cover one or two values of some types; most collections, nested combinations, zero-sized and multi-variant enums, extreme numbers and sequencing are never tried.",
  [BUI, SER, DER, "src/pod.rs", "src/unsized_builtins.rs"],
  [("matching serialize/deserialize pairs", BUI), ("plain-data fast path", "src/pod.rs"), ("derive", DER)])

p("C11", "Sharing between reference-counted objects is preserved exactly",
  "After a transfer, two reference-counted pointers in the decoded value point to the same object if and only if they did in the original, and every pointer leads to contents equal to the original's. This holds for every acyclic arrangement of shared objects of any mix of types within one value, argument list or result.",
  ["inputs"],
  "all directed acyclic sharing graphs over single-threaded and atomic reference counts, mixed and nested types, shared objects containing shared objects or handles",
  "Two tests share one flat object; nested sharing, where numbering of objects on both sides must agree, is never exercised.",
  [SER, BUI], [("numbering of shared objects on both sides", SER + " learn_cyclic/get_cyclic"), ("Rc/Arc implementations", BUI)],
  [("cyclic ids", "which object was the n-th shared object seen", SER)])

p("C12", "A failed spawn or transfer leaves nothing behind",
  "If starting a process fails at any step, spawn returns an error, no child process (running or zombie) and no descriptor remains, the function does not run, and later spawns work normally. Likewise a failed send or receive leaves no stray descriptors, and the process remains usable.",
  ["fault_sequences", "crash_points"],
  "failure of every system call made while spawning or transferring (descriptor exhaustion, process creation refused, program image not executable, child dying before it takes its arguments), on every occurrence",
  "No test injects a failure.",
  [ASY, SUB, INT], [("error propagation and clean-up in spawn", ASY + " spawn"), ("exec failure in the cloned child", SUB)])

p("C13", "Transferable closures behave like the function they were built from",
  "Calling an object made from a function by binding leading arguments by value, by reference or by mutable reference (directly or with the lambda syntax) gives the same result as calling the function with bound and remaining arguments in declaration order, in whichever process it is called. State bound by mutable reference starts at the captured value and persists across calls of the same object, and distinct objects and copies in other processes do not affect each other.",
  ["inputs", "programs", "histories"],
  "every arity and every sequence of binding kinds, every call mode, any number of calls interleaved with transfers between processes",
  "Tests check a handful of one- or two-argument closures in a single process.",
  ["src/fns.rs", DER], [("currying of leading arguments", "src/fns.rs decl_fn"), ("lambda expansion", "src/fns.rs lambda")])

p("C14", "Static references, function pointers and trait objects stay valid",
  "A static reference, static function pointer or boxed trait object sent to another process running the same program designates the same static, function or concrete type there, even though the program is loaded at a different address, and after any number of hops including back to its origin. Function pointers of every supported arity receive their arguments in order.",
  ["inputs", "configurations", "histories"],
  "every static/function/type, every chain of processes, any load address, every arity",
  "Tests dereference one or two static items over a single hop.",
  ["src/relocation.rs", "src/static_ref.rs", "src/fns.rs", "src/unsized_builtins.rs"],
  [("offset from a common base symbol", "src/relocation.rs"), ("vtable and heap-deserializer pointers", "src/unsized_builtins.rs")])

p("C15", "Delayed arguments deserialize to the wrapped value, exactly once",
  "A delayed value passed to a child yields, when it is deserialized there, exactly the wrapped value including its handles, at any later time and in any order relative to other delayed values and other arguments. Delayed values neither disturb the values and handles around them nor each other, and one that is never deserialized releases its handles when dropped.",
  ["inputs", "schedules"],
  "every placement of delayed values among other values and handles, any number of contained handles, any order and subset of deserializations",
  "One test uses a single delayed value without handles.",
  ["src/delayed.rs", SER, DER], [("nested serializer with its own handle list", "src/delayed.rs")])

p("C16", "Asynchronous operations never block their runtime",
  "While a tokio or smol send, receive, spawn or request cannot make progress, other tasks on the same single-threaded runtime continue to run; in particular two tasks of one single-threaded runtime can exchange values of any size and number over any channel, and a task can wait for a child while others communicate with it. An operation completes once its peer has done its part, without needing any unrelated event.",
  ["schedules", "inputs"],
  "every arrangement of sending and receiving tasks on one thread, every value size relative to the transport buffer, peers on any runtime or in another process, slow or bursty peers",
  "Tests exchange tiny values that never fill a buffer; smol is never executed.",
  [ASY, "src/tokio.rs", "src/smol.rs", INT], [("non-blocking calls with readiness retry", "src/tokio.rs, src/smol.rs blocking_read/blocking_write"), ("resumable transfer state", INT)])

p("C17", "Concurrent children are independent",
  "Any number of children spawned and joined concurrently from any threads or tasks each run their own function with their own arguments, return their own result and are joined with their own outcome. The exit, failure or termination of one never affects the result or the channels of another.",
  ["schedules", "histories"],
  "every interleaving of spawn, run, exit, kill and join of several children, in any join order, from several threads and runtimes",
  "Tests run one child at a time.",
  [ASY, SUB], [("per-child socket pair and clone argument block", ASY + " spawn, " + SUB + " _spawn_child")])

p("C18", "Moving or converting a channel end changes nothing about the channel",
  "Converting an end between blocking, tokio and smol form, splitting a duplex end into a sending or receiving end, taking it through a raw handle, or moving it to another process preserves the order and contents of all values: those already in flight, and those sent afterwards, arrive exactly once at the end's current owner. The converted end works like a freshly created one of the new form.",
  ["histories", "schedules", "configurations"],
  "every sequence of conversions and moves at every point of a communication, with any amount of data in flight in either direction",
  "Tests convert a fresh channel once; no test moves or converts an end with data in flight or chains conversions.",
  [ASY, "src/blocking.rs", "src/tokio.rs", "src/smol.rs"], [("ends own nothing but the socket", ASY), ("TryFrom / raw-handle conversions", ASY + ", src/blocking.rs")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=True) + "\n")
