#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  Edit the table here, not the output."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": list(files),
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })


prop("C01", "Restricted executable is enforced on every start route",
     "When an executable restriction is configured, no process image other than exactly the configured path string is ever executed, whichever way the process was requested (command line, HTTP, agent server) and whatever argv says. "
     "A request whose executable (explicit, or else the first argument) differs from the restriction is reported as a process error and its child exits without executing anything. "
     "The restriction is in force before the first process can be started.",
     ["inputs", "programs", "configurations"],
     "Every process spec (exe present or absent, any argv), every route that can start a process, restriction set or not.",
     "Tests try two or three specs through the command line; the guarantee is about every path that reaches exec.",
     ["src/procs.rs", "src/main.rs", "src/sys.rs"],
     [("comparison against the restriction in the forked child gates exec", "src/procs.rs start_procs"),
      ("restriction stored from the command line before processes or services start", "src/main.rs main")],
     [("RESTRICTED_EXE", "the configured path or none", "src/procs.rs")],
     ["execve(2) calls", "proc result errors"])

prop("C02", "A forked child never runs service code",
     "After a process is forked, the child side either executes the requested program or terminates; it never returns into, awaits in, or unwinds (panics) into the parent's service code, so that there is never a second copy of the service. "
     "This holds also when any set-up step in the child fails or panics.",
     ["fault_sequences", "inputs"],
     "Every outcome of every system call made by the child and every request content (including NUL bytes and over-long strings).",
     "Tests only exercise a failing exec and a few failing fds; a duplicate service appears only on rare failure paths.",
     ["src/procs.rs", "src/fd.rs", "src/err_pipe.rs", "src/sys.rs"],
     [("child branch ends in process exit", "src/procs.rs start_procs")],
     (), ["fork(2), execve(2), exit"])

prop("C03", "A failed child set-up step is reported and prevents execution",
     "If any step that prepares the child (restriction check, opening, duplicating or closing a file descriptor, creating the session, executing) fails, the program is not executed with a partial set-up, and an error message is sent to the parent for it. "
     "The parent decodes exactly the messages the child encoded, and attaches them to the process record before announcing that the process is not running.",
     ["fault_sequences", "inputs", "schedules"],
     "Failure of every child-side step, one at a time or together, for every fd kind.",
     "Three tests cover a bad path, a bad dup and a bad exe; the guarantee is over every step and every failure.",
     ["src/procs.rs", "src/fd.rs", "src/err_pipe.rs", "src/fdio.rs"],
     [("child-side error writer and ok-to-exec flag", "src/procs.rs"),
      ("length-prefixed message framing", "src/err_pipe.rs")],
     (), ["proc result errors/state", "execve(2)"])

prop("C04", "A rejected start request starts nothing",
     "A start request is accepted or rejected as a whole: if it is rejected with an error, no process of that request was forked or recorded. "
     "A request is rejected if one of its process IDs is already in use, if a process specifies the same file descriptor twice (under any spelling) or an unparsable one, if a pipe end has no counterpart, or if the service is shutting down.",
     ["inputs", "histories"],
     "Every batch of specs against every table and shutdown state.",
     "No test submits a rejected batch; all-or-nothing is a statement about every rejection point relative to every fork.",
     ["src/procs.rs", "src/spec.rs"],
     [("validation precedes the fork loop", "src/procs.rs start_procs"),
      ("fd and pipe validation", "src/spec.rs validate_procs_fds")],
     (), ["fork(2)", "error responses"])

prop("C05", "The process table never loses or overwrites a running process",
     "Every process that is forked gets exactly one record, under its requested ID, with the pid that fork returned; an existing record is never replaced. "
     "A record is removed only on a delete request for exactly that ID once the process is not running, or when final results are collected at exit; deleting a running or unknown process fails and changes nothing.",
     ["histories", "inputs"],
     "Every sequence of start, signal, delete and list requests over HTTP and the agent protocol.",
     "Tests delete one finished process; the guarantee is over every operation that can touch the table.",
     ["src/procs.rs", "src/http.rs", "src/proto.rs"],
     [("remove only if not running", "src/procs.rs"), ("insert after fork", "src/procs.rs")],
     [("procs", "map from proc ID to record", "src/procs.rs Procs")], ["GET /procs", "ProcidList"])

prop("C06", "Every child is reaped once and its termination fully recorded",
     "Each child is waited for only by its own pid, without blocking, and only for termination; when it is reaped, its status and resource usage, stop time, elapsed time and last process statistics are stored together before anything else can observe the record. "
     "Notification of child death is armed before the child is forked, and every reaped process leads to exactly one not-running announcement for its own ID, after its record is complete.",
     ["schedules", "fault_sequences"],
     "Every interleaving of child deaths, SIGCHLD coalescing and other tasks, and every wait outcome.",
     "Tests observe a handful of terminations; a lost wake-up or partial record needs a particular interleaving.",
     ["src/procs.rs", "src/sys.rs", "src/sig.rs"],
     [("SIGCHLD watcher created before fork", "src/procs.rs"), ("non-blocking wait4 of own pid", "src/sys.rs"),
      ("record update without await", "src/procs.rs")],
     [("wait_info", "status, set once", "src/procs.rs Proc")], ["ProcResult", "wait4(2)"])

prop("C07", "Signals are delivered only to the recorded, unreaped pid",
     "A signal requested for a process is sent to exactly the pid recorded for that process, with exactly the requested signal number, never to a process group, and never once the process has been reaped (when the pid may belong to someone else). "
     "A request that cannot be carried out is reported as an error, not silently dropped.",
     ["histories", "inputs", "schedules"],
     "Every signal request against every process state, through every route.",
     "Pid reuse cannot be provoked by a unit test, and tests only signal live processes.",
     ["src/procs.rs", "src/sys.rs", "src/proto.rs", "src/http.rs"],
     [("kill of recorded pid", "src/procs.rs Proc"), ("state check before kill", "src/procs.rs Proc")],
     (), ["kill(2)", "HTTP status, RequestError"])

prop("C08", "Shutdown state gates new work and only moves forward",
     "New processes are started only while the service is active; once idling or done, start requests are refused. "
     "While idling, removal of the last record (or an already empty table) moves the service to done; nothing ever moves it back to active, and every change of the shutdown state is announced.",
     ["histories", "schedules"],
     "Every order of start, delete, collect and shutdown operations.",
     "One test sends one idle signal; the guarantee is over every operation that empties the table and every start route.",
     ["src/procs.rs", "src/shutdown.rs", "src/main.rs"],
     [("idle check after each removal", "src/procs.rs"), ("state check in start", "src/procs.rs")],
     [("shutdown", "active, idling or done", "src/procs.rs Procs")], ["ShutDown messages", "service exit"])

prop("C09", "Termination signals run the documented shutdown sequence",
     "SIGTERM and SIGINT send SIGTERM to every running process, wait up to 60 s for none to be running, send SIGKILL to any that remain, wait up to 5 s for records to be deleted, then shut down; SIGQUIT sends SIGKILL at once, waits up to 5 s, then shuts down; SIGUSR1 requests shutdown when idle. "
     "A failure to signal one process never prevents the others from being signalled.",
     ["histories", "fault_sequences", "schedules"],
     "Every set of running processes and every outcome of the signal deliveries and waits.",
     "Three tests send a signal to one sleeping child; time-outs, stragglers and kill failures are not reached.",
     ["src/shutdown.rs", "src/procs.rs", "src/main.rs"],
     [("signal handler tasks", "src/shutdown.rs"), ("send to all running", "src/procs.rs")],
     (), ["kill(2)", "service exit"])

prop("C10", "A child's environment is exactly what its spec says",
     "The environment given to exec consists of the inherited variables (none, all, or exactly the named ones present), minus the agent's certificate, key and token variables, then with each explicit variable set to its value or removed if null; explicit settings take precedence over inheritance and over the exclusion. "
     "Exactly this environment, and the spec's argv unchanged and in order, reach exec.",
     ["inputs", "configurations"],
     "Every parent environment and env spec.",
     "Unit tests check a few env specs; leaking the agent token through some inheritance mode is about every path.",
     ["src/environ.rs", "src/procs.rs", "src/sys.rs"],
     [("environ build", "src/environ.rs"), ("execve wrapper", "src/sys.rs")],
     (), ["execve(2) envp and argv"])

prop("C11", "Child file descriptors are wired exactly as specified",
     "When the program is executed, each specified fd refers to what its spec names: closed, a duplicate of the named fd, the file opened with the documented flags and mode, the null device, the capture destination, or the pipe to or from the named process; unspecified fds are inherited. "
     "Set-up descriptors used on the way are not left open in the program, also when the kernel hands out a set-up descriptor with the target number.",
     ["inputs", "fault_sequences"],
     "Every fd kind, every open-flag value, and every relation between the target fd and the descriptor obtained (equal or not).",
     "Tests exercise the common kinds for stdout and stderr only, where the descriptors never coincide.",
     ["src/fd.rs", "src/sys.rs", "src/spec.rs"],
     [("child-side wiring per kind", "src/fd.rs"), ("open flag table", "src/fd.rs"), ("dup2, close wrappers", "src/sys.rs")],
     (), ["open(2), dup2(2), close(2) in the child"])

prop("C12", "The service's descriptors are never leaked, shared or double-closed",
     "Every descriptor the service creates for a process (capture files, pipes, error pipe) is close-on-exec, so that no other process inherits it, and in the service each is closed exactly once by its owner on success and failure paths alike; ends that only the child uses are closed in the parent right after the fork. "
     "Temporary capture files are unlinked as soon as they are created, so that none outlives the service.",
     ["fault_sequences", "histories"],
     "Every fd kind and every failure of pipe, open, unlink calls, over any number of processes.",
     "A leaked or doubly closed descriptor shows only after many processes or on an error path.",
     ["src/fd.rs", "src/sys.rs", "src/err_pipe.rs"],
     [("parent-side close of child ends", "src/fd.rs"), ("drop of capture file", "src/fd.rs"), ("close-on-exec creation", "src/sys.rs")],
     (), ["descriptor table of service and children", "/tmp"])

prop("C13", "Captured output is returned complete, in order and as requested",
     "All bytes read from a memory-captured fd are appended once, in order, until end of file, and captured bytes are only ever read back, never altered, by the service; reading a file capture does not move the offset the process writes at. "
     "A result carries the captured bytes as text or base64 according to the requested encoding if attached, else only their length; a data request returns exactly the requested range clipped to what is captured.",
     ["inputs", "schedules", "fault_sequences"],
     "Every output size, chunking, range, encoding and capture mode, and reads at any time while the process runs.",
     "Tests capture small outputs after the process ends; chunk boundaries, ranges and concurrent reads are not reached.",
     ["src/fd.rs", "src/sys.rs", "src/res.rs"],
     [("drain loop", "src/fd.rs"), ("range handling", "src/fd.rs"), ("positional file reads", "src/sys.rs"), ("result construction", "src/res.rs")],
     (), ["ProcResult fds", "ProcFdData", "GET output data"])

prop("C14", "Results report the process's true status and usage",
     "A result reports an exit code exactly for a process that exited and a signal number (with its name, if known) exactly for one that was signalled; status and resource usage are present exactly when the process has terminated and each usage figure is the corresponding kernel figure in the documented unit. "
     "The state is error if there were errors, else running until reaped, else terminated; process statistics report each field from its documented position, for any command name.",
     ["inputs"],
     "Every wait status, usage record, process statistics line and process state.",
     "Tests look at exit code 0/1 and one signal; the decode must be right for all values.",
     ["src/res.rs", "src/procs.rs", "src/procinfo.rs", "src/sig.rs"],
     [("status decode", "src/res.rs"), ("usage conversion", "src/res.rs"), ("state derivation", "src/procs.rs"), ("proc stat parser", "src/procinfo.rs")],
     (), ["ProcResult"])

prop("C15", "The HTTP service answers every request as documented",
     "Each documented route and method performs its operation on the process named in the path and answers 200 on success, 404 for an unknown process or path, 405 for a known path with another method, 409 to delete a running process or to signal a terminated one, and a 4xx with an error message for any other malformed or refused request; a request that fails has no effect. "
     "The service listens only on the loopback interface.",
     ["inputs", "histories"],
     "Every method, path, body and process state.",
     "Tests use the happy path of four routes.",
     ["src/http.rs", "python/procstar/http/client.py"],
     [("router and handlers", "src/http.rs")],
     (), ["HTTP responses", "listening address"])

prop("C16", "Each agent request gets the right answer, about the right process",
     "Every request message from the server is carried out on the process it names and answered by the documented message carrying that same process ID: the result, the data, the list, an unknown-process message if there is no such process, or a request error that echoes the original request and the reason; undecodable messages are survived. "
     "A request that succeeds without data is answered only by the notifications it causes.",
     ["inputs", "histories"],
     "Every request type in every process state.",
     "The agent tests do not run in this environment, and sample one state per request.",
     ["src/proto.rs", "src/agent.rs"],
     [("request dispatch", "src/proto.rs"), ("message handler", "src/agent.rs")],
     (), ["websocket messages"])

prop("C17", "Agent and server agree on the wire format",
     "Every message either side can send is accepted by the other: message type tags, field names, optional fields, enumerated values (shutdown and process states, capture modes, encodings, open flags, fd kinds) and spec layout are the same in the Rust agent and the Python server and client. "
     "Every process spec that the Python API can construct is one the agent accepts, with the same meaning.",
     ["inputs", "programs"],
     "Every message type, optional field and spec variant.",
     "Each side's tests use its own encoder; a rarely used field or variant can disagree unnoticed.",
     ["src/proto.rs", "src/spec.rs", "src/res.rs", "src/procinfo.rs", "python/procstar/proto.py", "python/procstar/spec.py"],
     [("message types", "src/proto.rs, python/procstar/proto.py"), ("spec types", "src/spec.rs, python/procstar/spec.py")],
     (), ["websocket messages", "JSON specs"])

prop("C18", "Agent connections are encrypted, verified and authenticated",
     "The agent connects to its server only over TLS with certificate and host name verification, trusting the system roots plus at most the configured certificate. "
     "The server sends nothing to, and creates or changes no connection or process state for, a peer whose first message is not a registration bearing exactly the configured access token; the token never appears in log output or in a child's environment by inheritance.",
     ["inputs", "histories", "configurations"],
     "Every peer behaviour and configuration.",
     "Tests use a right and a wrong token once, with a private certificate; absence of other ways in is universal.",
     ["src/agent.rs", "src/net.rs", "src/main.rs", "python/procstar/agent/server.py", "python/procstar/proto.py"],
     [("TLS connector", "src/net.rs"), ("wss URL", "src/main.rs"), ("token check", "python/procstar/agent/server.py")],
     (), ["TLS handshake", "server state", "logs"])

prop("C19", "The agent registers, stays connected and gives up as configured",
     "On each connection the agent first registers with its current process IDs and shutdown state and acts on nothing until registration is confirmed; no change after that registration snapshot goes unannounced on the connection. "
     "After any connection failure it reconnects, waiting the configured interval grown by the configured factor up to the maximum and reset after success; it gives up with an error exactly when the configured number of consecutive attempts has failed, and ends when shutdown is done.",
     ["schedules", "fault_sequences", "histories"],
     "Every sequence of connection failures, disconnects, process events and shutdown requests.",
     "Lost notifications need an event between two specific steps; back-off needs long failure sequences.",
     ["src/agent.rs"],
     [("connect", "src/agent.rs"), ("run loop", "src/agent.rs")],
     (), ["websocket messages", "connection attempts"])

prop("C20", "Every change is announced, once, with the right content",
     "Each start, termination, deletion and shutdown-state change is announced exactly once to every subscriber, after the change is visible, with the ID concerned; a connected agent forwards each as the corresponding message with the process's current result. "
     "Announcing never fails or blocks the change itself.",
     ["histories", "schedules"],
     "Every operation on the table and every number of subscribers.",
     "A missing announcement on one of many mutation paths is invisible unless a test waits for that very message.",
     ["src/procs.rs", "src/agent.rs"],
     [("notify after mutation", "src/procs.rs"), ("notification to message", "src/agent.rs")],
     (), ["websocket messages", "waiters"])

prop("C21", "Shared state is never locked across a suspension or re-entered",
     "No task holds a borrow of, or lock on, shared process state while it is suspended, and no operation tries to borrow state mutably while it or its caller already holds it. "
     "Hence no interleaving of tasks makes the service panic or deadlock on its own state.",
     ["schedules"],
     "Every interleaving of tasks at suspension points and every call path.",
     "A conflicting borrow needs two tasks at exact points; tests run few concurrent operations.",
     ["src/procs.rs", "src/fd.rs", "src/agent.rs", "src/proto.rs", "src/http.rs", "src/shutdown.rs"],
     [("borrow scopes", "all users of shared records")],
     (), ["service liveness"])

prop("C22", "The event loop never blocks",
     "Code that runs on the service's event loop never makes a call that can block indefinitely on a child or peer: waiting for a process, reading or writing pipes or sockets, or sleeping is done only through asynchronous operations. "
     "Hence one slow process or peer never stalls the others.",
     ["schedules", "inputs"],
     "Every code path reachable from a service task.",
     "A blocking call is invisible when children are quick, as in tests.",
     ["src/procs.rs", "src/fd.rs", "src/err_pipe.rs", "src/http.rs", "src/agent.rs", "src/shutdown.rs", "src/sys.rs"],
     [("async pipe reads", "src/fd.rs, src/err_pipe.rs"), ("non-blocking wait", "src/procs.rs")],
     (), ["service responsiveness"])

prop("C23", "No request can crash the service",
     "No content of an HTTP or agent request, and no behaviour of a started process, makes the service panic or exit: bad ranges, unknown fds and IDs, empty argument lists, strange command names and unnamed signals lead to an error answer or to a normal result.",
     ["inputs", "histories"],
     "Every request content and every process behaviour.",
     "Tests send well-formed requests; a panic hides in the value that nobody sent.",
     ["src/procs.rs", "src/fd.rs", "src/proto.rs", "src/http.rs", "src/res.rs", "src/procinfo.rs", "src/spec.rs"],
     [("checked conversions and indexing", "request handlers and what they call")],
     (), ["service liveness"])

prop("C24", "The server's connection registry survives reconnects and shutdowns",
     "A reconnecting agent takes over its existing connection record (same ID and group) and any pending reconnect time-out is cancelled; the time-out is armed only when the record's current socket has gone, and when it fires it removes the record and tells every process on that connection. "
     "The connection of an agent that announced that it is done is dropped when its socket closes, without waiting for the time-out, and only open connections of active agents in the requested group are chosen for new processes.",
     ["schedules", "histories"],
     "Every order of connect, disconnect, overlapping reconnect, time-out and shutdown.",
     "Overlapping old and new sockets for one agent need a specific interleaving.",
     ["python/procstar/agent/server.py", "python/procstar/agent/conn.py"],
     [("serve loop", "python/procstar/agent/server.py"), ("registry", "python/procstar/agent/conn.py")],
     (), ["Server.connections"])

prop("C25", "The server routes every agent message to the process it concerns",
     "Each message from an agent that names a process is delivered to that process's updates, and only there, creating the process record when it is new; deletion and unknown-process messages also remove the record. "
     "Request errors reach the process or processes of the original request; a message about a process the server does not know never breaks the connection.",
     ["histories", "inputs"],
     "Every message type in every registry state.",
     "Tests follow one process per connection in the expected order.",
     ["python/procstar/agent/proc.py", "python/procstar/agent/server.py"],
     [("message dispatch", "python/procstar/agent/proc.py")],
     (), ["Process.updates"])

prop("C26", "Exit modes wait for what they promise and deliver the results",
     "With exit, print or output requested, the service runs until no process is running (or shutdown), then collects all results once and prints and/or writes them completely to the named place before it shuts down, failing visibly if it cannot; with wait requested, it runs until all records are deleted. "
     "Waiting returns only when the condition truly holds, and never misses the last change.",
     ["schedules", "configurations", "fault_sequences"],
     "Every combination of options and every order of process events.",
     "Tests run one or two short processes; a missed wake-up depends on order.",
     ["src/main.rs", "src/procs.rs", "src/argv.rs", "src/res.rs"],
     [("run-until-exit and run-until-idle", "src/main.rs"), ("wait loops", "src/procs.rs")],
     (), ["stdout, output file, exit"])

prop("C27", "Pointers passed to the operating system are valid",
     "Every string passed to a system call is NUL-terminated and alive for the duration of the call, every argument and environment vector is NULL-terminated, and every buffer is at least as long as the length passed with it.",
     ["inputs"],
     "Every argument of every foreign call.",
     "An unterminated string usually works by luck.",
     ["src/sys.rs"],
     [("C string construction", "src/sys.rs")],
     (), ["arguments of libc calls"])

prop("C28", "Captured output is complete when a process is announced not running",
     "When a process is announced as not running, everything it wrote to its captured descriptors is already part of its result.",
     ["schedules"], "Every interleaving of the drain task, the wait task and the kernel.",
     "The race is between the kernel's pipe and two tasks.",
     ["src/procs.rs", "src/fd.rs"], [("drain task, wait task", "src/procs.rs, src/fd.rs")])

prop("C29", "Shutdown and back-off keep their time limits",
     "Shutdown completes within 65 s of a termination signal, and reconnect attempts are spaced by the configured intervals in real time.",
     ["schedules"], "Every load and timing.", "Tests do not run for minutes and cannot control time.",
     ["src/shutdown.rs", "src/agent.rs"], [("time-outs", "src/shutdown.rs")])

prop("C30", "The server's view converges to the agent's after any message history",
     "After any history of messages, disconnects and reconnects, once the connection is quiet the server's set of processes and their last results equal the agent's.",
     ["histories", "schedules"], "Every history.", "Histories are unbounded.",
     ["src/agent.rs", "python/procstar/agent/server.py", "python/procstar/agent/proc.py"], [("register and reconcile", "python/procstar/agent/server.py")])

prop("C31", "Target descriptors never collide with internal ones",
     "A spec may name any target descriptor number without clobbering another descriptor that is still needed to set up the same child.",
     ["inputs"], "Every set of target fd numbers.", "Numbers are allocated by the kernel at run time.",
     ["src/fd.rs", "src/procs.rs"], [("order of dup2 calls", "src/fd.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
