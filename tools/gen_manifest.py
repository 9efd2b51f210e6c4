#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json.  Edit the tables here, not the output."""
import json, os

BASE = ("Static: decided from the MIR (or Python AST) of /repo's current tree; nothing is run.  Trusted: rustc's MIR, the models of library and system calls in "
        "engine/models.py, and the abstractions listed in DESIGN.md. ")

# id: (technique, level, note)
CHECKS = {
    'C01': ('path-sensitive abstract interpretation of MIR: exec argument equals the term compared with the restriction; must-set-before-start dataflow in main', 'other',
            'Covers all paths of start_procs and of main up to the first start; values are symbolic terms.'),
    'C02': ('typestate over MIR: after fork, the child path of start_procs reaches only exec or _exit (incl. unwinding)', 'other', 'All paths of the child, with every panic and unwind edge.'),
    'C03': ('path-sensitive typestate over MIR: failed set-up step must be reported and excludes exec', 'other', 'All paths of the child with each step failing.'),
    'C04': ('abstract interpretation of MIR of the start function over families of requests and tables: no fork on a rejected request, no error after a fork', 'other',
            'Arbitrary and concrete spellings of descriptors, duplicate IDs, unmatched pipes, shutdown states.'),
    'C05': ('typestate over MIR of the start path; abstract interpretation of each removing function over table sizes; call-graph reachability of removals', 'other',
            'Tables of none, one, two and arbitrarily many processes; all call paths to a removal.'),
    'C06': ('path-sensitive typestate over MIR: arm, fork, wait, record, announce; the record at each point where others can observe it', 'other',
            'One arbitrary process; kernel delivery of SIGCHLD is assumed.'),
    'C07': ('path-sensitive typestate over MIR: each kill targets the pid of a record found unreaped in the same uninterrupted step', 'other',
            'All paths of every function that signals, for tables of none, one and arbitrarily many processes.'),
    'C08': ('abstract interpretation of MIR over table sizes and shutdown states: gating of starts, forward-only transitions, done exactly when idling and empty', 'other',
            'Tables of none, one, two and arbitrarily many processes, and each shutdown state.'),
    'C09': ('path summaries of the signal-handling tasks against the table of the documentation', 'other', 'All paths of each signal task, from each shutdown state.'),
    'C15': ('path summaries of each HTTP handler and route extraction from MIR, against the table of the HTTP contract', 'other',
            'All paths of each handler with an arbitrary table; route strings are constants of the program.'),
    'C19': ('typestate over the connection loop: register first, backoff arithmetic, resubscription, end conditions', 'other', 'All paths of the loop across suspensions; intervals are symbolic terms.'),
    'C20': ('abstract interpretation of MIR: each mutation of the table against what is announced; notification-to-message path summaries', 'other',
            'Tables of none, one, two and arbitrarily many processes; no, one and many subscribers.'),
    'C10': ('abstract interpretation of MIR of the environment builder for an arbitrary variable; provenance of the arguments of exec', 'other',
            'Each kind of variable, inheritance and explicit setting; all paths of the builder and of the exec wrapper.'),
    'C26': ('typestate over MIR: waiting loops (lost-wake-up freedom, end conditions), exit modes from options to shutdown, join of main', 'other',
            'All paths of each waiting function, mode and of main; a table with an arbitrary process.'),
    'C16': ('path summaries of the message handler against the table of the protocol; obligations of the connection loop', 'other',
            'All paths of the handler for each request, with an arbitrary table.'),
    'C14': ('symbolic summaries of the result builder and the /proc parsers: position, unit, bits and linear form of each field against proc(5), wait(2), getrusage(2), signal(7)', 'other',
            'All paths of the result builder for an arbitrary record; the parsers for an arbitrary text; the order of reading statistics and reaping.'),
    'C13': ('typestate over MIR of the capture reader (coroutine included); who-may-alter analysis; symbolic summaries of the data and result functions, decided for every order of start, stop and length', 'other',
            'All paths of the reader task and of the functions that return captured data, for an arbitrary record; range terms are decided over an exhaustive set of orders.'),
    'C11': ('abstract interpretation of the fork and exec path over a symbolic descriptor table, with concrete request shapes, against the descriptor semantics of the specification', 'other',
            "the kernel's numbers are abstract; aliasing between set-up, error-pipe and target numbers is decided lazily; known findings: numbers that collide"),
    'C12': ('abstract interpretation of request start, spawned tasks and record drops over a symbolic descriptor table (typestate: created, close-on-exec, handed over, closed)', 'other',
            'close of a valid descriptor is assumed not to fail; one request shape per descriptor kind, plus pairs'),
    'C24': ('abstract interpretation of the Python syntax trees over whole connection histories, with every choice of the environment explored', 'other',
            'Histories of at most two activations for one agent beside a bystander, two or three messages; sends do not fail in histories (they do in the start of a process). Time-outs other than the reconnect time-out are not ordered by duration.'),
    'C25': ('abstract interpretation of the Python syntax trees: message dispatch with symbolic messages over an open process table, updates generator, receive loop and reconciliation', 'other',
            'Up to two further processes are distinguished; process IDs are taken to be unique across agents.'),
    'C18': ("abstract interpretation of the server's sources and of the agent's MIR; provenance of trust anchors, addresses and the token", 'other',
            "Certificate verification itself is the TLS libraries'; the interpretation of the handler bounds a peer to two messages."),
    'C17': ('wire schemas derived from the type-checked Rust declarations and serde attributes; abstract interpretation of the Python sources that construct, encode, decode and request; agreement decided per message, fd kind, field and route', 'other',
            "Assumes that serde's derived code, rmp-serde, serde_json and msgpack implement their documented formats; hand-written (de)serializers are taken by their visitor methods. Numeric ranges of unbounded Python ints are not compared. One known finding (percent-encoded IDs in paths)."),
    'C21': ('abstract interpretation of futures (guard typestate across suspension and nested acquisition)', 'other',
            'Guards of the shared records are tracked as typestates on every path of every future; other tasks are approximated by any interleaving at suspension points. Futures held in a select are analysed on their own.'),
    'C22': ('monomorphised call graph reachability + abstract interpretation of waits, reads and opens', 'other',
            "Functions that always block are a list; calls of foreign code outside it are taken not to block. Whether a regular file's reads are slow is outside the property."),
    'C23': ('taint analysis by abstract interpretation of MIR: panics, exits, indexing, sizes and time arithmetic as sinks', 'other',
            'Every feasible path to a panic, exit, index, size or time computation from the request handlers, start, its tasks, fds, results, /proc readers and connection loops; the deciding value must not depend on a request, peer or process, unless the path or validation (itself interpreted) excludes it. Standard library and dependencies are taken to be right. Two known findings: resource exhaustion at pipe2 and fork.'),
    'C27': ('typestate of pointers (provenance, liveness, length) by abstract interpretation of MIR', 'other',
            'Every function that makes a foreign call with a pointer argument is interpreted, with collections of up to three strings; at each call, by argument type, the pointer must be to a live NUL-terminated string, a NULL-terminated vector of such, a buffer at least as long as the length beside it, or a live object. Functions of the library that the binary does not use are not analysed.'),
}

NA = {
    'C28': 'Whether a capture is complete when a result is served depends on the order in which the kernel delivers EOF on pipes and SIGCHLD; no static argument over the source bounds that.',
    'C29': 'Real-time limits quantify over elapsed wall-clock time and scheduling of other processes, which no static argument over the source bounds.',
    'C30': 'Convergence of the Python server\'s view with the agents\' is a liveness property over message delivery and peer behaviour; what is decidable of it statically is covered by C16, C17, C20 and C25.',
    'C31': 'Which numbers the kernel hands out for descriptors is a run-time quantity; the static part (inheritance flags, rewiring order) is in C11 and C12.',
}


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
    checks = []
    na = []
    for i in ids:
        if i in CHECKS:
            t, lv, note = CHECKS[i]
            checks.append({'property': i, 'quick_cmd': 'python3 check.py --property %s --tier quick' % i,
                           'thorough_cmd': 'python3 check.py --property %s --tier thorough' % i,
                           'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': lv, 'level_note': BASE + note})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'Not built yet.')})
    json.dump({'version': 1, 'setup_cmd': 'python3 engine/facts.py', 'checks': checks, 'not_applicable': na,
               'notes': 'Static analysis: a rustc driver (driver/) exports MIR of /repo; engine/ is an abstract interpreter and graph analyses over it; '
                        'props/ has one decision procedure per property.  See DESIGN.md.'},
              open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)


main()
