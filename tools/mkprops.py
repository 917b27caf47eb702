#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the list is easy to review and edit)."""
import json, os
P = []
def p(id, title, st, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or ["client responses"], hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)
E_ = "server/src/engine/"
p("C01", "A clean restart changes nothing",
  "After the server was stopped by a termination signal and started again on the same data directory, it serves exactly the spaces, models (with their field order, types and nullability), rows and users that the acknowledged statements had produced, across any number of restarts. Nothing that was dropped, deleted, removed or failed comes back, and nothing that was acknowledged is missing or changed in type or value.",
  ["histories", "inputs", "schedules"],
  "every sequence of statements by any number of clients (all data types, schema changes between row changes, dropping and creating again under the same name, user changes), split by any number of clean restarts",
  "The storage tests write and read a handful of hand-made histories through the drivers; they cannot sample the product of schema deltas, row deltas, batches and restarts, and no test restarts a server that was really running its flusher.",
  [E_+"storage/v2/impls/gns_log.rs", E_+"storage/v2/impls/mdl_journal.rs", E_+"storage/v2/raw/journal/", E_+"storage/common_encoding/r1/", E_+"fractal/mgr.rs", E_+"core/system_db.rs"],
  [("GNS event log replay", E_+"storage/v2/impls/gns_log.rs"), ("row batches and schema versions", E_+"storage/v2/impls/mdl_journal.rs"), ("final flush at shutdown", E_+"fractal/mgr.rs")],
  observe=["client responses before and after the restart", "inspect global/space/model", "select all"])
p("C02", "Acknowledged schema and user changes survive any crash",
  "Once the server has acknowledged a statement that creates, alters or drops a space, model or user, the effect of that statement is there after a crash or power loss at any later moment followed by a restart. A schema or user statement that was still unanswered at the crash is found either fully done or not done at all.",
  ["crash_points", "histories", "fault_sequences"],
  "every history of schema and user statements and every crash point (between and inside file operations, with any prefix of the unsynced data surviving), also after earlier crashes and restarts",
  "No existing test kills a server or loses unsynced writes; the journal tests only reopen logs that were closed.",
  [E_+"storage/v2/impls/gns_log.rs", E_+"storage/v2/raw/journal/", E_+"storage/common/interface/fs.rs", E_+"core/space.rs", E_+"core/model/mod.rs", E_+"core/model/alt.rs", E_+"core/dcl.rs"],
  [("the event is committed to the GNS log before the answer", E_+"txn/gns/"), ("sync of every event", E_+"storage/v2/raw/journal/raw/mod.rs")],
  observe=["client responses", "state after restart", "logins"])
p("C03", "Rows recover to a real past state and recent loss is bounded",
  "After a crash or power loss every row is either absent or exactly as some acknowledged or in-flight statement left it, under the schema that survived; no row is torn, mixed from two versions, duplicated or revived after an older delete. Every data change that was acknowledged longer ago than the configured background write window (plus the time one write takes, when the disk is healthy) survives.",
  ["crash_points", "histories", "schedules", "fault_sequences"],
  "every interleaving of row statements, schema statements and the background writer, every crash point and every subset-prefix of unsynced data, also over several crashes in a row",
  "The flusher, its batches and the recovery of a torn or unsynced tail are not run under crashes by any test.",
  [E_+"fractal/mgr.rs", E_+"storage/v2/impls/mdl_journal.rs", E_+"core/model/delta.rs", E_+"storage/v2/raw/journal/raw/mod.rs", E_+"core/dml/"],
  [("periodic flush of the change sets", E_+"fractal/mgr.rs"), ("batch commit with checksums", E_+"storage/v2/impls/mdl_journal.rs"), ("row versions", E_+"core/model/delta.rs")],
  observe=["client responses", "rows after restart"])
p("C04", "The server can always be started again after a crash",
  "Whatever instant the process is killed or the machine loses power at (also during the first start, during recovery, while stopping, and again and again), the next start on that data directory succeeds without manual repair and the server then serves statements. A disk error alone never makes the stored data unreadable for a later start.",
  ["crash_points", "fault_sequences", "histories"],
  "every crash point in every history, including inside start-up and shutdown, with any surviving prefix of unsynced data and metadata",
  "Tests never interrupt the engine; a half-written file, header or directory is not in reach of them.",
  [E_+"storage/mod.rs", E_+"storage/v2/mod.rs", E_+"storage/v2/raw/journal/raw/mod.rs", E_+"storage/common/sdss/", "server/src/util/os.rs"],
  [("recovery of unclosed journals", E_+"storage/v2/raw/journal/raw/mod.rs"), ("load order and directory creation", E_+"storage/v2/mod.rs")],
  observe=["process start", "first answers after the start"])
p("C05", "Row statements are linearizable",
  "Concurrent inserts, updates, deletes and selects of a row behave as if each took effect at one instant between its request and its answer, whatever the background writer is doing. An update's assignments are applied together or not at all, and a read never shows a mixture of two versions, a freed or an uninitialised value.",
  ["schedules", "histories", "inputs"],
  "every interleaving (at lock, atomic, epoch and I/O granularity) of statements by any number of clients on the same rows, with the background flush running at any time",
  "Existing concurrency tests run a few threads against the index once; the interleavings of real statements with each other and with the flusher are left to luck.",
  [E_+"idx/mtchm/", E_+"core/dml/", E_+"core/index/", E_+"core/model/delta.rs", E_+"sync/", E_+"fractal/mgr.rs"],
  [("lock-free index with epoch reclamation", E_+"idx/mtchm/imp.rs"), ("row locks", E_+"core/index/row.rs")],
  observe=["client responses with invocation and response order"])
p("C06", "Reading a whole model is a consistent snapshot of its rows",
  "A statement that reads all rows of a model returns exactly the set of keys the model had at one instant during the statement: no row twice, no row missing that existed throughout, no row that was deleted before or inserted after, and every returned row has all its fields with values that the row really had. A limit returns that many rows if there are as many.",
  ["schedules", "histories"],
  "every interleaving of whole-model reads with inserts, deletes, updates and schema changes by other clients",
  "Tests read all rows only when nothing else is running.",
  [E_+"idx/mtchm/", E_+"core/dml/sel.rs", E_+"core/index/mod.rs"],
  [("primary index scan", E_+"core/dml/sel.rs")],
  observe=["client responses"])
p("C07", "Schema changes are atomic under concurrency",
  "Concurrent schema, space and user statements and row statements take effect one at a time in an order consistent with their requests and answers: no statement sees a half-done change, a dropped space or model is gone for everyone, and rows always read back with the fields of the current schema. A statement that is refused changes nothing.",
  ["schedules", "histories"],
  "every interleaving of create, alter, drop and inspect statements with each other and with row statements, on the same and on different spaces and models",
  "Tests run schema statements one after another; only the scheduler decides whether locks are taken in an order that excludes half-done states.",
  [E_+"core/mod.rs", E_+"core/space.rs", E_+"core/model/alt.rs", E_+"core/model/delta.rs", E_+"core/system_db.rs"],
  [("space and model locks", E_+"core/mod.rs"), ("lazy schema deltas", E_+"core/model/delta.rs")],
  observe=["client responses", "inspect statements"])
p("C08", "Every statement does exactly what its definition says",
  "For a single client, every answer (success or error, and the exact typed data) is the one a simple reference model of the query language gives, whatever sequence of statements came before. A statement that is answered with an error has no effect, in particular one that fails validation half-way or is incomplete, and a successful one changes exactly what it names.",
  ["histories", "inputs"],
  "every sequence of statements, valid and invalid, over all data types, boundary values, nullability, names and schema changes, with the background writer and storage running underneath",
  "The tests sample a few statements per feature; the combinations of schema history, stored row version and statement are unbounded.",
  [E_+"ql/", E_+"core/exec.rs", E_+"core/dml/", E_+"core/space.rs", E_+"core/model/", E_+"data/"],
  [("parser", E_+"ql/"), ("executor", E_+"core/")],
  observe=["client responses", "inspect statements"])
p("C09", "A statement that fails on a disk error has no effect",
  "If a schema or user statement is answered with an error because a file operation failed, neither the running server nor any later restart shows any effect of it, and everything acknowledged before stays intact and readable. After the disk works again the same statement can be repeated and then succeeds and survives restarts.",
  ["fault_sequences", "histories", "crash_points"],
  "every failing file operation (creating, writing, short and torn writes, syncing, truncating, renaming and removing, full disk), at every point of every history",
  "No test injects an I/O error.",
  [E_+"txn/gns/", E_+"storage/v2/raw/journal/raw/mod.rs", E_+"core/space.rs", E_+"core/model/mod.rs", E_+"core/dcl.rs", E_+"storage/common/interface/fs.rs"],
  [("rollback of a failed event", E_+"storage/v2/raw/journal/raw/mod.rs"), ("commit before apply", E_+"core/")],
  observe=["client responses", "state after restart"])
p("C10", "Transient disk faults lose nothing and heal by themselves",
  "While background writes fail, acknowledged row changes stay readable and stay queued; once the disk works again they become durable and the system reports itself healthy again within a bounded time, without a restart. No sequence of failed, short or torn background writes loses, duplicates or corrupts an acknowledged change that a clean stop or the bounded time covers.",
  ["fault_sequences", "histories", "crash_points"],
  "every sequence of file operation failures and recoveries during background writing, followed by a crash, a clean stop or nothing",
  "No test injects an I/O error into the background writer or waits for its recovery.",
  [E_+"fractal/mgr.rs", E_+"storage/v2/impls/mdl_journal.rs", E_+"storage/v2/raw/journal/raw/mod.rs", E_+"fractal/mod.rs"],
  [("retry of failed batches", E_+"fractal/mgr.rs"), ("journal repair", E_+"storage/v2/raw/journal/raw/mod.rs")],
  observe=["client responses", "health statement", "state after restart"])
p("C11", "A termination request stops the server cleanly in bounded time",
  "After a termination signal, at any moment and whatever the clients are doing (idle, mid-request, mid-handshake, not reading), the server process ends by itself within a bounded time. Everything acknowledged before the end is on disk, a request in progress is either answered or has no partial effect, and the next start works.",
  ["schedules", "histories", "fault_sequences"],
  "every moment of the signal in every history, with any mixture of idle, stalled and misbehaving connections and with failing disks",
  "The shutdown path is not tested at all: it needs a running server, connections in awkward states and control over time.",
  ["server/src/main.rs", E_+"mod.rs", E_+"net/mod.rs", E_+"fractal/mgr.rs", "server/src/util/os/"],
  [("termination broadcast", E_+"mod.rs"), ("connection drain", E_+"net/mod.rs"), ("final flush", E_+"fractal/mgr.rs")],
  observe=["process exit", "state after restart"])
p("C12", "No statement ever hangs",
  "Every complete statement is answered within a bounded time once faults stop, whatever other clients, background work and schema changes do at the same time: no deadlock, livelock or lost wake-up. The server process never blocks as a whole because one client, one model or one disk operation is slow.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of statements of all kinds with each other, with the background writer, with slow disks and with misbehaving clients",
  "A deadlock needs one particular interleaving of two lock acquisitions; tests that happen not to hit it prove nothing.",
  [E_+"core/", E_+"fractal/", E_+"net/", E_+"idx/mtchm/", E_+"sync/"],
  [("lock order", E_+"core/mod.rs"), ("blocking task pool", E_+"core/exec.rs"), ("message loops", E_+"fractal/mod.rs")],
  observe=["answer of every statement", "state of all threads when nothing can run"])
p("C13", "Answers do not depend on how bytes arrive",
  "For any way the bytes of a connection are split, merged, delayed or pipelined, the server answers every complete request once and in order with the same answer as if it had been sent alone. A request whose bytes never arrive completely has no effect.",
  ["schedules", "inputs", "fault_sequences"],
  "every segmentation and timing of the request and response streams, any pipeline depth, small socket buffers, slow readers, and connections cut at every byte",
  "The protocol tests feed a parser with prefixes of a few packets; they do not cover the connection loop, its buffer handling and real responses.",
  [E_+"net/protocol/", E_+"net/mod.rs"],
  [("resumable packet decoder", E_+"net/protocol/exchange.rs"), ("connection loop", E_+"net/protocol/mod.rs")],
  observe=["response stream of each connection"])
p("C14", "Misbehaving clients cannot disturb others",
  "Whatever bytes a client sends (malformed, oversized or truncated packets, handshakes and statements), and however it stalls or disconnects, on plain and TLS endpoints, other clients are accepted and answered correctly and promptly and the database is unaffected by anything but complete valid statements. The misbehaving connection itself gets an error answer or is closed.",
  ["inputs", "schedules", "fault_sequences"],
  "every byte sequence, stall and disconnect on any number of hostile connections, at every moment relative to well-behaved ones, and failing accepts",
  "Fuzzing of single functions in the test suite is absent, and a stall needs controlled time and several connections.",
  [E_+"net/", E_+"ql/lex/", E_+"ql/ast/", E_+"core/exec.rs"],
  [("decoders", E_+"net/protocol/"), ("per-connection tasks", E_+"net/mod.rs")],
  observe=["answers to other clients", "database contents"])
p("C15", "Only valid credentials open a session",
  "A session is opened if and only if the handshake names an existing user with that user's exact current password; nobody can send a statement without it. This holds across user creation and removal, restarts and concurrent logins, and passwords are never stored in readable form.",
  ["inputs", "histories", "schedules"],
  "every user name and password offered (near misses, other users' passwords, empty, long), every order of user changes, logins and restarts, on both kinds of endpoints",
  "Tests check one good and one bad login at the protocol decoder with a fixed user table.",
  [E_+"net/protocol/mod.rs", E_+"net/protocol/handshake.rs", E_+"core/system_db.rs", E_+"core/dcl.rs"],
  [("password verification", E_+"core/system_db.rs")],
  observe=["handshake answers", "bytes on disk"])
p("C16", "Only root may change schema, spaces and users",
  "A user other than root can run row statements and reads but every statement that creates, alters or drops a space, model or user is refused for it and has no effect, whatever the state of the session. Root can never be removed, and no user can remove itself.",
  ["histories", "inputs", "schedules"],
  "every statement kind by every kind of user in every order, also concurrently with root creating and removing those users, and across restarts",
  "No test drives statements through sessions of different users.",
  [E_+"core/exec.rs", E_+"core/dcl.rs", E_+"core/system_db.rs"],
  [("permission check before dispatch", E_+"core/exec.rs")],
  observe=["client responses", "state"])
p("C17", "Damaged data files are detected, never served as good data",
  "If a data file is damaged while the server is down (flipped bits, zeroed, garbled, moved or reversed blocks, missing or extra bytes, a missing file), the next start either refuses cleanly with an error or serves exactly the data that was there before the damage. It never crashes with memory errors, never hangs and never serves wrong rows, schemas or users. This holds for files that were closed cleanly and, after the server was killed, for everything before the last event that was synced (damage that reaches the end of such a file cannot be told from an interrupted write).",
  ["inputs", "fault_sequences", "histories"],
  "every damage at every position of every data file, short of what cannot be told from an interrupted write, after every history, with a clean or an unclean end",
  "The tests corrupt a few bytes at chosen positions of tiny journals.",
  [E_+"storage/v2/raw/journal/raw/mod.rs", E_+"storage/v2/impls/mdl_journal.rs", E_+"storage/common/checksum.rs", E_+"storage/common/sdss/", E_+"storage/common_encoding/r1/"],
  [("checksums of events, batches and headers", E_+"storage/v2/raw/journal/raw/mod.rs")],
  observe=["process start", "state after the start"])
p("C18", "Directories of the previous storage format are upgraded without loss",
  "The first start on a data directory that a previous release (storage format v1) closed cleanly converts it and then serves exactly the spaces, models, fields, rows and users it held (root with the configured password), and everything stays so over later changes, restarts and crashes. A crash, power loss or disk error at any moment of that upgrade loses nothing: a later start continues it or starts it over.",
  ["inputs", "histories", "crash_points", "fault_sequences"],
  "every content a v1 directory can have (all types, models whose fields changed between batches, several batches, deleted rows, empty models), every crash point, error and torn write during the upgrade, and any history after it",
  "Only one hand-made v1 directory is ever read by a test, without an upgrade to v2, a restart, or an interruption.",
  [E_+"storage/v1/", E_+"storage/v2/mod.rs", E_+"storage/v2/impls/mdl_journal.rs", E_+"storage/mod.rs"],
  [("v1 loader", E_+"storage/v1/loader.rs"), ("recreation in the current format", E_+"storage/v2/mod.rs")],
  observe=["process start", "rows, schemas and users after it"])
p("C19", "Two servers never run on one data directory",
  "While a server is running on a data directory, every attempt to start another one there is refused without disturbing the first: its data, its answers, its lock and its later restarts. After the server has ended cleanly the directory can be used again.",
  ["schedules", "histories"],
  "every moment of the second start relative to the first server's statements, background writes and stop",
  "Tests never start two servers.",
  ["server/src/main.rs", "server/src/util/os/", E_+"storage/"],
  [("lock file", "server/src/main.rs")],
  observe=["outcome of the second start", "first server's answers", "state after restart"])
p("C20", "No input or schedule crashes the server",
  "No sequence of requests, valid or not, and no interleaving of clients and background work makes a task of the server panic, the process abort, or memory be used after it was freed; internal invariants that the code asserts always hold. A start with intact data never fails in that way either.",
  ["inputs", "schedules", "histories"],
  "every byte sequence and statement sequence of any number of clients under every interleaving, with restarts",
  "Tests reach only the statements they were written for; overflow, recursion and lifetime errors need unusual inputs or interleavings.",
  [E_+"ql/", E_+"net/", E_+"core/", E_+"idx/", E_+"mem/", E_+"fractal/"],
  [("bounds checks and error paths", E_+"ql/"), ("epoch reclamation", E_+"sync/atm.rs")],
  observe=["panics of any thread or task", "signals of the process", "reads of poisoned memory"])
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
p("C22", "Dropped spaces and models leave the disk, existing ones never do",
  "After an undisturbed history and a clean stop the data directory holds the storage of exactly the spaces and models that exist: what was dropped (alone, with its space, or and then created again under the same name) is removed, and nothing of an existing model is ever removed with it.",
  ["histories", "schedules"],
  "every sequence and interleaving of create and drop statements with row statements and background tasks, with clean restarts in between",
  "Removal happens in a background task after the answer; the tests look only at the in-memory result of a drop.",
  [E_+"fractal/mgr.rs", E_+"core/space.rs", E_+"core/model/mod.rs"],
  [("removal tasks of the background service", E_+"fractal/mgr.rs")],
  observe=["contents of the data directory after a stop"])
p("C21", "Configuration is read the same from every source",
  "The same settings given on the command line, in the environment or in a configuration file produce the same effective configuration, and invalid or conflicting settings are refused with an error before anything is created on disk.",
  ["inputs", "configurations"],
  "every combination of settings and sources",
  "The tests cover chosen combinations.",
  [E_+"config.rs"],
  [("configuration reader", E_+"config.rs")],
  observe=["effective configuration"])
NA = {"C21": "reading the configuration is a pure function of its input: it involves no schedule, clock, fault, interleaving or crash for a simulation to decide (the simulated servers all start through it, with generated settings, but that is input generation and not claimed as a check)"}
NOTE = "Evidence, not proof: seeded sampling of executions of the real server code (compiled from /repo) on simulated threads, tokio, network, clock and disk. Trusts the shims of std, tokio, parking_lot, crossbeam-epoch, OpenSSL and rcrypt in /verif/sim, the reference model and the crash model stated in DESIGN.md; memory accesses are sequentially consistent; no weak-memory reorderings."
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
open("properties.jsonl", "w").write("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
checks = [dict(property=x["id"], quick_cmd=f"./check.sh {x['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {x['id']}", evidence_file=f"evidence/{x['id']}.json",
               technique="deterministic simulation with fault injection (seeded search over schedules, network, disk and crash faults of the whole server in one process; recorded histories judged against a reference model)",
               level="exploration", level_note=NOTE) for x in P if x["id"] not in NA]
M = dict(version=1, setup_cmd="./check.sh build", hooks=dict(guard="none", enable="no hooks: the simulator compiles /repo's sources unchanged against its own versions of std, tokio, parking_lot, crossbeam-epoch and the other dependencies", source_commits=[]),
         checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes="Commits in /repo that start with fix: repair genuine defects; they are listed in known_findings.json.")
open("MANIFEST.json", "w").write(json.dumps(M, indent=1, ensure_ascii=False) + "\n")
for x in P:
    for f in x["anchors"]["files"] + [m["where"] for m in x["anchors"]["mechanism"]]:
        if not os.path.exists("/repo/" + f): print("no such file:", x["id"], f)
