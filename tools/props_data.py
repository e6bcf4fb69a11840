prop("C01", "DDL takes effect in memory only after its log record is durably committed",
     "Every statement that creates, alters or drops a space or a model makes its change visible to other statements only after the record of that change has been committed to the catalog log. A statement that reports success has both committed exactly one such record and applied the change; a statement that reports an error before the commit leaves the catalog as it was, and no objects on disk are scheduled for deletion before the drop is committed.",
     ["fault_sequences", "histories", "crash_points"], "every DDL statement, every existing catalog, every outcome of the commit and of every other fallible step",
     "The tests run DDL against a file system on which the commit always succeeds; an early mutation is only visible when the commit (or a step after the mutation) fails or the process dies between the two.",
     ["core/space.rs", "core/model/mod.rs", "core/model/alt.rs", "core/mod.rs", "fractal/drivers.rs"],
     [("commit through the catalog driver, then mutate", "core/space.rs"), ("commit through the catalog driver, then mutate", "core/model/alt.rs"), ("create/drop model", "core/model/mod.rs")],
     "path-sensitive interprocedural typestate over MIR (commit-before-mutate)",
     "Every path (within the engine's abstraction) of every DDL handler reachable from the execution tables; trusts the std/parking_lot models listed in the engine and that a mutation goes through one of the enumerated catalog mutators.",
     [("namespace", "in-memory catalog of spaces and models", "core/mod.rs")], ["statement result", "catalog contents", "catalog log"])

prop("C02", "User administration takes effect only after its log record is committed",
     "Creating, altering or dropping a user changes the in-memory account table only after the record of that change has been committed to the catalog log, and a statement that reports success has done both. A failed statement leaves every account exactly as it was.",
     ["fault_sequences", "histories", "crash_points"], "every user-administration statement, every account table, every outcome of the commit",
     "The tests never make the commit of a user record fail, and cannot try every path on which the order of the two steps differs.",
     ["core/system_db.rs", "core/dcl.rs"],
     [("commit, then change the account table", "core/system_db.rs")],
     "path-sensitive interprocedural typestate over MIR (commit-before-mutate)",
     "Every path of the user statements reachable from the execution tables and from the public account API; trusts the std model of HashMap and RwLock.",
     [("users", "in-memory account table", "core/system_db.rs")])

prop("C03", "A log commit reports success only after its bytes are flushed and fsynced",
     "When a commit of an event into the catalog log or of a row batch into a model's data log returns success, all bytes of the record have been handed from the in-process write buffer to the file and the file has been fsynced after the last of those writes. A write or fsync that fails on the way makes the commit return an error.",
     ["crash_points", "fault_sequences"], "every record type of both log formats, every outcome of each write and fsync, every crash point after the success is reported",
     "The tests run over an in-memory file system which has no notion of an unsynced byte and never fails, so dropping the flush or the fsync, or swallowing its error, changes nothing they can see.",
     ["storage/v2/raw/journal/raw/mod.rs", "storage/common/sdss/impls/sdss_r1/rw.rs", "storage/common/interface/fs.rs", "storage/v2/impls/mdl_journal.rs", "storage/v2/impls/gns_log.rs"],
     [("commit_with_ctx, txn_context and the AUTO_SYNC policy of each log", "storage/v2/raw/journal/raw/mod.rs"), ("TrackedWriter: buffer, flush, fsync", "storage/common/sdss/impls/sdss_r1/rw.rs")],
     "path-sensitive interprocedural typestate over monomorphised MIR (buffered/dirty/failed)",
     "All 13 commit instantiations, every path within the engine's abstraction; std::fs::File's write and sync_all are trusted to do what they promise, and the loop that writes a whole buffer is the subject of C10.",
     [("TrackedWriter.buf", "bytes accepted but not yet written to the file", "storage/common/sdss/impls/sdss_r1/rw.rs")], ["commit result", "bytes on disk"])

prop("C04", "A storage driver with an unrecovered fault is never written through",
     "Every commit to the catalog log or to a model's data log happens while that driver's lock is held and only after the driver was found healthy under that same lock. A failed commit marks the driver faulty before the lock is released, the mark is cleared only after the driver's heartbeat succeeded, and a statement or batch refused because of it (or whose commit failed) is never reported as successful. A row change is recorded in memory only if the model's driver was seen healthy by that statement.",
     ["fault_sequences", "schedules", "histories"], "every statement, batch flush and recovery task, every interleaving at the locks, every outcome of each commit and heartbeat",
     "The tests inject no storage faults, and the dangerous case needs a second writer to pass the health check between another writer's failure and its mark.",
     ["fractal/drivers.rs", "fractal/mgr.rs", "fractal/util.rs", "fractal/mod.rs", "core/dml/ins.rs", "core/dml/upd.rs", "core/dml/del.rs", "storage/v2/raw/journal/raw/mod.rs"],
     [("status flag and commit under the driver lock", "fractal/drivers.rs"), ("flush and recovery tasks", "fractal/mgr.rs")],
     "path-sensitive interprocedural typestate over MIR (lock / health check / commit / mark)",
     "Every path of the 17 statement handlers and the two background executors; one abstract driver per kind (catalog, model), so mixing up two models' drivers in one function is not seen.",
     [("FractalGNSDriver.status, FractalModelDriver.status", "sticky fault mark of a driver", "fractal/drivers.rs")], ["statement result", "bytes appended to a log after a fault"])

prop("C05", "Every storage fault is counted once, recovered, and reported recovered once",
     "Every failed commit on a shared driver reports exactly one fault to the global health count and queues exactly one recovery task for that driver. A recovery task whose heartbeat fails queues itself again; one that succeeds marks the driver healthy and takes exactly one fault off the count, and removing a model takes one off exactly when its driver was faulty. A batch whose flush failed or was refused is queued again.",
     ["fault_sequences", "histories"], "every statement, batch flush and recovery task, every outcome of each commit and heartbeat",
     "The tests inject no storage faults; an unbalanced report only shows as a server that stays 'bad' (or claims 'good') after a particular sequence of failure, drop and recovery.",
     ["fractal/drivers.rs", "fractal/mgr.rs", "fractal/util.rs", "fractal/mod.rs", "core/model/mod.rs", "core/space.rs", "core/system_db.rs"],
     [("recovery tasks", "fractal/mgr.rs"), ("fault reports next to each commit", "fractal/drivers.rs"), ("fault count", "fractal/mod.rs")],
     "path-sensitive interprocedural typestate over MIR (fault, task and recovery counters)",
     "Every path of the 17 statement handlers and the two background executors; queueing a task is trusted to run it.",
     [("GlobalHealth.faults", "number of faulty drivers", "fractal/mod.rs")], ["INSPECT GLOBAL health", "recovery tasks queued"])

prop("C06", "Nothing read back from a log takes effect before it is verified",
     "When the catalog log or a model's data log is read back, an event changes the catalog or the row index only after its transaction id was compared with the expected next one and the checksum computed over every byte it applies was compared with the stored one. A close or reopen event is accepted only if its kind, checksum, transaction id and its back-links (previous transaction id, offset and checksum) all match, and the log is accepted as complete only at a verified close event at the end of the file; everything else is reported as an error.",
     ["inputs", "crash_points", "histories"], "every byte sequence found in a log file: torn, truncated, reordered, spliced or bit-flipped",
     "The tests read back logs they have just written; a check that is skipped or runs after the event was applied only matters for damaged files, of which no sample is representative.",
     ["storage/v2/raw/journal/raw/mod.rs", "storage/v2/raw/journal/mod.rs", "storage/v2/impls/mdl_journal.rs", "storage/v2/impls/gns_log.rs", "storage/common/sdss/impls/sdss_r1/rw.rs"],
     [("RawJournalReader: scroll, handle_close, handle_reopen", "storage/v2/raw/journal/raw/mod.rs"), ("decode_apply of both log formats", "storage/v2/raw/journal/mod.rs"), ("batch restore", "storage/v2/impls/mdl_journal.rs")],
     "interprocedural provenance (taint) analysis over MIR: which comparisons guard which effects",
     "All paths of both monomorphised log readers; coverage of a checksum is per value read, so a checksum over a sub-range of one fixed-size block is not distinguished; which bytes the writer covers is not compared.",
     [("RawJournalReader", "expected next transaction id and back-links", "storage/v2/raw/journal/raw/mod.rs")], ["catalog and rows after restart", "startup error"])

prop("C07", "Only authenticated clients run statements; only root runs privileged ones",
     "A connection gets a session, and its queries are executed, only after its user name and password were verified against the account table, and it is treated as root only if the verified account is root. Every statement that changes spaces, models or accounts, or lists the accounts, has an effect only if the client is root, and no statement alters or drops the root account.",
     ["inputs", "histories"], "every handshake, every account table, every statement a client can send",
     "The tests send a handful of statements, nearly all as root; the guarantee is about every statement and every path through the handshake, including the ones nobody wrote a test for.",
     ["net/protocol/mod.rs", "net/protocol/handshake.rs", "core/system_db.rs", "core/exec.rs", "core/dcl.rs", "core/dml/mod.rs"],
     [("session set-up in the connection loop", "net/protocol/mod.rs"), ("verify_user", "core/system_db.rs"), ("privileged dispatch", "core/exec.rs"), ("account statements", "core/dcl.rs")],
     "path-sensitive interprocedural typestate over MIR (verified / session / root facts)",
     "Every path from the connection loop and the query dispatcher; rcrypt is trusted to compare a password with a hash, and which account a name denotes is the map's business.",
     [("ClientLocalState", "name and root flag of the authenticated client", "net/protocol/mod.rs"), ("users", "account table", "core/system_db.rs")], ["response to a statement", "session established"])

prop("C08", "Passwords are stored and logged only as hashes",
     "Whenever an account is created or its password is changed, what is kept in memory and what is written to the catalog log is the output of the password hash, never the password itself. The same holds for the root password taken from the configuration at startup.",
     ["inputs", "histories"], "every account statement and start-up configuration, every password",
     "A plain text password works just as well as a hash in every test that logs in with it through a consistent code path; only an inspection of the log or memory would show it.",
     ["core/system_db.rs", "core/dcl.rs", "storage/mod.rs", "txn/gns/sysctl.rs"],
     [("hash before commit and store", "core/system_db.rs"), ("root account at startup", "storage/mod.rs")],
     "interprocedural provenance (taint) analysis over MIR from the hash to the stores and log records",
     "Every path from the query dispatcher and from storage start-up; accounts restored from an existing log are taken as they are.",
     [("User.phash", "stored password hash", "core/system_db.rs")], ["catalog log contents"])

prop("C09", "Reading back the catalog log applies each record in full or refuses it",
     "When the catalog log is read back at startup, a record is accepted only if the change it stands for was made to the spaces, models or accounts, just as when the statement ran, and the whole record was consumed. A record that conflicts with what was restored so far (a name already taken, an object, field or account that is missing, an object id that differs on a drop or model alteration) is an error, and every record is read by the decoder of the type it was written as.",
     ["histories", "inputs"], "every sequence of catalog records, every record content",
     "The tests replay one record of each kind onto the state it was made for; a replay step that is skipped, mis-dispatched or tolerated needs a particular history to show.",
     ["storage/common_encoding/r1/impls/gns/mod.rs", "storage/common_encoding/r1/impls/gns/space.rs", "storage/common_encoding/r1/impls/gns/model.rs", "storage/common_encoding/r2.rs", "storage/v2/impls/gns_log.rs", "data/dict.rs", "core/system_db.rs"],
     [("update_global_state of each record type", "storage/common_encoding/r1/impls/gns/model.rs"), ("decode table", "storage/v2/impls/gns_log.rs"), ("merging property patches", "data/dict.rs")],
     "path-sensitive interprocedural typestate over MIR (changes made, conflicts met, ids compared) plus dispatch-table/record-code agreement",
     "Every path of the 11 decoders; which values are put into the changed objects is not compared with the record.",
     [("GNSData", "spaces, models and accounts restored so far", "core/mod.rs")], ["catalog after restart", "startup error"])

prop("C10", "After a failed write the log continues exactly after its last good record",
     "Whatever part of a write the file accepted before it failed, the log writer knows how many bytes are in the file, and takes new records only once the file ends exactly where the last record that was committed ends; buffered bytes, checksum and record number are then those of that point. A partial write that the system accepts is continued with the remaining bytes, and a record counts as the last good one if and only if its commit succeeded.",
     ["faults", "histories", "inputs"], "every point at which a write of the log can fail or be cut short, every record size, every history of failures and recoveries",
     "The tests run on a virtual file system that accepts every write whole and never fails; the guarantee is about short writes and errors at any byte.",
     ["storage/common/interface/fs.rs", "storage/common/sdss/impls/sdss_r1/rw.rs", "storage/v2/raw/journal/raw/mod.rs", "mem/fixed_vec.rs"],
     [("fwrite_all_count", "storage/common/interface/fs.rs"), ("TrackedWriter", "storage/common/sdss/impls/sdss_r1/rw.rs"), ("txn_context and __lwt_heartbeat", "storage/v2/raw/journal/raw/mod.rs")],
     "path-sensitive typestate with value provenance over MIR (written counts, offset, buffer, checksums, last good record)",
     "Every path of the write-all loop for up to three partial writes, of every writer entry the journal uses and of every commit and recovery entry; a write in two parts is not checked to split the caller's bytes without gap or overlap.",
     [("RawJournalWriter", "last good record: id, end offset, checksum", "storage/v2/raw/journal/raw/mod.rs"), ("TrackedWriter", "tracked offset, buffer, checksums", "storage/common/sdss/impls/sdss_r1/rw.rs")], ["bytes of the log file", "result of a commit"])

prop("C11", "A clean shutdown syncs every model and closes every journal",
     "On termination the server waits for the connections of every listener, only then starts the final sync, and waits for it; the final sync writes the outstanding changes of every model, going on with the others when one fails. Then, once nothing runs any more, the journals of the catalog and of every model are closed, even if another one can't be; a journal with an unrecovered fault is recovered first and not closed if that fails.",
     ["schedules", "faults", "histories"], "every number of models and connections, every point at which the signal arrives, every set of journals that fail",
     "The tests never shut a server down while statements run or disks fail; which of several tasks sees the signal first is up to the scheduler.",
     ["mod.rs", "net/mod.rs", "fractal/mod.rs", "fractal/mgr.rs", "fractal/drivers.rs"],
     [("start and finish", "mod.rs"), ("Listener::terminate and connection tasks", "net/mod.rs"), ("executor services", "fractal/mgr.rs"), ("unload_all", "fractal/mod.rs")],
     "interprocedural typestate over MIR, including async state machines, with provenance of the termination signals",
     "Every path of the process, the server task, the listeners, connection tasks and services; tokio's channels, join handles and runtime are trusted, and how often a failing retry is repeated is not bounded.",
     [("signal / fractal_signal", "termination signals of connections and of the background services", "mod.rs"), ("FractalHandle", "background services", "fractal/mgr.rs")], ["files after shutdown", "data after restart"])

prop("C12", "A row statement makes and queues exactly one change, or none at all",
     "An INSERT, UPDATE or DELETE that succeeds has made exactly its change to the row and queued exactly one delta for the log: of the right kind, holding that row and carrying a data version freshly taken for it; an update does all this under the row's write lock, after bringing the row to the current schema, with every expression applied. A statement that fails queues nothing and leaves the row and the index as they were: changes already made by earlier expressions are undone, newest first. An inserted or updated row is marked with the version of its change.",
     ["inputs", "histories", "schedules"], "every INSERT, UPDATE and DELETE, every mix of valid and failing expressions, every interleaving at the row locks",
     "The tests check the value of a row after a statement; a missing, duplicated or misnumbered delta shows only after a restart, and a half-applied update only for particular mixes of expressions.",
     ["core/dml/ins.rs", "core/dml/upd.rs", "core/dml/del.rs", "core/model/delta.rs", "core/index/row.rs", "core/index/mod.rs"],
     [("update with rollback", "core/dml/upd.rs"), ("insert", "core/dml/ins.rs"), ("delete", "core/dml/del.rs"), ("data deltas and versions", "core/model/delta.rs")],
     "path-sensitive interprocedural typestate with value provenance over MIR (lock, version, change, undo record, delta)",
     "Every path of the three statement handlers, for the changes of up to one expression at a time; that the versions of two concurrent statements on one key are ordered like their effects on the index is not decided.",
     [("DeltaState", "data version counter and queue of row changes", "core/model/delta.rs"), ("RowData", "fields and version of a row", "core/index/row.rs")], ["statement result", "rows in memory", "rows after a restart"])

prop("C13", "Rows hold only values that are valid for the fields of their model",
     "A value is stored in a row only after it was found valid for the very field it is stored in: of the field's class, within the range of its type, null only if the field is nullable, and for lists so for every element. The operators of UPDATE compute what they name from the old value and the operand, and fail instead of overflowing an integer or dividing by zero. A statement names its row by an equality on the primary key with a value of the key's type.",
     ["inputs"], "every value, field type (nested lists included), assignment operator and WHERE clause",
     "The tests use a few values per type; the boundaries of ten numeric types, nested lists, nulls, and thirty operator and class pairs are far more than they sample.",
     ["core/dml/ins.rs", "core/dml/upd.rs", "core/dml/mod.rs", "core/model/mod.rs", "data/tag.rs"],
     [("vt_data_fpath, vt_list_element, rvt_data", "core/model/mod.rs"), ("range limits", "data/tag.rs"), ("operator table", "core/dml/upd.rs"), ("resolve_where", "core/dml/mod.rs")],
     "path-sensitive interprocedural analysis with value provenance over MIR, plus the tables of checks and operators",
     "Every path of the checks, the 30 operator slots and the INSERT and UPDATE handlers; overflow of floats to infinity is allowed.",
     [("Field", "type layers and nullability", "core/model/mod.rs")], ["statement result", "values stored"])

prop("C14", "Rows always follow the schema of their model",
     "Whenever a statement or the log writer uses the fields of a row, the row was first brought to the current schema of its model: every schema change since the row's version is applied in order, added fields are null, removed fields are gone, and the row's version is that of the last change applied. Every field added to or removed from a model, by ALTER MODEL or when that is replayed, is recorded under the very next schema version, and changing a field's type leaves the order of the columns alone. A row read back from a data log gets the columns its model had at the schema version of its batch, keeps the data version of its record, and is brought to the current schema, while a model migrated from the v1 storage engine is written at schema version zero with no recorded changes and all of its rows at that version.",
     ["histories", "inputs", "schedules"], "every history of ALTER MODEL statements between a row's last write, its next use, and a restart",
     "The tests alter a model once and look at it; which fields a row shows depends on every change made since it was last touched, and on every restart in between.",
     ["core/index/row.rs", "core/model/delta.rs", "core/model/mod.rs", "core/model/alt.rs", "core/dml/sel.rs", "storage/v2/impls/mdl_journal.rs", "storage/v1/raw/batch_jrnl/restore.rs", "storage/common_encoding/r1/impls/gns/model.rs"],
     [("resolve_schema_deltas_and_freeze_if", "core/index/row.rs"), ("schema deltas", "core/model/delta.rs"), ("ModelMutator and columns_as_of", "core/model/mod.rs"), ("batch restore", "storage/v2/impls/mdl_journal.rs")],
     "path-sensitive interprocedural typestate with value provenance over MIR (row freshness, schema versions, recorded changes)",
     "Every path of the functions that bring rows up to date, alter models, read rows and restore batches; the full dump written once when migrating from the v1 engine reads rows without this step, right after they were loaded. That a restored value has the type of its field is not decided.",
     [("DeltaState", "schema version and schema changes of a model", "core/model/delta.rs"), ("RowData", "fields and schema version of a row", "core/index/row.rs")], ["rows in memory", "rows after a restart"])

prop("C15", "Statements that only read see one state and change nothing",
     "SELECT, SELECT ALL, INSPECT and USE change no row, model, space, user or log, except that a row read is first brought to the current schema of its model. SELECT ALL goes through the rows of a model holding the index latch exclusively, and INSERT and DELETE change the index only while they hold it, so the rows sent are those of one moment. For each row sent, every column asked for (or every column of the model) gets exactly one cell: the row's field of that name or, for the primary key alone, its key, all read under a single lock of the row, and the number of columns announced is the number sent.",
     ["schedules", "inputs", "histories"], "every interleaving of readers with INSERT, UPDATE, DELETE and ALTER, and every list of columns",
     "The tests select from a quiet model with one thread; torn rows and moving row sets need a writer at the right moment.",
     ["core/dml/sel.rs", "core/index/mod.rs", "core/dml/ins.rs", "core/dml/del.rs", "core/ddl_misc.rs", "core/exec.rs"],
     [("select, select_all", "core/dml/sel.rs"), ("the index latch", "core/index/mod.rs"), ("insert under the latch", "core/dml/ins.rs"), ("delete under the latch", "core/dml/del.rs")],
     "effect reachability over the call graph, and path-sensitive interprocedural typestate with value provenance over MIR (latch, row lock, columns)",
     "All functions reachable from the executor entries of the reading statements are free of effects (the schema resolution of rows is the subject of C14); every path of the SELECT handlers. The number of rows announced, LIMIT and the text of INSPECT are not decided; loops over columns written with iterator adaptors are followed only in part.",
     None, ["statement result"])

prop("C16", "No row change is lost when a batch fails or when batches are replayed",
     "When a batch of row changes can't be committed, every change taken from the model's queue for it is returned to be taken next, the batch is retried for the same number of changes, and these are not counted again; changes that were committed are not queued again. Every change taken for a batch is either written to it or found outdated by a newer version of its row, and the batch says that it ends early exactly when it holds fewer changes than announced. On replay a row is replaced only if it is not newer than the change, a delete removes only a row that is not newer and the newest delete of a key wins, and the data version of the model then only moves forward, past every change applied.",
     ["faults", "histories", "schedules"], "every point at which writing a batch can fail, every order in which the changes of a row reach the log, every sequence of batches",
     "The tests write each batch once, to a disk that never fails, and replay it in the order of the changes; lost or misordered changes need a failed write or two statements that reach the log in the other order.",
     ["fractal/mgr.rs", "storage/v2/impls/mdl_journal.rs", "core/model/delta.rs", "storage/v1/raw/batch_jrnl/restore.rs"],
     [("try_write_model_data_batch", "fractal/mgr.rs"), ("BatchWriter and finish", "storage/v2/impls/mdl_journal.rs"), ("queue of row changes", "core/model/delta.rs"), ("apply_batch", "storage/v1/raw/batch_jrnl/restore.rs")],
     "path-sensitive interprocedural typestate with value provenance over MIR (changes taken and returned, versions compared)",
     "Every path of the background tasks, the batch writer and both replay functions, for up to a few changes per batch; the data version is decided for the current engine only (the v1 format is migrated), and the versions of concurrent changes of one row are taken as given.",
     [("DeltaState", "queue of row changes, data version", "core/model/delta.rs"), ("BatchStats", "changes taken for a batch", "storage/v2/impls/mdl_journal.rs")], ["data log", "rows after a restart"])

prop("C17", "Locks are taken in one order, so statements and background tasks can't deadlock",
     "No thread that runs a statement or a background task waits for a lock (of the spaces, models, accounts, the index latch, a row, a list, a log driver) while it holds one that another thread can hold while it waits, directly or through others, for the first. No thread waits for a lock of a kind it already holds, and no task is suspended, or waits for another one, while it holds a lock. Every lock is released on every path.",
     ["schedules", "inputs"], "every interleaving of any number of statements and background tasks",
     "A deadlock needs two threads at exactly the wrong points; the tests run statements mostly one at a time, and a run that happens not to deadlock shows nothing.",
     ["core/mod.rs", "core/exec.rs", "core/index/mod.rs", "core/index/row.rs", "core/model/mod.rs", "core/space.rs", "fractal/drivers.rs", "fractal/mgr.rs", "core/system_db.rs"],
     [("space and model index locks", "core/mod.rs"), ("driver locks", "fractal/drivers.rs"), ("index latch", "core/index/mod.rs"), ("row locks", "core/index/row.rs")],
     "interprocedural lock-order analysis over MIR (path-sensitive set of held locks, acyclic order)",
     "Every path of the connection loop and the background executors; locks are told apart by the type they protect, so two rows are one kind, and lists nested in a list are taken to be locked from the outside in. Startup and shutdown, where nothing else runs, and lock-free structures are left out.",
     [("GNSData", "locks of spaces and models", "core/mod.rs"), ("drivers", "locks of the logs", "fractal/drivers.rs")], ["that every statement ends"])

prop("C18", "Every query gets exactly one response, and it is the right one",
     "A query that was received in full is run exactly once, and its client is then sent exactly one response, complete and flushed before the server waits for more: of the kind and with the contents the statement returned, or its error code. A packet that is not a well-formed query is never run and is answered with an error; one that has only arrived in part is neither run nor answered, and is continued from where its parsing stopped, with every digit received so far. After a response the next query starts with an empty buffer and a fresh parser; the payload of a query is exactly what its packet size says, split at its window; and a handshake is answered, with its error if it failed, before the connection goes on or is closed.",
     ["inputs", "histories"], "every way the bytes of packets can be split over reads, every response kind, every sequence of good and bad packets on a connection",
     "The tests feed the parser a few packets byte by byte and run statements without a connection; which bytes of which response are written after which packet of a connection they do not see.",
     ["net/protocol/mod.rs", "net/protocol/exchange.rs", "net/mod.rs"],
     [("query_loop, scan_int", "net/protocol/mod.rs"), ("QExchangeState, resume", "net/protocol/exchange.rs"), ("ConnectionHandler::run", "net/mod.rs")],
     "path-sensitive interprocedural typestate with value provenance over MIR, including async state machines (packets, responses, parser states)",
     "Every path of the connection loop, the packet parser from each of its states, and the number scanner; tokio's reads and writes and the byte scanner's primitives are trusted. Packets sent before the response to the last one arrived (pipelining, which the protocol does not offer) are left out, and so is what the handshake accepts.",
     [("QExchangeState", "what is known of an incomplete packet", "net/protocol/exchange.rs")], ["bytes sent to the client"])

prop("C19", "A handshake is accepted only if all of it is valid, however it arrives",
     "A client gets a session only when the first byte, the version, protocol, exchange, query and authentication choices of its handshake are all supported, and its credentials, of exactly the lengths it gave, are those of a user. A handshake that is not acceptable is refused with the code of the first choice that is not supported, or of a malformed length or bad credentials; one that has only arrived in part is neither accepted nor refused, and is continued where it stopped when the rest arrives, without waiting for bytes it does not have. Exactly the bytes of the handshake are consumed.",
     ["inputs", "histories"], "every sequence of bytes sent as a handshake and every way to split it over reads",
     "The tests parse one valid handshake in pieces and a few invalid ones; six choices, two lengths and the points at which the bytes may be cut are far more.",
     ["net/protocol/handshake.rs", "net/protocol/mod.rs"],
     [("CHandshake::resume_with", "net/protocol/handshake.rs"), ("do_handshake", "net/protocol/mod.rs")],
     "path-sensitive interprocedural typestate with value provenance over MIR, including async state machines (choices known to be supported, lengths, parser states)",
     "Every path of the parser from each of its states and of the loop that receives a handshake; the byte scanner and its number scanner are trusted, and which credentials are those of a user is the subject of C07.",
     [("HandshakeState", "what is known of an incomplete handshake", "net/protocol/handshake.rs")], ["session", "bytes sent to the client"])

prop("C20", "No statement can crash the server, and what is run is what was written",
     "Parsing a statement, whatever its tokens, ends in the statement or in an error: no parser reads past the end of the statement, takes a token for an identifier or a literal that is not one, reaches a panic or uses a value that is not there, and collections and types can be nested only to a fixed depth. A statement is accepted only if no part of it was found wrong and no token of it is left unread. Every keyword (with the word after it, for spaces, models and `select all`) leads to the parser of its own statement.",
     ["inputs"], "every sequence of tokens that a query can consist of",
     "The tests parse statements that are complete, and a few that are cut short; a token that ends the statement early, or is of another kind, at each of some hundred places where one is read, is what they leave out.",
     ["ql/ast/mod.rs", "ql/ast/traits.rs", "ql/dml/mod.rs", "ql/dml/ins.rs", "ql/dml/sel.rs", "ql/dml/upd.rs", "ql/dml/del.rs", "ql/ddl/crt.rs", "ql/ddl/alt.rs", "ql/ddl/drop.rs", "ql/ddl/syn.rs", "ql/ddl/mod.rs", "ql/dcl.rs", "core/exec.rs"],
     [("State", "ql/ast/mod.rs"), ("ASTNode::parse_from_state_hardened", "ql/ast/traits.rs"), ("dispatch_to_executor, run_blocking_stmt, run_nb", "core/exec.rs")],
     "path-sensitive interprocedural typestate over MIR (tokens known to remain, kinds known of tokens, soundness of the parse), term rewriting of the parser state's primitives, call-graph cycles",
     "Every path of the 14 statement parsers from the token after the keyword; lexing is not part of it, nor is whether a statement means what its syntax tree says. Statements that lack a closing bracket at their very end are accepted by some parsers; that is not ruled out here.")

prop("C21", "Connections are limited, and none holds up others or the shutdown",
     "Every connection, TCP or TLS, is served only while it holds one of a fixed number of permits, which is taken before the connection is accepted and given back when it ends, however it ends. The task that accepts connections waits only for a permit and for the next connection, so no client can keep it from accepting others. Wherever a connection waits for its client, in the TLS handshake or between and within queries, it also waits for the termination of the server, and then ends without waiting any longer.",
     ["schedules", "inputs"], "every behaviour of any number of clients, including ones that send nothing",
     "The tests connect a few well-behaved clients; a permit that is given back too early shows only at the 50000th connection, and a client that stalls at the wrong moment shows only in others not getting through.",
     ["net/mod.rs"],
     [("Listener::listen_tcp, listen_tls, accept", "net/mod.rs"), ("ConnectionHandler::run", "net/mod.rs"), ("CLIM", "net/mod.rs")],
     "path-sensitive ownership (typestate) analysis of the permits over the MIR of the accepting and serving coroutines, with the set of futures each can wait for and the branches of every select",
     "That tokio's semaphore, select and runtime do what they promise is assumed. The flush of what was last written when a connection ends is not counted as waiting.")

prop("C22", "A statement that was begun runs to its end",
     "Once a statement is begun it runs to its result on the thread of the connection that sent it: its task is never suspended midway, and no part of it is handed to another thread or task. So neither a client that disconnects nor the termination of the server stops it halfway, and whatever it uses of its connection is there until it has ended.",
     ["schedules", "histories"], "every statement, and every moment at which its client goes away or the server is terminated",
     "The window in which a running statement can be abandoned is as short as its disk writes; no test terminates the server in it.",
     ["core/exec.rs", "net/protocol/mod.rs"],
     [("dispatch_to_executor, run_blocking_stmt, run_nb", "core/exec.rs"), ("query_loop", "net/protocol/mod.rs")],
     "path-sensitive analysis of the suspension points of the coroutines that run a statement; effect analysis (spawning) over the call graph of all statement handlers",
     "Tasks queued for the background services are not part of the statement that queued them.")

prop("C23", "Data files belong to one space or model each, and are never lost or replaced",
     "Every space and every model keeps its data in a directory of its own, named by its names and a new id (a model's within its space's); the model's file is created there, where none was, opened again from the same path at startup, and never emptied or replaced by opening it. The directory of a space or model that a statement dropped, or whose creation could not be committed, is scheduled for deletion exactly once, and no other directory is; the background service deletes exactly what was scheduled, and queues it again if that fails. Apart from the upgrade of v1 data and this, the running server renames and deletes no data.",
     ["inputs", "faults", "histories"], "every statement, the start of the server, every outcome of every file operation, and all names and ids",
     "The tests use a virtual file system with a few fixed names and never see what the cleanup after a failed or dropped object deletes, which is the one place where other objects' data could be lost.",
     ["fractal/mod.rs", "fractal/mgr.rs", "core/space.rs", "core/model/mod.rs", "storage/common/mod.rs", "storage/common/interface/fs.rs", "storage/v2/mod.rs"],
     [("paths_v1", "storage/common/mod.rs"), ("initialize_model_driver, initialize_space", "fractal/mod.rs"), ("general_executor_svc", "fractal/mgr.rs"), ("FileSystem, File::create, open", "storage/common/interface/fs.rs")],
     "path-sensitive interprocedural typestate over MIR with provenance of every path's text (format templates, literals, names and ids), for the statements, the start and the background service; call-site inventory of file effects",
     "A deletion still queued when the server ends is not carried out by the next one. What happens to v1 data during its upgrade is not judged here.")

prop("C24", "Statements act on the object they name, and only if that is possible",
     "Every statement looks up and changes only the space and model that it names (USE: selects only that, if it exists), and what it found out to be allowed to make its change (no such object when creating, the object when altering or dropping, no models or rows in it unless dropping it with them is asked for) still holds, under locks not let go, when the change is committed and made. A created or dropped model is added to or removed from both its space's models and the index of models; a dropped space goes with all of its models. CREATE and DROP answer true with IF [NOT] EXISTS and empty without when they did their work, and false only with it and when there is nothing to do.",
     ["inputs", "schedules", "histories"], "every statement handler, every state of the catalog, every other statement that runs at the same time",
     "The tests run statements one after another on a few objects; a look-up under another name, or a check whose lock is let go before the change, shows only with the right other objects or statements around.",
     ["core/mod.rs", "core/space.rs", "core/model/mod.rs", "core/model/alt.rs", "core/exec.rs", "core/ddl_misc.rs"],
     [("transactional_exec_create, alter, drop (spaces)", "core/space.rs"), ("transactional_exec_create, drop (models)", "core/model/mod.rs"), ("ddl_with_space_mut, with_model", "core/mod.rs"), ("cstate_use", "core/exec.rs")],
     "path-sensitive interprocedural typestate over MIR (what is known of the catalog and the lock it is known under) with provenance of every look-up's key",
     "Accounts are left out (C02, C07), and so is what the parser makes of a name without a space. That the models listed for the spaces and the index of models agree is assumed at the start of a statement and shown at its end; what rows a statement touches within its model is C12's and C15's.")
