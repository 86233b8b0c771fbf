#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the single source of the property texts).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Every reply matches one sequential key-value map",
  "In a user-key namespace, whatever number of clients issue SET, GET, MGET, DEL, EXISTS, LENGTH, KEYTIME and CHECK in whatever interleaving, pipelining and file rotation, each reply is exactly what a plain map would answer when the commands are applied one at a time in the order the server received them. SET answers the key (nothing-changed answers nil only when the stored payload is byte-identical), GET returns the exact bytes of the latest SET, a deleted or never-written key reads as nil/0/not-found, KEYTIME is the time of the latest SET, and CHECK of a live key is 1. Keys and values are arbitrary binary strings (key up to 255 bytes) and colliding keys never disturb each other.",
  ["schedules", "inputs", "histories", "configurations"],
  "all interleavings and pipelinings of any number of clients, all keys/values, all data-file sizes and hash-table widths",
  "The suite uses one connection, a few fixed keys and never two clients interleaved, no hash collisions, almost no file jumps.",
  ["zdbd/commands_set.c", "zdbd/commands_get.c", "zdbd/commands_dataset.c", "zdbd/redis.c", "libzdb/index.c", "libzdb/index_set.c", "libzdb/index_get.c", "libzdb/index_branch.c", "libzdb/data.c"],
  [("in-memory hashed branch index, entry per key per namespace", "libzdb/index_branch.c, libzdb/index.c:index_entry_get"),
   ("append to data file then index, update in place in memory", "libzdb/index_set.c:index_set, libzdb/data.c:data_insert"),
   ("single-threaded request execution", "zdbd/redis.c:redis_chunk_read")],
  ["RESP replies of each client"])

p("C02", "Acknowledged writes survive process death; in-flight ones are all-or-nothing",
  "If the server process dies at any instant (kill, crash) and is started again on the same directories, it starts, and every key reads the value of its last acknowledged SET, or not-found if its last acknowledged command was a DEL. A command whose reply had not been sent has either fully happened or not happened at all: its key reads either the complete old value or the complete new one, never a missing key, a mixture or somebody else's bytes. This holds again after any number of further crashes, including crashes during startup and file rotation.",
  ["crash_points", "schedules", "histories", "configurations"],
  "every point at which the process can die between or inside two system calls, any sequence of such deaths, both key modes",
  "No test ever kills the server in the middle of anything; only whole suites followed by a clean stop are reloaded.",
  ["libzdb/index_set.c", "libzdb/index_loader.c", "libzdb/index.c", "libzdb/data.c", "libzdb/namespace.c"],
  [("append data record before index record", "zdbd/commands_set.c"), ("index replay at startup", "libzdb/index_loader.c:index_internal_load"),
   ("old entry flagged deleted on overwrite", "libzdb/index_set.c:index_update_entry_memkey"), ("next-file creation", "libzdb/index.c:index_jump_next, libzdb/data.c:data_jump_next")],
  ["replies before the crash against replies after the restart"])

p("C03", "With --sync, acknowledged writes survive power loss",
  "When the server runs with forced synchronisation, every SET and DEL whose success reply was sent is still in effect after a power loss that keeps only data the storage had been told to flush, plus any subset and any torn part of what was written later. The database starts again after such a loss and an unacknowledged command leaves either the old or the new state of its key.",
  ["crash_points", "fault_sequences", "histories"],
  "every power-loss point, every subset/tearing of unflushed writes, both key modes, across file rotation and namespace creation",
  "Power loss is not simulated by any test; dropping an fsync changes nothing a test can see.",
  ["libzdb/data.c", "libzdb/index.c", "libzdb/index_set.c", "libzdb/index_loader.c", "libzdb/namespace.c"],
  [("fsync after each data record", "libzdb/data.c:data_sync_check"), ("fsync after each index write", "libzdb/index.c:index_write"), ("header writes of new files", "libzdb/index_loader.c:index_initialize, libzdb/data.c:data_initialize")],
  ["GET after restart from the durable image"])

p("C04", "Sequential mode generates unique keys that always lead to their own value",
  "In a sequential namespace each insertion returns a fresh 8-byte little-endian key, strictly larger than every key generated before in that namespace, including across rotations, deletions, updates, restarts and crashes. A generated key always reads the latest value set under that key and a key that was never generated is not found and cannot be set, whatever its bytes or length. Updating or deleting one key never changes what any other key reads.",
  ["inputs", "histories", "schedules", "crash_points"],
  "any history of inserts, updates, deletes, forced and size-driven rotations and restarts; any 0..255-byte key presented by a client",
  "The suite inserts a handful of sequential keys, in one file, with no rotation between and no hostile ids.",
  ["libzdb/index_seq.c", "libzdb/index_set.c", "libzdb/index.c", "libzdb/index_get.c", "libzdb/index_loader.c", "zdbd/commands_set.c"],
  [("position-derived key and first-id-per-file map", "libzdb/index_seq.c"), ("update keeps the slot, appends a dead copy", "libzdb/index_set.c:index_update_entry_sequential"), ("next id restored by replay", "libzdb/index_loader.c")],
  ["SET/GET/DEL replies"])

p("C05", "Restart and RELOAD are invisible to clients",
  "Stopping and starting the server, or issuing RELOAD, changes no answer: every key has the same value and timestamp, the same keys are missing, SCAN lists the same keys in the same order, HISTORY shows the same versions, the entry and data-size counters and namespace settings are equal, and the next generated sequential key continues where it was. This holds for any prior history and any datasize used before or after.",
  ["histories", "configurations"],
  "any command history before the reload, across namespaces in both modes, any sequence of restarts with different datasize, hash width and mode flags that are legal",
  "One RELOAD of one key and a load without checks is all the suite does.",
  ["libzdb/index_loader.c", "libzdb/data.c", "libzdb/namespace.c", "libzdb/index.c", "zdbd/commands_namespace.c"],
  [("index replay", "libzdb/index_loader.c"), ("namespace reload", "libzdb/namespace.c:namespace_reload"), ("descriptor load", "libzdb/namespace.c")],
  ["full observable dump before and after"])

p("C06", "SCAN and RSCAN visit every live key exactly once, in insertion order",
  "Following the cursors from the start (or the end for RSCAN) until the no-more-data answer lists every key that is live throughout the walk exactly once, no key that was deleted before the walk began, in order of each key's latest write (reverse for RSCAN; key order for sequential), with the right payload size and timestamp. This holds whatever time each call takes, however the clock behaves, across rotated and empty files, and while other clients write. A cursor obtained from a key with KEYCUR continues exactly after that key, and KSCAN lists exactly the live keys that start with the given bytes.",
  ["schedules", "histories", "inputs"],
  "all histories, all rotations including empty files, every point where the per-call time slice ends, writes interleaved between calls",
  "The suite scans a tiny namespace whose scan fits in one time slice and one file.",
  ["zdbd/commands_scan.c", "libzdb/index_scan.c", "libzdb/index.c"],
  [("time-sliced walk with cursor", "zdbd/commands_scan.c"), ("header walk forward/backward across files", "libzdb/index_scan.c")],
  ["SCAN/SCANX/RSCAN/KEYCUR replies"])

p("C07", "HISTORY walks back through exactly the values a key has had",
  "Starting from HISTORY of a key and following the returned reference yields the key's values newest to oldest with their timestamps, each exactly as it was SET, until the oldest version since the key was last created, and then ends. Rotations, restarts, crashes and writes to other keys never insert, skip, reorder or corrupt a version; a reference that does not belong to the key is refused.",
  ["histories", "crash_points", "inputs"],
  "any overwrite history in both modes, with rotations, restarts and crashes in between; any reference bytes",
  "The suite checks three versions of one key in one file.",
  ["zdbd/commands_history.c", "libzdb/index_set.c", "libzdb/index.c", "libzdb/index_loader.c"],
  [("parent pointers in each index entry", "libzdb/index_set.c"), ("reference decode and compare", "zdbd/commands_history.c")],
  ["HISTORY replies"])

p("C08", "Namespaces are isolated, and NSNEW/NSDEL/FLUSH do exactly what they say",
  "Nothing done in one namespace is visible in another, even for identical keys. NSNEW makes an empty namespace and NSLIST lists exactly the existing ones; NSDEL and FLUSH remove every key, value and file of that namespace and nothing of any other, survive restarts, and a namespace re-created under the same name is empty; clients attached to a deleted namespace get errors until they select another.",
  ["histories", "schedules", "crash_points"],
  "any interleaving of namespace creation, deletion, flushing, selection and data commands by several clients, with restarts",
  "Only create/delete of one namespace by one client is tested, and FLUSH only for its refusals and acceptance, not its effect.",
  ["libzdb/namespace.c", "zdbd/commands_namespace.c", "zdbd/commands_dataset.c", "libzdb/filesystem.c", "libzdb/index.c", "zdbd/redis.c"],
  [("per-entry namespace owner in shared hash table", "libzdb/index.c:index_clean_namespace"), ("payload file cleanup", "libzdb/filesystem.c:zdb_dir_clean_payload"), ("detaching clients", "zdbd/redis.c:redis_detach_clients")],
  ["replies and directory contents"])

p("C09", "Only entitled clients can read, write or administer",
  "Without a correct AUTH no administrative command takes effect; without the namespace's password a client gets at most read access, and only when the namespace is public, otherwise none; a locked namespace accepts no change, a frozen one no access at all, a write-once one no overwrite or deletion. A challenge can be used for one successful or failed secure authentication at most by the connection it was issued to, and being refused never changes any data or setting. Lock, freeze, write-once and limit rules apply to every client from the reply of the command that set them; a changed password applies to every later SELECT.",
  ["schedules", "inputs", "histories"],
  "any interleaving of clients with different rights, any passwords/challenges/hashes, any order of NSSET, SELECT, AUTH and data commands, with restarts",
  "Each rule is probed once or twice by a single client; challenge reuse and rights of concurrently attached clients are not.",
  ["zdbd/commands_auth.c", "zdbd/auth.c", "zdbd/commands_namespace.c", "zdbd/commands_set.c", "zdbd/commands.c", "zdbd/commands_dataset.c"],
  [("admin flag per connection", "zdbd/commands_auth.c"), ("writable flag per connection", "zdbd/commands_namespace.c:command_select"), ("lock/freeze/worm checks", "zdbd/commands.c, zdbd/commands_set.c")],
  ["replies and subsequent state"])

p("C10", "Size limits hold and counters equal what is stored",
  "A namespace with a size limit never holds more live payload bytes than the limit, a SET that fits is not refused, and a refused SET changes nothing. At every moment DBSIZE and the entry and data-size figures of NSINFO equal the number and total payload size of the live keys, through overwrites, deletions, refused and failed commands, rotations and restarts.",
  ["histories", "schedules", "fault_sequences"],
  "any history of sets of any size, overwrites with larger/smaller values, deletes, limit changes, failures and restarts, both modes",
  "The suite exercises four sets against one limit and never compares the counters.",
  ["zdbd/commands_set.c", "libzdb/index_set.c", "libzdb/index.c", "zdbd/commands_namespace.c", "zdbd/commands_dataset.c"],
  [("accounting on insert/update/delete", "libzdb/index_set.c, libzdb/index.c"), ("limit check before write", "zdbd/commands_set.c")],
  ["SET replies, DBSIZE, NSINFO"])

p("C11", "Disk errors never corrupt: a failed command changes nothing, service goes on",
  "When a read, write, open or sync fails, comes short or finds the disk full while a client command is executed, the affected command answers an error and the state is as if it had not been issued; no later command, on that or any other key, returns wrong bytes, loses an acknowledged value or hides a key. Once the fault is gone the server, without or with a restart, serves every acknowledged value and accepts new writes. (Faults during start-up, RELOAD or FLUSH may stop the server; a second fault that hits the repair of the first is not covered.)",
  ["fault_sequences", "histories", "schedules"],
  "every disk call that can fail or come short, any errno a real disk gives, any number of failures, faults during rotation",
  "No test makes a disk call fail.",
  ["libzdb/data.c", "libzdb/index.c", "libzdb/index_set.c", "libzdb/index_get.c", "zdbd/commands_set.c", "zdbd/commands_get.c"],
  [("write result checks", "libzdb/data.c:data_write, libzdb/index.c:index_write"), ("rollback of failed update", "libzdb/index_set.c")],
  ["replies during and after the faults"])

p("C12", "Replies are complete, in order and always come, however bytes travel",
  "For any way the network cuts, delays or merges the request bytes and however slowly a client reads, each connection receives exactly the same reply bytes, in request order, as if requests arrived whole and one at a time, and every complete request is answered within bounded time. One client's fragments, slowness, disconnection or pipelining never alters, delays without bound or reorders another client's replies, and a closed connection is always released.",
  ["schedules", "inputs", "fault_sequences"],
  "all fragmentations, pipelinings, buffer-boundary alignments, socket buffer sizes, reader speeds, disconnection points and numbers of connections",
  "The suite's client sends whole requests over a local socket and reads at once; fragment boundaries never vary.",
  ["zdbd/redis.c", "zdbd/socket_epoll.c", "zdbd/sockets.h"],
  [("incremental parser with 8 KB buffer", "zdbd/redis.c:redis_chunk_read"), ("pending response queue, write readiness", "zdbd/redis.c:redis_delayed_write"), ("edge-triggered readiness", "zdbd/socket_epoll.c")],
  ["byte stream to each client"])

p("C13", "No byte stream from a client can harm the server or other clients",
  "Whatever bytes a client sends, the server neither crashes, exits, reads or writes outside its buffers, nor loops; it answers with an error or closes that connection only. Malformed, oversized, negative-length, truncated and binary-garbage requests leave all stored data and all other clients' sessions exactly as they were.",
  ["inputs", "schedules"],
  "all byte streams (mutations of valid requests, boundary lengths, wrong types) in any fragmentation, next to well-behaved clients",
  "A few wrong-argument requests are tested; hiredis cannot even produce malformed framing.",
  ["zdbd/redis.c", "zdbd/commands.c", "zdbd/commands_set.c", "zdbd/commands_history.c", "zdbd/commands_scan.c", "zdbd/commands_dataset.c", "zdbd/commands_namespace.c", "zdbd/commands_auth.c"],
  [("header and length validation", "zdbd/redis.c"), ("argument length checks", "zdbd/commands.c:command_args_validate")],
  ["server liveness, other clients' replies, sanitizer"])

p("C14", "WAIT is answered exactly once: by the first matching command or by its timeout",
  "A client that issued WAIT gets exactly one answer: the name of the first matching command that another client executes in the same namespace after the WAIT was received, or a timeout error if none came within the requested period. The timeout answer never comes before the period has passed, comes within a bounded delay after it, and neither other waiters, disconnections, namespace switches nor traffic make an answer go missing, come twice or go to somebody else.",
  ["schedules", "histories", "configurations"],
  "any interleaving of waiters, executing clients, namespaces, clock advances and disconnections",
  "Time and concurrent waiters are not controlled by any test; the suite only checks argument validation.",
  ["zdbd/commands_system.c", "zdbd/redis.c", "zdbd/socket_epoll.c"],
  [("watcher fields per client", "zdbd/redis.c:redis_client_set_watcher"), ("post-execution notify", "zdbd/redis.c:redis_posthandler_client"), ("idle timeout sweep", "zdbd/redis.c:redis_watch_timeout")],
  ["reply stream and simulated time"])

p("C15", "Data files are append-only and rotated files never change again",
  "No byte of a data file that belongs to the record of an acknowledged command is ever overwritten, truncated or moved by any command, restart, crash recovery or rotation (only the record of a command that failed or was cut by a crash may be taken back); a rotated data file is never written again. Only explicit deletion or flush of its namespace removes it. A copy of the files taken between commands stays a valid prefix of the later ones.",
  ["histories", "crash_points", "fault_sequences"],
  "every write the server ever issues, over all histories, crashes, restarts, rotations and I/O failures",
  "No test looks at the files; an overwrite in place would pass every test.",
  ["libzdb/data.c", "libzdb/index.c", "zdbd/commands_dataset.c"],
  [("append-mode data descriptor", "libzdb/data.c:data_open_final"), ("read-only reopen of older files", "libzdb/data.c:data_open_id")],
  ["every write/truncate/unlink on the simulated disk"])

p("C16", "Data files alone are enough to rebuild the database",
  "At any time, also after crashes of the process and failed writes followed by a restart, each data file is a header followed by a gapless sequence of self-describing records whose checksums match their payloads, one for every acknowledged SET and DEL in order (a command cut by a crash may have left its own complete record). Rebuilding the index from the data files of a user-key namespace, or of a sequential namespace none of whose commands was interrupted, gives a database that serves exactly the live keys and values of the original; a rebuild that cannot read or write a file says so instead of succeeding with a part. DATA RAW with the file and offset of a record answers that record as the file holds it (key, previous offset, checksum, flags, timestamp, value), an error for a deletion, and the end of the file at its end.",
  ["histories", "crash_points", "fault_sequences"],
  "any history with crashes and I/O failures at any point, any rotation, then a rebuild",
  "The rebuild tool is never run by the suite and no test parses a data file.",
  ["libzdb/data.c", "tools/index-rebuild/index-rebuild.c", "tools/integrity-check/integrity-check.c"],
  [("record header with id, length, crc, previous offset", "libzdb/data.c:data_insert"), ("rebuild tool", "tools/index-rebuild/index-rebuild.c")],
  ["data files on the simulated disk; server started on the rebuilt index"])

p("C17", "A missing data file costs only its own payloads, and the hook can bring it back",
  "With any non-active data file absent, the server starts, lists, scans, deletes, overwrites and inserts normally; reading a payload in that file first calls the missing-data hook once with its path and answers the right bytes if the hook succeeded and the file is there, an error (never wrong bytes, never a crash) if the hook failed, was killed, could not be started or did not bring the file. After the file is back every payload reads correctly without restart, and the hook's outcome never affects other keys.",
  ["fault_sequences", "histories", "schedules"],
  "any set of missing files, appearing and disappearing at any time, any hook outcome",
  "No test removes a data file or runs a hook that restores one.",
  ["libzdb/data.c", "libzdb/hook.c", "zdbd/commands_get.c", "zdbd/commands_dataset.c"],
  [("retry once after hook", "libzdb/data.c:data_open_id_mode"), ("blocking hook execution", "libzdb/hook.c:hook_execute_wait")],
  ["replies, hook invocations"])

p("C18", "Backups driven by the rotation hooks and the dirty list are complete",
  "While the server runs, every rotation runs the index and data jump hooks exactly once with the right old and new file, and every index file modified since the previous reset (and no other) is listed dirty, in INDEX DIRTY and in the arguments of jump-index and namespace-closing, until INDEX DIRTY RESET or a jump-index hook that exits with 0 resets the list; RELOAD does not. Hence a backup that only copies the files named by hooks that succeeded and by dirty lists, the data files whose jump-data hook failed, and the active files, equals the live files at every synchronisation point. HOOKS shows each script that runs or ended lately with its arguments and outcome, a script that is killed or cannot be started is never taken for a success, and scripts other than the blocking ones never hold up clients. (The dirty list is in memory: after a crash a full backup is needed. FLUSH and NSDEL drop the files, and their backup.)",
  ["histories", "schedules", "fault_sequences"],
  "any history of inserts, overwrites and deletes touching older files, any rotation (size, NSJUMP, timer), resets at any time, hooks slow, failing or unable to start",
  "The suite sets /bin/true as hook and never reads its arguments nor compares dirty lists to what was written.",
  ["libzdb/index.c", "libzdb/data.c", "libzdb/hook.c", "zdbd/commands_dataset.c", "libzdb/index_set.c"],
  [("dirty bitmap", "libzdb/index.c:index_dirty_set"), ("jump hooks", "libzdb/index.c:index_jump_next, libzdb/data.c:data_jump_next"), ("child reaping", "libzdb/hook.c")],
  ["hook argv, INDEX DIRTY replies, writes on the simulated disk"])

p("C19", "Time-driven rotation and sync happen when due",
  "With a rotation period, a namespace modified since its current files were opened is rotated once the period has passed, never before, never when unmodified, and within 20 seconds of being due, whatever the traffic, idle or not. Without one, files are only rotated when full or by NSJUMP. With a sync period, a write issued more than that period (in whole seconds, plus one) after the last flush of that kind of file is flushed before anything further is answered. Neither ever changes any answer.",
  ["schedules", "histories", "configurations"],
  "any traffic pattern (idle, steady, bursts) against any rotation and sync period and clock advance",
  "Tests never wait long enough for a timer and cannot see flushes.",
  ["zdbd/redis.c", "zdbd/socket_epoll.c", "libzdb/data.c", "libzdb/index.c"],
  [("idle processing on timeout and every 100 events", "zdbd/socket_epoll.c:socket_handler"), ("rotation test", "zdbd/redis.c:redis_files_rotate"), ("synctime test", "libzdb/data.c:data_sync_check")],
  ["file creations and flushes against simulated time"])

p("C20", "Namespace settings survive exactly as acknowledged",
  "After any restart or crash, each namespace exists with exactly the password, public flag, size limit, write-once flag and key mode last acknowledged by NSSET (volatile lock and freeze are cleared), and a setting change or namespace creation in progress during a crash has either fully happened or not at all. In particular a crash never opens a protected namespace, loses its limit, changes its mode or prevents the server from starting.",
  ["crash_points", "histories", "inputs"],
  "every crash point inside NSNEW, NSSET and NSDEL, any sequence of settings and passwords, any number of namespaces",
  "Settings are never checked after a restart, and no test crashes the server.",
  ["libzdb/namespace.c", "zdbd/commands_namespace.c"],
  [("descriptor file per namespace", "libzdb/namespace.c:namespace_descriptor_replace"), ("descriptor load", "libzdb/namespace.c:namespace_descriptor_load")],
  ["NSINFO, SELECT and data access after restart"])

p("C21", "A replica fed by the mirror stream ends up equal to the source",
  "A mirror connection receives every state-changing command that any client successfully executes, once, in execution order, with its namespace, time, owner and exact arguments, and none that was refused. Applying that stream to an initially equal second server gives the same keys, values, timestamps and namespaces; a replica forwards what it is fed under the original owner, and a command that comes back to its owner is ignored. A slow, stalled or vanishing mirror never affects other clients.",
  ["schedules", "histories", "fault_sequences"],
  "any interleaving of writers and mirrors across namespaces, any fragmentation and reader speed, connections lost at any point",
  "The suite never opens a mirror connection.",
  ["zdbd/commands_replicate.c", "zdbd/redis.c", "zdbd/commands_set.c", "zdbd/commands_dataset.c"],
  [("mirror fan-out after execution", "zdbd/redis.c:redis_mirror_client"), ("master flag and timestamped SET", "zdbd/commands_set.c")],
  ["mirror byte stream; dump of source and replica"])

p("C22", "The embedded library gives the same guarantees as the server",
  "A program linking the library and calling set, get, exists, check and delete observes the same sequential map semantics, survives its own crash with every successful call in effect, and after a failing disk call gets an error and an unchanged state; a server later started on the same directories serves the same data. Every call answers with a status that matches what happened.",
  ["histories", "crash_points", "fault_sequences", "configurations"],
  "any call history in each mode setting, rotations, crashes at any system call, disk faults",
  "No test calls the library interface.",
  ["libzdb/api.c", "libzdb/bootstrap.c", "libzdb/index_set.c", "libzdb/data.c", "examples/zdb-example.c"],
  [("per-mode set handlers", "libzdb/api.c"), ("open/close", "libzdb/bootstrap.c")],
  ["return values; server replies on the same directories"])

p("C23", "Two instances never work on the same directories",
  "While one instance has the data or index directory open, a second one refuses to start and changes no file; after the first has ended, by stop, signal or crash at any point, a new one can start. This holds for any order and interleaving of starts and stops, also when the two share only one of the directories.",
  ["schedules", "crash_points"],
  "any interleaving of start, crash and stop of several instances over shared data and/or index directories",
  "The suite never starts two servers.",
  ["libzdb/bootstrap.c"],
  [("exclusive lock on a lock file in each root", "libzdb/bootstrap.c:zdb_lock")],
  ["exit status of the second instance, files written by it"])

p("C24", "A clean stop leaves everything on stable storage",
  "When the server ends by STOP, SIGTERM or SIGINT at any moment, every acknowledged command is in effect after the next start even if power fails right after the exit and even without --sync (for files already left by a rotation, with --secure). The process ends within a bounded time, running each closing hook once per namespace.",
  ["schedules", "fault_sequences", "histories"],
  "any moment of the signal relative to client traffic, any number of namespaces, power loss after exit",
  "Stops are tested only by exit status; flushing is invisible to them.",
  ["zdbd/zdbd.c", "libzdb/namespace.c", "libzdb/bootstrap.c", "libzdb/index.c", "libzdb/data.c"],
  [("signal handler flush", "zdbd/zdbd.c:sighandler, libzdb/namespace.c:namespaces_emergency"), ("orderly close", "libzdb/bootstrap.c:zdb_close")],
  ["durable image after exit; hook invocations"])

p("C25", "The payload checksum and password hash implement their published algorithms",
  "The payload checksum equals CRC-32C of the payload for every input and every CPU path, and the secure-authentication hash equals SHA-1 of challenge, colon and password.",
  ["inputs"], "all byte strings", "Only the values of a few payloads are checked indirectly.",
  ["libzdb/crc32.c", "libzdb/sha1.c"], [("crc engine selection", "libzdb/crc32.c"), ("sha1", "libzdb/sha1.c")], ["function results"])

p("C26", "The offline tools keep what they are given",
  "On the files of a stopped server, after any history: quick-compact writes a copy of a namespace whose server serves every live key, value, time and setting of the original and never takes more space, leaving its input untouched; integrity-check approves each intact data file and reports any damaged payload, cut record or damaged file signature; namespace-editor sets exactly the settings given (the others to their defaults), all of them or none when it is killed midway; index-dump prints every entry of every index file in their order, with all its fields and the totals, or fails when a file is not an index, ends within an entry or cannot be read; namespace-dump prints the settings as last acknowledged and fails for a namespace that does not exist. Both leave the files untouched. A tool that could not read or write a file exits with a failure instead of claiming success.",
  ["histories", "fault_sequences", "crash_points"],
  "any history with overwrites, deletions, rotations, crashes and recoveries before the tool, read/write/open errors and kills inside it",
  "The suite never runs these tools.",
  ["tools/quick-compaction/quick-compact.c", "tools/integrity-check/integrity-check.c", "tools/namespace-editor/namespace-editor.c", "tools/index-dump/index-dump.c", "tools/namespace-dump/namespace-dump.c", "libzdb/namespace.c", "libzdb/index_get.c", "libzdb/data.c"],
  [("compaction pass", "tools/quick-compaction/quick-compact.c:quick_compact_pass"), ("payload checksums", "tools/integrity-check/integrity-check.c:data_integrity"), ("index listing", "tools/index-dump/index-dump.c:index_dump_files"), ("raw entries", "libzdb/index_get.c:index_raw_fetch_entry"), ("descriptor rewrite", "tools/namespace-editor/namespace-editor.c:namespace_edit")],
  ["exit status, printed lines and output files of the tools; the server started on the result"])

p("C27", "The copying utilities copy completely or say that they failed",
  "db-sync, run against a live source and a target, ends with success only if every key of the source's default namespace is on the target with its value (a key changed meanwhile: with a value it had in that time), and keys the target already had and the source has not are left alone; if a key could not be listed, read or written, or a server goes away, it ends with a failure. While db-replicate runs and both servers work, every key accepted by the source, before or after it started, is on the target with its latest value within seconds after the writers pause; it ends with a failure as soon as a key cannot be copied. Neither crashes, hangs nor writes anything else; without a fault neither fails.",
  ["schedules", "histories", "fault_sequences"],
  "any interleaving of both servers, the utility, other clients writing and deleting, fragments of the byte streams, disk faults and kills of any party",
  "The suite never runs these programs.",
  ["utilities/db-sync/db-sync.c", "utilities/db-replicate/db-replicate.c", "zdbd/commands_scan.c"],
  [("one-shot copy", "utilities/db-sync/db-sync.c:synchronize"), ("continuous copy", "utilities/db-replicate/db-replicate.c:synchronize"), ("walk by cursor", "zdbd/commands_scan.c:command_scan")],
  ["exit status of the utility; contents of the target server"])

p("C28", "What the server holds depends on what it stores and serves, not on its past",
  "Repeating any sequence of requests, connections, disconnections, errors and disk faults that ends with the same namespaces, the same keys and no clients leaves the running server with no more open descriptors and no more allocated memory blocks than before: refused and malformed requests, vanished clients, failed disk operations, removed namespaces, rotations, reloads, waiting and mirror clients and finished hooks (kept for a bounded time) leave nothing behind.",
  ["histories", "schedules", "fault_sequences"],
  "any repeated sequence of commands, byte streams, disconnections, hooks and disk faults",
  "Tests start a fresh server, run for seconds and never look at its descriptors or memory; a leak shows only when the same path is taken again and again.",
  ["zdbd/redis.c", "zdbd/commands_*.c", "libzdb/namespace.c", "libzdb/index.c", "libzdb/data.c", "libzdb/hook.c"],
  [("client release", "zdbd/redis.c:socket_client_free"), ("namespace release", "libzdb/namespace.c:namespace_free"), ("hook list", "libzdb/hook.c:libzdb_hooks_cleanup"), ("file descriptors of old files", "libzdb/data.c:data_grab_dataid, libzdb/index.c:index_grab_fileid")],
  ["open descriptors and live heap blocks of the server process after each repetition"])

p("C29", "On a read-only file system everything stays readable and nothing is lost",
  "The file system of the index, of the data or of both may become read-only, while the server runs or between two runs of it. The running server goes on and the stopped one starts, as often as wanted; every key, value, time, list, history, counter and setting reads as before, also after RELOAD. Each command that would have to write is refused and changes nothing, or is in effect. Once the file system is writable again and the server was restarted everything goes on from the last acknowledged state.",
  ["histories", "fault_sequences", "configurations"],
  "any history of commands, rotations, restarts and kills with any of the two file systems turning read-only and writable again at command boundaries",
  "The suite never runs on a read-only file system, which README.md documents as a supported way to run.",
  ["README.md", "libzdb/index_loader.c", "libzdb/index.c", "libzdb/data.c", "libzdb/namespace.c"],
  [("index without writing", "libzdb/index_loader.c:index_try_rootindex"), ("data without writing", "libzdb/data.c:data_open_append"), ("descriptor", "libzdb/namespace.c:namespace_descriptor_open")],
  ["replies to all commands, whether the server runs"])

p("C30", "A failed allocation refuses a command or ends the server; nothing else changes",
  "When memory runs out (any allocation made while serving a command fails, once or several times), the command is answered with an error and has no effect at all - not now and not after a restart: a refused SET, NSNEW or NSSET leaves no entry, namespace or setting behind -, or its connection is closed, or the server process ends. It never gets a wrong answer: no acknowledgement without effect, no refusal or nil for a value that was stored or exists, no listing with keys missing, no reply cut short or taken for the reply of another request, no request left unanswered on an open connection. Everything acknowledged before and after is in force, in the running server and after every restart, and the server keeps serving once memory is available again.",
  ["histories", "fault_sequences", "configurations"],
  "any history of commands over several connections (pipelined, fragmented, slow readers), with the failing allocations at any point, one or many, followed by kills, clean stops and restarts",
  "The suite never makes an allocation fail.",
  ["libzdb/index_set.c", "libzdb/index_branch.c", "libzdb/namespace.c", "zdbd/commands_set.c", "zdbd/commands_get.c", "zdbd/commands_scan.c", "zdbd/commands_namespace.c", "zdbd/redis.c"],
  [("index insertion", "libzdb/index_set.c:index_insert_entry_memkey"), ("reply queueing", "zdbd/redis.c:redis_reply_stack"), ("namespace creation", "libzdb/namespace.c:namespace_create"), ("request parsing", "zdbd/redis.c:redis_handle_resp_payload")],
  ["replies to all commands, whether the server runs, connections closed"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
