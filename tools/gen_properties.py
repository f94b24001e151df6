#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for titles/statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

SAFEW_T = "tests/futils_test_safew.c runs a handful of fault-free sequences on a real disk (and is not even built here); no test crashes, tears or fails an I/O call."

p("C01", "Safe write replaces a file atomically across crashes and I/O faults",
  "At every instant, and after a process kill or power loss at any point, a path written through the safe-write API holds either the complete content of the last successful commit (or what was there before) or the complete content of the commit in progress, never a mixture, a truncation or nothing. A commit that returns 0 has made exactly the bytes written, in order, visible at the path; a rollback, a failed write or a commit that returns an error leaves the previous content in place. Opening, committing or rolling back again after any such event works and, unless the removal itself failed (which a rollback reports), no temporary file is left once the handle is closed.",
  ["crash_points", "fault_sequences", "histories"],
  "every sequence of open/write/printf/commit/rollback on a path, every crash point (process kill or power loss, repeatedly) inside it, every short write, ENOSPC, EIO, EINTR, fsync/close/rename/open/allocation failure",
  SAFEW_T, ["src/safew.c", "include/futils/safew.h", "src/safew_types.h"],
  [("write to a temporary, flush, fsync, then rename over the target", "src/safew.c: safew_fclose_commit"),
   ("write failures are latched and turn commit into an error", "src/safew.c: futils_safew_fwrite / futils_safew_fprintf"),
   ("a stale temporary is removed and truncated on open", "src/safew.c: futils_safew_fopen")],
  [("temporary file", "content being written, never the target", "<path>.tmp")],
  ["content of the path after each operation, kill and power loss", "return codes"])
p("C02", "A checksummed safe write survives a crash at any point, also during recovery",
  "If a path held a valid payload/checksum pair and a checksummed commit is interrupted at any point by a process kill or a power loss, the next check of the path returns 0 and leaves either the complete old pair or the complete new pair, with no temporary file left. The check itself may be interrupted in the same way, any number of times, and still the next uninterrupted check returns 0 with the old or the new pair. Checking again changes nothing, and a pair whose commit returned 0 before a process kill is the one recovered.",
  ["crash_points", "histories"],
  "every sequence of checksummed commits and checks, every crash point in each of them including recovery interrupted repeatedly, every content and size, process kill and power loss with ordered metadata and torn unsynced data",
  SAFEW_T + " The recovery table is only documented, its crash windows are never executed.",
  ["src/safew.c", "include/futils/safew.h"],
  [("ordered creation of tmp payload, tmp crc, rename payload, rename crc", "src/safew.c: safew_fclose_commit"),
   ("recovery by which of the four files are present and match", "src/safew.c: futils_safew_file_check")],
  [("payload/crc/payload.tmp/crc.tmp", "which of the four files exist and match decides recovery", "file system")],
  ["return value of the check and the four files after it"])
p("C03", "A failed checksummed commit never costs the stored pair",
  "When a checksummed commit fails with an error (disk full, I/O error on write, sync, read-back, close or rename, out of descriptors or memory), the next check still returns 0 with either the complete previous pair or the complete new pair. When a checksummed commit returns 0, the next check returns 0 and the path holds exactly the bytes that were written. A rolled back or failed write leaves the previous pair untouched.",
  ["fault_sequences", "histories"],
  "every placement and kind of failing or short system call inside open, write and checksummed commit, every history of such commits before and after it",
  SAFEW_T, ["src/safew.c"],
  [("error path of the commit", "src/safew.c: safew_fclose_commit"),
   ("checksum computed by reading the temporary back", "src/safew.c: crc_from_file / safew_tmp_crc_create")],
  None, ["result of a fault-free check after the failed commit"])
p("C04", "The check accepts only a matching pair and follows the documented table",
  "For any combination of present, missing, truncated, emptied or corrupted payload, checksum and temporary files, the check keeps or promotes exactly the pair that the documented decision table selects, with its bytes unchanged, and returns 0; when no selectable pair matches it returns a negative value and erases all four files. Temporary files never survive a check that could read its files. A check that could not open or read one of the files because of a transient error (I/O error, out of descriptors or memory) never returns 0 for a pair that does not match, and does not destroy a valid pair.",
  ["inputs", "fault_sequences", "histories"],
  "every one of the 16 presence combinations, each file matching, stale, bit-flipped, shortened, extended, empty or absent, with and without transient open/read errors",
  "The test suite covers the presence combinations only with intact or entirely different contents, never torn or flipped bytes nor read errors.",
  ["src/safew.c", "include/futils/safew.h"],
  [("decision table", "src/safew.c: futils_safew_file_check; include/futils/safew.h"),
   ("checksum over the payload", "src/safew.c: crc_from_fhd / check_pair")],
  None, ["the four files and the return value after the check"])
p("C05", "Successful file and folder synchronisation means durable after power loss",
  "When synchronising a file returns 0, the data the file held at the call survives a power loss; when synchronising a folder returns 0, the creations, renames and removals done in it before the call survive; when synchronising a file and its folder returns 0, both do. If the path is invalid, or any step (open or sync, of the file or of the folder) fails, a negative errno naming the failure is returned and never 0. No descriptor or memory is leaked either way.",
  ["crash_points", "fault_sequences"],
  "every file/folder state, path shape, failing system call and a power loss right after the call",
  "There is no test for these functions, and durability is unobservable without dropping the page cache.",
  ["src/synctools.c", "include/futils/synctools.h"],
  [("open + fsync with errors reported", "src/synctools.c: synctool"),
   ("both results combined", "src/synctools.c: sync_file_and_folder")],
  None, ["durable image after power loss", "return codes"])
p("C06", "Variable-size mailbox delivers every message once, intact and in order",
  "With one producer and one consumer thread, every message whose push returned 0 is received exactly once, with its exact length and bytes, in push order, under every interleaving, for any mix of sizes including zero and the declared maximum; a push that failed leaves no trace. A push fails for lack of space only while earlier messages are still unread, so an empty mailbox always accepts a message of the maximum size; an oversized or invalid message is refused with an invalid-argument error. Reading an empty mailbox reports would-block without blocking.",
  ["schedules", "histories"],
  "every interleaving of the producer's push/blocking push and the consumer's peek down to single memory accesses, every sequence of sizes, every wrap position of the queue",
  "The unit test pushes and reads from one thread with a few fixed sizes; no schedule is explored.",
  ["src/dynmbox.c", "include/futils/dynmbox.h"],
  [("ring buffer guarded by a mutex", "src/dynmbox.c: do_push / do_peek / rbuf_write / rbuf_read")],
  [("ring buffer", "length-prefixed messages", "src/dynmbox.c: struct dynmbox")],
  ["values returned to the two threads"])
p("C07", "Mailbox read descriptor is readable exactly while messages are pending",
  "Whenever no mailbox operation is in progress, the variable-size mailbox's read descriptor is readable if and only if at least one message is unread, so that a consumer that waits on it before each read neither misses a message nor wakes up for ever on an empty mailbox. This holds under every interleaving of push, blocking push and peek, for any number of queued messages (including thousands of tiny ones) and whatever the capacity the kernel gives the notification channel.",
  ["schedules", "configurations", "fault_sequences"],
  "every interleaving of producer and consumer, every queue depth up to capacity, every kernel pipe capacity from one page up, interrupted system calls",
  "The unit test polls nothing; the race between publishing data and notification needs a specific two-thread interleaving.",
  ["src/dynmbox.c"],
  [("notification byte tied to the empty/non-empty transition", "src/dynmbox.c: push_notify / pop_notify callers")],
  [("notification pipe", "readable when messages are pending", "src/dynmbox.c: init_notify_channel")],
  ["poll on the read descriptor at quiescent points", "event-loop consumer drains everything"])
p("C08", "Blocking mailbox push wakes for space and honours its timeout",
  "A blocking push on a full variable-size mailbox returns 0 once the consumer has freed enough space, and never sleeps past it; with timeout 0 it waits for ever, with a non-zero timeout it returns the timed-out error not before the timeout has elapsed and, if space never appears, promptly after it. Setting the system clock forwards or backwards during the wait, spurious wake-ups and timeouts of any representable length do not change that. A push that timed out leaves no message behind.",
  ["schedules", "fault_sequences", "inputs"],
  "every interleaving of blocked producer and consumer, every timeout value from 1 ms to the maximum, wall-clock steps in both directions, spurious wake-ups, stalls",
  "The unit test checks one short timeout on a steady clock.",
  ["src/dynmbox.c"],
  [("condition variable with predicate loop and absolute deadline", "src/dynmbox.c: dynmbox_push_block / wait_cond_timed"),
   ("wake-up on every read", "src/dynmbox.c: dynmbox_peek")],
  None, ["simulated elapsed time and result of the blocking push"])
p("C09", "Fixed-size mailbox is an atomic FIFO for any number of threads",
  "With any number of producer and consumer threads, the fixed-size mailbox behaves as one linearizable FIFO queue of whole messages: every message whose push returned 0 is delivered exactly once and never torn or mixed with another, a push that returned an error delivered nothing. Reading reports would-block only when the mailbox was empty, pushing reports would-block only when it was not, interrupted system calls are invisible to the caller, and neither ever blocks. Messages pending in the mailbox always make its read descriptor readable.",
  ["schedules", "fault_sequences", "configurations"],
  "every interleaving of producers and consumers at system-call granularity and below, every message size from 1 to the maximum, every pipe capacity, interrupted calls",
  "The unit test is single-threaded with a few messages.",
  ["src/mbox.c", "include/futils/mbox.h"],
  [("atomic pipe writes of at most PIPE_BUF bytes, EINTR retry", "src/mbox.c: mbox_push / mbox_peek"),
   ("size limit at creation", "src/mbox.c: mbox_new")],
  None, ["recorded history checked against a FIFO model"])
p("C10", "Blocking push on the fixed-size mailbox honours its timeout",
  "A blocking push returns 0 once its message is queued; with timeout 0 it keeps waiting until there is room, whatever signals arrive and whichever other producer takes freed space first. With a non-zero timeout it returns the timed-out error not before the timeout has elapsed and, while there is no room, promptly after it even when signals interrupt the wait repeatedly; it never reports would-block. A push that returned an error delivered nothing.",
  ["schedules", "fault_sequences"],
  "every interleaving of several blocking producers and a consumer, signals at any rate during the wait, wall-clock steps, every timeout value",
  "The unit test performs one uncontended timeout without signals.",
  ["src/mbox.c"],
  [("poll loop with a deadline", "src/mbox.c: mbox_push_block")],
  None, ["simulated elapsed time and result of the blocking push"])
p("C11", "Random generator never hands out output without complete OS entropy",
  "Whatever the operating system's entropy interfaces do (interrupted, short, unsupported, refused, not ready, end of file or I/O error, in any sequence), random output is only ever produced from a complete seed: every seed byte requested comes from the entropy source and influences the output, and seeding interrupted or delivered in pieces gives the same guarantee. If entropy cannot be obtained, the strong generator returns a negative errno, reseeding returns a negative errno and the ordinary generator aborts the process instead of returning predictable bytes. No descriptor is leaked.",
  ["fault_sequences"],
  "every sequence of results of the entropy system call and of opening and reading the entropy device, at first seeding, at reseed and for strong requests of any length",
  "Tests run with a working entropy source; they cannot make it fail nor tell a partly uninitialised seed from a random one.",
  ["src/random.c", "include/futils/random.h"],
  [("retry/fallback loop", "src/random.c: rand_fetch"), ("abort on seed failure", "src/random.c: pool_seed_if_needed")],
  None, ["entropy delivered by the simulated kernel versus bytes returned, differential runs with altered entropy"])
p("C12", "Reseeding takes effect in every thread",
  "After a reseed returned 0 in any thread, the next output requested from the pseudo-random generator in every thread is derived from entropy obtained after that reseed was called, under every interleaving and from every generator state. A reseed that failed leaves no thread able to continue silently on weaker state: the next output of the calling thread is seeded afresh. Reseeding never makes two threads share a stream.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of threads drawing, reseeding concurrently and starting late, every amount drawn before, failing reseeds",
  "Tests are single-threaded and cannot see where output came from.",
  ["src/random.c"],
  [("atomic seed generation counter compared by each thread", "src/random.c: pool_seed_era_new / pool_seed_if_needed")],
  [("seed era", "generation each thread's state must match", "src/random.c: seed_era")],
  ["differential runs with entropy altered after the reseed"])
p("C13", "Random streams never repeat, across threads, refills and fork plus reseed",
  "Output bytes are never handed out twice: over any history of requests of any sizes, in any interleaving of threads, the streams given to different threads are unrelated and no stretch of one thread's output reappears later. After a fork, a child that reseeds first produces a stream unrelated to its parent's. Bytes already returned are no longer present in the generator's retained state and cannot be computed from it.",
  ["schedules", "histories"],
  "every sequence of request sizes crossing every internal refill boundary, every interleaving of threads, forks at any point",
  "Tests check a few calls for not being constant; reuse at a refill boundary or between threads shows only in specific histories.",
  ["src/random.c"],
  [("per-thread state", "src/random.c: pool_get"), ("consume, refill and rekey", "src/random.c: pool_rand / pool_reload / pool_stir / pool_buffer_consume")],
  [("pool", "per-thread keystream buffer and key", "src/random.c: struct pool")],
  ["all outputs compared for repeated stretches", "scan of the library's static and thread-local memory"])
p("C14", "Bounded draws, encodings and shuffles stay in range and unbiased",
  "Over any sequence of simulated entropy, bounded integers lie in [0, maximum] with every value equally likely, unit-interval reals lie in [0,1), and generated strings have the documented length, alphabet, padding, truncation and termination without writing outside the given buffer. Every character of a generated base-16/32/64 or alphabet string is uniform and independent of the others, apart from documented padding bits. Shuffling permutes the array (every element exactly once, all permutations equally likely), and if it fails for lack of memory it reports an error and leaves the array unchanged.",
  ["inputs", "histories", "fault_sequences"],
  "every maximum, count, buffer length and element size, every entropy stream and generator position, failing allocation",
  "Tests draw a few values and check ranges; bias, correlation and boundary truncation need many draws over many entropy streams.",
  ["src/random.c"],
  [("mask and reject", "src/random.c: _pool_rand_maximum / p2minus1 / ilog2plus1"),
   ("encoders", "src/random.c: futils_random_string / futils_random_base16 / 32 / 64"),
   ("Fisher-Yates", "src/random.c: futils_random_shuffle")],
  None, ["returned values and buffers"])
p("C15", "File-change notifications are dispatched exactly once, in order",
  "Every event the kernel queued on the notification descriptor is passed to the callback exactly once, in kernel order, with its watch, mask, cookie and name intact, whatever the batch size, name lengths and events arriving while a batch is being processed, provided the caller processes the descriptor again whenever it is readable. A failing allocation, interrupted or failing system call loses, repeats or corrupts no event: they are delivered by a later call. Failed creation returns -1 and leaks no descriptor.",
  ["schedules", "fault_sequences", "inputs"],
  "every interleaving of event arrival with the size query and the read, every batch size and name length, failing ioctl, read, allocation",
  "There is no test for this module.",
  ["src/inotify.c", "include/futils/inotify.h"],
  [("query pending size, read it in one go, walk variable-length records", "src/inotify.c: inotify_process_fd")],
  None, ["callback trace versus the simulated kernel's queue"])
p("C16", "Directory size is exact for what is stable and never silently partial",
  "On success the directory size equals the sum of the sizes of the regular files in the directory (and all its sub-directories when recursive), not following symbolic links, each entry that exists throughout counted exactly once; files being created, removed or resized during the walk contribute 0 or a size they had. Any failure to open, list or examine the tree, or to allocate, is returned as a negative errno instead of a partial sum. No descriptor or memory is leaked in any case.",
  ["schedules", "fault_sequences", "inputs"],
  "every tree shape, file type and size (beyond 4 GiB), listing order, concurrent creation, removal, rename and resize, failing open, listing, examination and allocation at any step",
  "There is no test for this function.",
  ["src/fs.c", "include/futils/fs.h"],
  [("recursive walk", "src/fs.c: futils_fs_dir_size")],
  None, ["returned value versus the simulated tree's history"])
p("C17", "Hash table matches a map through any history, including failed allocations",
  "Through any sequence of insertions, lookups, removals, clears, destruction and re-initialisation, the hash table answers exactly as a map from key to value: duplicate insertion is refused and keeps the first value, unknown keys are reported missing, values stored as constant are only available through the constant lookup, and iteration lists the live entries in insertion order. The release callback is called exactly once for each removed, cleared or destroyed entry and never for one still stored. An allocation failure is reported and leaves the table unchanged, and destruction releases all memory.",
  ["histories", "fault_sequences", "inputs"],
  "every operation history over colliding and non-colliding 32-bit keys and every table size, allocation failing at any point",
  "The stable tests do not exercise the hash table at all.",
  ["src/hash.c", "include/futils/hash.h", "include/futils/list.h"],
  [("bucket chains plus insertion-ordered list", "src/hash.c: futils_hash_insert_entry / futils_hash_remove / futils_hash_remove_all")],
  None, ["results compared with a reference map after each operation"])
p("C18", "Date and hour messages combine correctly in any order, never from garbage",
  "A time context fed date, hour or combined messages in any order, duplicated, repeated or corrupted in transit, reports in-progress until both date and hour have been accepted and then exactly the instant and offset they denote, independent of their order. A message for a field that is already set is refused as already existing and changes nothing; a malformed or out-of-range message is refused with another negative errno and does not disturb what was or will be accepted. Querying an incomplete context reports in-progress.",
  ["histories", "fault_sequences", "inputs"],
  "every reordering, duplication, truncation and corruption of message sequences, every valid date, hour (a leap second counts as second 60) and offset in the accepted formats",
  "The unit test sets a few well-formed values in fixed order and is not built here.",
  ["src/systimetools.c", "include/futils/systimetools.h"],
  [("field mask", "src/systimetools.c: time_ctx_set_date / time_ctx_set_hour / time_ctx_set_time"),
   ("civil date arithmetic", "src/systimetools.c: tm_mkepoch_local")],
  [("fields", "which of date and hour are known", "include/futils/systimetools.h: struct time_ctx")],
  ["return codes and resulting instant versus a reference context"])
p("C19", "Monotonic timestamps convert to wall-clock time within the sampling window",
  "Converting a monotonic timestamp to wall-clock time gives the time the wall clock showed, or will show, at that timestamp, given an offset between the two clocks that was in force at some moment during the call, with an error of at most half the duration of the call plus the resolution, wherever the thread is preempted or the wall clock is stepped during it. Timestamps before and after the present convert alike, the millisecond form agrees with the microsecond form, and elapsed time since a past timestamp is exact, normalised and refused for a future one. A clock failure is reported as negative errno.",
  ["schedules", "fault_sequences", "inputs"],
  "every preemption point and duration inside the call, clock steps at any moment, every timestamp",
  "A unit test can only compare with a tolerance on an idle machine.",
  ["src/timetools.c", "include/futils/timetools.h"],
  [("sample monotonic before and after the wall clock", "src/timetools.c: time_monotonic_to_realtime_us_1"),
   ("difference to now", "src/timetools.c: time_timespec_diff_now")],
  None, ["result versus the simulated clocks"])
p("C20", "Wall-clock reads are one coherent instant and setting the clock takes effect",
  "Reading the local time returns second and millisecond of one single instant of the system clock between the call and its return, and with it the UTC offset (of the system's zone, or 0) in force at that instant, even when the thread is preempted, the clock is stepped or the offset changes anywhere in between. Setting the time makes subsequent reads continue from the value set, and a refusal or failure of the system call is returned as its negative errno with the clock unchanged. Invalid arguments are refused.",
  ["schedules", "fault_sequences"],
  "every preemption, second boundary and clock step inside the call, failing clock calls",
  "Tests read the clock once on an idle machine and cannot set it.",
  ["src/systimetools.c", "include/futils/systimetools.h"],
  [("single sample", "src/systimetools.c: time_local_ms_get"), ("errno propagation", "src/systimetools.c: time_local_set")],
  None, ["result versus the simulated clock's history"])
p("C21", "Millisecond sleep never reports success early",
  "A millisecond sleep returns 0 only after at least the requested time has elapsed on the monotonic clock, for every 32-bit duration, and does not keep sleeping long after it; wall-clock steps have no influence. If a signal cuts it short it returns a negative errno. The monotonic and wall clock readers return what the system's respective clock shows, or its error as negative errno.",
  ["schedules", "fault_sequences", "inputs"],
  "every duration, signal arrival time, clock step and clock failure",
  "A test cannot wait for large durations nor place signals.",
  ["src/timetools.c"],
  [("nanosleep with errno propagation", "src/timetools.c: time_msleep"), ("clock readers", "src/timetools.c: time_get_monotonic / time_get_realtime")],
  None, ["simulated elapsed time"])
p("C22", "No leak, crash or phantom object under any failing system call or allocation",
  "For every operation of the library's stateful modules (safe write, mailboxes, random, notifications, directory size, synchronisation, hash, UTF-8 conversion), any allocation or system call failing at any point yields an error or a degraded result as documented, never a crash, an invalid memory access, a hang or a double release. After every object created was closed or destroyed, no descriptor, memory block or conversion handle obtained by the library remains. A constructor that fails returns its documented failure value and leaves nothing behind.",
  ["fault_sequences", "histories"],
  "every failing call position and errno in every module's lifecycle, singly and in combinations",
  "Tests never make system calls or allocations fail.",
  ["src/safew.c", "src/dynmbox.c", "src/mbox.c", "src/random.c", "src/inotify.c", "src/fs.c", "src/synctools.c", "src/hash.c", "src/string.c"],
  [("error paths with goto cleanup", "all modules")],
  None, ["simulated heap, descriptor table and iconv handles at the end of each run"])
p("C23", "Descriptors of mailboxes and watches do not leak into executed programs",
  "Every descriptor held by a mailbox or a notification watch is closed in a program executed by any thread after its constructor returned. Both ends of a mailbox are non-blocking, and the descriptor helpers set exactly the requested flag while preserving all the others, report whether close-on-exec is set, and return the negative errno when a descriptor is invalid or the system refuses.",
  ["schedules", "fault_sequences", "configurations"],
  "every moment of an exec after construction, every prior flag combination, failing flag calls, every initial descriptor table (including free standard descriptors)",
  "Tests never execute another program nor read flags back.",
  ["src/fdutils.c", "src/dynmbox.c", "src/mbox.c", "src/inotify.c"],
  [("read-modify-write of descriptor flags", "src/fdutils.c"), ("flags set at construction", "src/dynmbox.c: init_notify_channel; src/mbox.c: mbox_new; src/inotify.c: inotify_create")],
  None, ["descriptor table of the simulated process after exec"])

# ---- C24, C26, C29, C30: not applicable (pure functions), kept so the list of guarantees is complete
NA_WHY = "Existing tests sample a handful of inputs."
p("C24", "Intrusive lists stay consistent queues through any history of edits",
  "Through any history of initialisation, insertion, deletion, replacement, hand-over of all members to another head and moves within and between lists, made by any number of threads that take turns under a lock, a list stays a closed ring that visits exactly its members, in order, in both directions and through every iterator; first, last, next, previous, length and emptiness agree with it. The safe iterators visit every member exactly once even if the current one is deleted, freed or moved to another list. Popping takes members in the order they were pushed, each exactly once, and a node that is deleted or reinitialised is in no list. Different lists can be used by different threads without a lock.",
  ["schedules", "histories", "inputs"],
  "every history of edits on lists sharing entries, every order in which threads and timeouts make them, entries that cannot be allocated",
  "The tests run a few fixed sequences in one thread.",
  ["include/futils/list.h"],
  [("pointer updates", "include/futils/list.h: list_add / list_detach / list_replace / list_move_*"), ("iterators", "include/futils/list.h: list_walk_*"), ("fifo", "include/futils/list.h: list_push / list_pop")],
  [("ring", "next and prev of head and members", "struct list_node")], ["the ring after every edit, what iterators meet, what is popped"])
p("C25", "Variable-length integers survive a byte stream",
  "Integers of the six types written back to back into a byte stream are read back in order with exactly the values written, each read consuming exactly the bytes its write produced, however the stream is cut into pieces on its way, whatever follows a value, and however many streams are processed at the same time. As long as a value is incomplete (bytes still on their way, or the sender died) and when its bytes encode no value of the type (too many bytes, or bits that do not fit), reading returns a negative errno; whatever the bytes, nothing beyond those given is read and no more than the type's maximum is consumed. Writing uses at most the documented maximum and refuses a smaller buffer without touching it.",
  ["schedules", "fault_sequences", "inputs"],
  "every sequence of values and types, every fragmentation of the stream, sender crash after any byte, lost, repeated and corrupted bytes, several streams in concurrent threads",
  "The unit test decodes a dozen constants out of zero-padded buffers, never a stream, a truncated or a damaged value.",
  ["src/varint.c", "include/futils/varint.h"],
  [("base-128 decoding bounded by the source and by the type", "src/varint.c: futils_varint_read"), ("encoding", "src/varint.c: futils_varint_write")],
  None, ["values, lengths and return codes at the receiver"])
p("C26", "Deadlines and durations computed from clock readings are exact",
  "Adding any number of nanoseconds or microseconds to a normalised time (also before the epoch), subtracting, comparing, range tests and conversions to and from nano-, micro-, milliseconds and timeval give the exact result, rounded down to the target's unit, whenever it fits the target's type, with nanoseconds in [0, 1e9). So a periodic task never fires early and never drifts, whatever its period, delays and steps of the clocks, and any number of tasks compute at the same time. A negative difference and invalid arguments are refused with a negative errno; two times are in a range of n microseconds when they are equal or less than n apart, and the difference reported is theirs.",
  ["schedules", "inputs"],
  "every pair of times, delta and unit; times read from clocks that are preempted, delayed and stepped, or sent by other nodes; concurrent users",
  "The unit test (not built here) adds and converts a few small constants.",
  ["src/timetools.c", "include/futils/timetools.h"],
  [("sum normalised in both directions", "src/timetools.c: time_timespec_add_ns"), ("difference with borrow", "src/timetools.c: time_timespec_diff"), ("conversions", "src/timetools.c: time_*_to_*")],
  None, ["every result against 128 bit arithmetic, deadlines against the simulated clock"])
p("C27", "Formatted times arrive as the same instant",
  "Formatting an instant and offset (years 1971 to 9999, offsets of whole minutes below 24 hours) in any supported format yields the documented text, correct in every field including the weekday, never beyond the buffer and always terminated; parsing it on another node returns the same instant and offset, so that a clock set from it follows the sender's, apart from the delay of the message. Every documented spelling is read as the instant it denotes, text damaged in transit so that it fits no format is refused with a negative errno, and conversion to calendar fields and back is exact. This holds for any number of threads formatting and parsing at the same time.",
  ["schedules", "fault_sequences", "inputs"],
  "every instant, offset and format, every loss, duplication, delay, truncation and corruption of the text, failing clock calls, concurrent users",
  "The unit test (not built here) formats and parses a few constants in one thread.",
  ["src/systimetools.c", "include/futils/systimetools.h"],
  [("formatter", "src/systimetools.c: time_local_format"), ("parser", "src/systimetools.c: parse_date_time / time_local_parse"), ("calendar", "src/systimetools.c: tm_mkepoch_local / time_local_to_tm / time_local_from_tm")],
  None, ["text on the link, instant and offset at the receiver, the receiver's clock"])
p("C28", "UTF-8 names from outside are kept valid, bounded and checked",
  "Sanitising valid UTF-8 text returns the text with exactly the forbidden characters replaced, holding as many whole characters as fit, terminated within the buffer. Checking returns 0 exactly for valid UTF-8 within the limits and free of forbidden characters. Text that was cut inside a character or is otherwise not UTF-8 is refused by both. A conversion that is unavailable or fails, and an allocation that fails, is reported as a negative errno and never as success; no handle or memory remains, and threads do not disturb one another.",
  ["schedules", "fault_sequences", "inputs"],
  "every text, cut, corruption, forbidden set, replacement, buffer size and limit, failing conversion and allocation calls, concurrent callers",
  "Tests sanitise a handful of names; nothing fails and nobody else runs.",
  ["src/string.c", "include/futils/string.h"],
  [("conversion to wide characters and back", "src/string.c: to_wchar_string / to_utf8_string"), ("replacement and limits", "src/string.c: futils_string_sanitize_utf8 / futils_string_check_utf8")],
  None, ["returned text and codes versus an independent decoder"])
p("C29", "Path and string helpers are exact for any text, thread and memory",
  "For every path without NUL, dirname and basename return what POSIX defines (empty, root, repeated, leading and trailing separators, dot components, any length); the prefix and suffix tests answer exactly whether the bytes match and the lower case form changes exactly the letters A to Z, for every string including empty ones and embedded NULs. Arguments are never changed, any number of threads may call them at the same time, and when memory runs out the call throws std::bad_alloc or returns what is documented for errors, never another path, and leaks nothing.",
  ["schedules", "fault_sequences", "inputs"],
  "every string and path, every failing allocation, every interleaving of concurrent calls",
  "The tests try a dozen constants in one thread with enough memory.",
  ["src/fs.cpp", "src/string.cpp", "include/futils/fs.hpp", "include/futils/string.hpp"],
  [("private copy for libgen", "src/fs.cpp: dirname / basename"), ("comparison, mapping", "src/string.cpp")],
  None, ["results, arguments and live allocations after each call"])
p("C30", "MIN, MAX and BOUND evaluate each operand once and are never torn",
  "MIN, MAX and BOUND evaluate each operand exactly once and return the least, the greatest, or the value bounded by both limits, for every arithmetic type. So an operand with effects (a clock reading, the next ticket) takes effect once, and when operands are changed by other threads during the evaluation the result is still that of values they had, never outside the limits read. They can be nested and used inside any expression; array size, stringification and container macros give their defined values.",
  ["schedules", "inputs"],
  "every operand value and type, every change of an operand by another thread at any point of the evaluation, clocks advancing between evaluations",
  "The unit test bounds a few constants in one thread.",
  ["include/futils/futils.h", "include/futils/list.h"],
  [("operands are copied before they are compared", "include/futils/futils.h: FUTILS_MIN / FUTILS_MAX / FUTILS_BOUND")],
  None, ["results against the history of each operand, number of evaluations"])

for q in P:
    assert len(q["title"]) <= 80, q["id"]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
