#!/usr/bin/env python3
"""Source of truth for /verif/properties.jsonl: run to regenerate it."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                   state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                   observe_at=list(observe), hook_needed=hook)))

prop("T01", "Thread pool runs every accepted job exactly once, in FIFO start order",
 "Every job that thpool_add_work accepted (returned 0) before a thpool_wait is run exactly once with its own argument by the time that wait returns, and no job is ever run twice or with another job's argument, no matter how many threads add work or whether jobs add further jobs. Jobs are taken from the queue in the order they were added: jobs added by one thread start in that order on a pool of one thread. Never more jobs run at the same moment than the pool has threads, and thpool_num_threads_working stays between 0 and that number.",
 ["schedules", "histories"], "every interleaving of producers, workers and waiters; every pool size, job count, job duration and job-adds-job shape",
 "lcu_demo runs one fixed workload with sleeps on the OS scheduler; lost wake-ups, double pulls and torn queue links need specific interleavings it never forces.",
 ["src/thread/thpool.c", "inc/thread/thpool.h"],
 [("job queue mutex + binary semaphore hand-off", "src/thread/thpool.c jobqueue_push/jobqueue_pull/bsem_*"), ("worker loop", "src/thread/thpool.c thread_do")],
 [("jobqueue", "linked FIFO of pending jobs", "thpool_p->jobqueue"), ("num_threads_working", "jobs in execution", "thpool_p")], ["thpool_add_work", "thpool_wait", "job callback"])

prop("T02", "thpool_wait and thpool_destroy are exact completion barriers",
 "thpool_wait returns only when no job that had been accepted before the call is still queued or running, and every thread blocked in thpool_wait returns once the pool is idle, however many threads wait at once. thpool_destroy returns only after every job that was running has finished and every worker has left, after which no worker touches the pool or runs a job and all memory of the pool is released. Both return within a bounded number of steps once the jobs finish.",
 ["schedules", "histories"], "every interleaving of waiters, destroyers, adders and workers, including destroy with jobs queued or running and with idle workers",
 "The demo calls wait and destroy once from one thread after the jobs are long done; completion races and use-after-free on teardown need a schedule.",
 ["src/thread/thpool.c", "inc/thread/thpool.h"],
 [("threads_all_idle condition + thcount_lock", "src/thread/thpool.c thpool_wait/thread_do"), ("keepalive flag and alive-count polling", "src/thread/thpool.c thpool_destroy")],
 [("num_threads_alive", "workers not yet gone", "thpool_p")], ["thpool_wait", "thpool_destroy"])

prop("T03", "Thread pool pause stops job execution and resume always lets it continue",
 "While a pool is paused its workers make no progress on jobs once each has received the pause, work can still be added, and after thpool_resume every accepted job runs exactly once: however pause and resume interleave with workers, a resumed pool never stays stuck. Creating or destroying another pool does not resume a paused one.",
 ["schedules", "fault_sequences"], "every delivery point of the pause signal relative to worker progress and to resume, on pools of any size",
 "The demo pauses once with sleeps around it; the signal-delivery races are never exercised.",
 ["src/thread/thpool.c", "inc/thread/thpool.h"],
 [("SIGUSR1 handler hold loop", "src/thread/thpool.c thread_hold"), ("pause/resume", "src/thread/thpool.c thpool_pause/thpool_resume")],
 [("threads_on_hold", "global hold flag", "src/thread/thpool.c")], ["thpool_pause", "thpool_resume"])

prop("T04", "Thread pool fails cleanly when memory or threads cannot be obtained",
 "If any allocation or thread creation fails while a pool is being created, thpool_init returns NULL within a bounded number of steps, leaving no worker thread and no memory behind; it never returns a pool with fewer threads than asked. If thpool_add_work fails it returns a non-zero value, its job never runs and nothing leaks, and every other accepted job still runs exactly once. A job without a function is refused. After destroy no worker is left holding its thread resources.",
 ["fault_sequences", "schedules"], "failure of any subset of allocations and thread creations, in every interleaving with already-started workers",
 "No test injects an allocation or pthread_create failure.",
 ["src/thread/thpool.c"], [("init error paths", "src/thread/thpool.c thpool_init/thread_init/jobqueue_init"), ("add_work error path", "src/thread/thpool.c thpool_add_work")], observe=["thpool_init", "thpool_add_work"])

prop("S01", "Portable mutex, rwlock, semaphore and thread wrappers keep their contracts",
 "Under every schedule a portable mutex admits one holder at a time, a portable rwlock admits either one writer or any number of readers, a portable semaphore lets through exactly as many waits as its initial value plus posts, and a portable join returns after the thread ended with the pointer the thread returned. Every operation reports 0 on success and non-zero on failure, init under memory exhaustion or failed thread creation reports failure and leaks nothing, and operating on a NULL or uninitialised handle is reported as an error instead of crashing. Mutex and thread attributes handed over (recursive, error checking, writers first, detached) take effect. A thread carries the name (up to 15 characters) given at its creation or set by itself, whatever other threads do, and its thread number is its own and constant.",
 ["schedules", "fault_sequences"], "every interleaving of threads using the wrappers; allocation and thread-creation failures, EINTR during semaphore waits",
 "The tests only use the wrappers indirectly on the OS scheduler and never make init fail.",
 ["src/thread/portable_thread_posix.c", "inc/thread/portable_thread.h"],
 [("heap handle around each pthread object", "src/thread/portable_thread_posix.c")], observe=["portable_* functions"])

prop("R01", "RingBuffer is a lossless byte FIFO for one writer and one reader",
 "With one writing and one reading thread running concurrently, the bytes returned by RingBuffer_read, in order, are exactly the bytes accepted by RingBuffer_write, with none lost, repeated, reordered or altered; peek shows the next bytes without consuming them and discard drops exactly the count it reports. Write accepts min(length, free space) and read returns min(length, stored bytes) as seen at some moment during the call, occupancy never exceeds the real capacity, and this stays true when the internal positions wrap around 32 bits. A ring made in caller memory, of any size up to 4 GiB, lies within it and has a capacity of at least one byte.",
 ["schedules", "histories"], "every interleaving of one producer and one consumer at memory-access granularity, all capacities, chunk sizes and starting positions including the 32-bit wrap",
 "Tests run a few sequential operations or an unforced two-thread loop; torn publication and 2^32 wrap-around are not reached.",
 ["src/ring/ringbuffer.c", "inc/ring/ringbuffer.h"],
 [("free-running in/out counters, copy before publish", "src/ring/ringbuffer.c RingBuffer_write/RingBuffer_read/RingBuffer_peek/RingBuffer_discard")],
 [("in/out", "total bytes written / read modulo 2^32", "struct ring_buffer_t")], ["RingBuffer_* API"])

prop("R02", "ring_buf is a lossless all-or-nothing byte FIFO for one writer and one reader",
 "With one writing and one reading thread running concurrently, the bytes ring_buf returns are exactly the bytes it accepted, in order, none lost, repeated or altered. A write or read either transfers the whole requested length or nothing at all, a refused write (insufficient space) or read (insufficient data) changes nothing, and available-space plus available-data queries never over-promise to the thread entitled to act on them.",
 ["schedules", "histories"], "every interleaving of one producer and one consumer at memory-access granularity, all sizes and chunk lengths",
 "Tests exercise it sequentially only.",
 ["src/ring/ring_buf.c", "inc/ring/ring_buf.h"], [("two cursors, copy before publish", "src/ring/ring_buf.c")], observe=["ring_buf_* API"])

prop("R03", "Auto-cover buffer always serves exact bytes of its latest window",
 "With a lock supplied, concurrent auto_cover_buf_write and auto_cover_buf_read calls behave as if executed one at a time: each write of at most the real capacity appends all its bytes, dropping only the oldest bytes that no longer fit, and a successful read at a position (taken modulo the buffer size, so it names at most one stored byte) returns exactly the bytes stored from there on and drops what precedes them and the bytes read. A read of a covered or not-yet-written position, or of more bytes than follow it, returns a negative error and changes nothing, available_read reports the bytes that follow the position and changes nothing, and the lock is always released.",
 ["schedules", "histories"], "all interleavings of several locked writers and readers, all capacities, lengths and read positions",
 "The demo uses one writer and one reader in sequence with fixed sizes.",
 ["src/ring/autocover_buffer.c", "inc/ring/autocover_buffer.h"], [("lock callbacks around ring arithmetic", "src/ring/autocover_buffer.c auto_cover_buf_internal_read/auto_cover_buf_write")], observe=["auto_cover_buf_* API"])

prop("Q01", "msg_queue keeps message boundaries and order between one pusher and one popper",
 "With one pushing and one popping thread running concurrently, each message accepted by msg_queue_push is popped exactly once, whole, with its exact length and bytes, in push order; a refused push leaves no trace. A pop that cannot return a whole message (empty, message still being written, or target buffer too small) consumes nothing and succeeds later, a too-small buffer being told the needed size. A push is refused only when the message and its header do not fit the free space, and the reported available bytes never promise room for a push that then fails.",
 ["schedules", "histories"], "every interleaving of one producer and one consumer at memory-access granularity, all queue sizes, message sizes and pop buffer sizes",
 "Tests push and pop a few messages from one thread.",
 ["src/ring/msg_queue.c", "inc/ring/msg_queue.h", "src/ring/ringbuffer.c"], [("length header followed by body in the ring", "src/ring/msg_queue.c msg_queue_push/msg_queue_pop")], observe=["msg_queue_push", "msg_queue_pop"])

prop("Q02", "fixed_msg_queue delivers each message whole, once, in order",
 "With one pushing and one popping thread running concurrently, each fixed-size message accepted by fixed_msg_queue_push is popped exactly once, whole and unaltered, in push order; a refused push or an empty pop has no effect. Push is refused only when no free slot is available, a queue made for N messages has at least N slots, and the available push and pop amounts reported to the pusher and popper are amounts that really can be pushed and popped.",
 ["schedules", "histories"], "every interleaving of one producer and one consumer at memory-access granularity, all message sizes and capacities",
 "Tests push and pop a few messages from one thread.",
 ["src/ring/fixed_msg_queue.c", "inc/ring/fixed_msg_queue.h", "src/ring/ringbuffer.c"], [("ring of fixed-size records", "src/ring/fixed_msg_queue.c")], observe=["fixed_msg_queue_push", "fixed_msg_queue_pop"])

prop("H01", "Message handler thread handles each accepted message exactly once, in order",
 "Every message that msg_queue_handler_push accepted is handed to the handler callback exactly once, whole and in push order, on the handler's own thread and never two at a time, as long as the handler is not stopped; once pushes cease, all accepted messages are handled within a bounded number of steps. This holds for any message sizes (including ones larger than the internal buffer), interrupted semaphore waits, and producers serialised by a lock.",
 ["schedules", "fault_sequences", "histories"], "all interleavings of locked producers and the worker; EINTR on waits; message sizes from 0 to the queue size",
 "The demo runs one workload with sleeps on the OS scheduler.",
 ["src/ring/msg_queue_handler.c", "inc/ring/msg_queue_handler.h", "src/ring/msg_queue.c"], [("semaphore post per message + worker pop loop", "src/ring/msg_queue_handler.c")], observe=["fn_handle_msg callback"])

prop("H02", "Message handler start, stop and destroy are orderly, also under failures",
 "The status callback reports READY exactly once before the first message and ABOUT_TO_STOP exactly once after the last one; when the callback asks to stop or memory for a message runs out, no further message is handled and later pushes are refused. Destroy returns only after the handler thread has ended and the callbacks are over, sets the handle to NULL, never hangs, and frees everything; create under failing allocations or thread creation returns NULL and leaks nothing.",
 ["schedules", "fault_sequences", "histories"], "destroy at any moment relative to pushes and handling; any allocation or thread-creation failure",
 "No test destroys mid-traffic, stops from the callback or injects a failure.",
 ["src/ring/msg_queue_handler.c", "inc/ring/msg_queue_handler.h"], [("flag2exit, semaphore wake-up and join", "src/ring/msg_queue_handler.c msg_queue_handler_destroy")], observe=["fn_on_status_changed", "msg_queue_handler_push", "msg_queue_handler_destroy"])

prop("H03", "Fixed message handler delivers in order and stops orderly",
 "Every message accepted by fixed_msg_queue_handler_push and not cleared is handed to the callback exactly once, unaltered, in push order, on the handler's own thread; once pushes cease all of them are handled within a bounded number of steps. READY is reported once before the first message and ABOUT_TO_STOP once after the last; a non-zero callback result ends handling and later pushes are refused; destroy waits for the handler thread, never hangs and frees everything; create under failing allocations or thread creation returns NULL without leaks.",
 ["schedules", "fault_sequences", "histories"], "all interleavings of locked producers, worker and destroyer; EINTR; allocation and thread-creation failures",
 "The demo runs one workload with sleeps on the OS scheduler.",
 ["src/ring/fixed_msg_queue_handler.c", "inc/ring/fixed_msg_queue_handler.h", "src/ring/fixed_msg_queue.c"], [("semaphore post per message + worker pop loop", "src/ring/fixed_msg_queue_handler.c")], observe=["fn_handle_msg callback", "fn_on_status_changed"])

prop("H04", "Clearing a fixed message handler drops only messages pushed before the clear",
 "A message pushed after fixed_msg_queue_handler_clear returned is always handled, and a message accepted before clear was called is not handed to the callback after clear returned, except the one whose handling had already begun. Messages that are handled keep their push order and none is handled twice. (Clears are serialised with each other by the caller, as pushes are.)",
 ["schedules", "histories"], "clear at any moment relative to pushes and to the worker's progress, repeated clears",
 "The demo never checks what a clear drops while the worker is running.",
 ["src/ring/fixed_msg_queue_handler.c"], [("message token compared with the minimum valid token", "src/ring/fixed_msg_queue_handler.c")], observe=["fixed_msg_queue_handler_clear", "fn_handle_msg callback"])

prop("L01", "xlog emits each record once, whole and unmixed, from any thread",
 "After xlog_global_init, with a fixed configuration, tags of at most 22 and function names of at most 30 characters, every log call at or above the minimum level produces exactly one complete record on each selected target (console, user callback), with exactly its header fields (level, tag, thread id, source line) and message of any length, never mixed with another thread's record. Records of one thread appear in call order, all targets see the same order, and the callback receives a NUL-terminated text whose stated size counts the terminator. If memory for a long record runs out, that record alone may be missing; nothing else is lost, altered or leaked, and logging never deadlocks.",
 ["schedules", "fault_sequences", "inputs"], "all interleavings of logging threads, message lengths around and beyond the internal buffer, allocation failures",
 "Tests log a handful of lines from one thread and nothing compares the output.",
 ["src/log/xlog.c", "inc/log/xlog.h"], [("global log mutex", "src/log/xlog.c __xlog_internal_print"), ("stack buffer with heap fallback", "src/log/xlog.c")], observe=["stdout", "user callback"])

prop("L02", "xlog honours level, target and format settings under concurrent changes",
 "A record below the minimum level, or for a target that is not selected, is never emitted, and one at or above it for a selected target always is, where a call concurrent with a configuration change may follow the configuration before or after that change but no other. Auto level-up raises exactly the records between the minimum and the trigger level, every format combination prints exactly the requested header parts, and the getters return the last value set.",
 ["schedules", "configurations", "histories"], "all interleavings of logging threads with configuration calls; all levels, targets, formats and flush modes",
 "Tests set a configuration once before logging.",
 ["src/log/xlog.c", "inc/log/xlog.h"], [("configuration record read by each print", "src/log/xlog.c g_xlog_cfg")], observe=["stdout", "user callback", "xlog_get_*"])

prop("L03", "File logger stores accepted messages once, in order, within the piece size",
 "Every non-empty message accepted by file_logger_log and drained before deinit is found exactly once, as one line, in acceptance order across the log files of that logger taken in creation order; messages still queued at deinit may be missing only as a suffix; an empty message leaves no line and disturbs no other. A new file is started once a file has reached the configured piece length, so a piece exceeds that length by at most one message, a limit of 0 never splits, and moving to the next piece never destroys messages already written, also when the wall clock stands still or jumps backwards.",
 ["schedules", "fault_sequences", "histories"], "all interleavings of locked logging threads and the writer thread; all piece sizes; wall-clock jumps and stalls",
 "The demo writes a few messages and nobody reads the files back; two rotations within one clock tick never occur in it.",
 ["src/log/file_logger.c", "inc/log/file_logger.h", "src/ring/msg_queue_handler.c", "src/time/time_util.c"], [("queue to writer thread, timestamped piece files", "src/log/file_logger.c handle_log_queue_msg")], observe=["log files"])

prop("L04", "File logger survives overload, disk faults, failed allocations and crashes",
 "file_logger_log returns 0 exactly when the message was accepted for writing; with best-effort mode on, a message it could not queue is appended to the lost-log file instead, provided that file can be opened. Whatever disk errors, full disks, failing opens or failing allocations occur, each stored line is a message that was logged, at most once and in order, messages accepted while the disk works and memory lasts are stored, deinit returns and nothing leaks or is used after free. After a process crash at any point the files hold a prefix of the accepted messages, the last line possibly cut.",
 ["fault_sequences", "crash_points", "schedules"], "any sequence of failed or short writes, failed opens and mkdirs, allocation failures, queue overflow, and a crash at any step",
 "No test injects an I/O fault, allocation failure or crash.",
 ["src/log/file_logger.c"], [("bounded retry then lost-log file", "src/log/file_logger.c file_logger_log"), ("reopen on next message after failed open", "src/log/file_logger.c handle_log_queue_msg")], observe=["log files", "*_lost.log"])

prop("C01", "Time strings always equal the formatted clock value, under any clock behaviour",
 "For any instant and time zone hour, time_util_get_time_str and its file-name and current variants return the text of exactly that instant (to the millisecond) in that zone, whatever instants and zones were formatted before and by whichever threads concurrently, and whether the clock stands still, advances, or jumps backward or forward, including to the epoch and past 2038 (local times before 1970 are out of scope). The returned length is the length of the text, which never exceeds the documented buffer, and time_util_current_ms agrees with the wall clock.",
 ["schedules", "fault_sequences", "inputs"], "all interleavings of formatting threads sharing the cache; all clock jump sequences",
 "Tests format the current time once; cache sharing between threads and jumps are not exercised.",
 ["src/time/time_util.c", "inc/time/time_util.h"], [("cached last second behind a rwlock", "src/time/time_util.c time_util_get_time_str")], [("format cache", "last formatted second and zone", "src/time/time_util.c")], ["returned string"])

prop("M01", "Allocation tracking accounts for every live block exactly, from any thread",
 "With the tracker initialised, the unfreed amount it reports equals the total requested size of exactly the blocks allocated and not yet freed, each reported once with its size and origin, under any concurrent mix of tracked malloc, calloc, realloc, strdup, strndup and free; freeing a block always removes it and address reuse confuses nothing. A correct program is never aborted by the tracker, while a write just outside a block or a double free is detected at the latest when that block is freed or checked. Callers with allocators of their own get the same through allocation_tracker_notify_alloc and _notify_free, where a block given to another allocator's id is detected, and the macros of mem_debug.h record the file, function and line of each call.",
 ["schedules", "histories", "fault_sequences"], "all interleavings of allocating and freeing threads, with and without address reuse; table growth under failing allocations",
 "The memcheck demo only looks at the leak total at exit of mostly single-threaded cases.",
 ["src/mem/allocator.c", "src/mem/allocation_tracker.c", "src/data/hashmap.c", "src/data/hash_functions.c", "inc/mem/mem_debug.h"], [("locked pointer map with canaries", "src/mem/allocation_tracker.c")], observe=["allocation_tracker_expect_no_allocations", "abort"])

prop("M02", "Tracked allocation functions keep the libc contract, also when memory runs out",
 "lcu_malloc, lcu_calloc, lcu_realloc, lcu_strdup and lcu_strndup return a block of at least the requested size that overlaps no other live block, zeroed for calloc, holding the old contents up to the smaller size for realloc and the exact string for the string functions, whether or not the tracker is initialised. When memory runs out or the size overflows they return NULL, a failed realloc leaves the old block and its contents untouched, nothing leaks and the accounting stays exact.",
 ["fault_sequences", "histories", "schedules"], "any sequence of allocator calls with allocation failures at any of them, from several threads",
 "No test makes an allocation fail or checks contents across realloc in both tracker modes.",
 ["src/mem/allocator.c", "src/mem/allocation_tracker.c"], [("canary-padded allocation", "src/mem/allocator.c"), ("copying realloc", "src/mem/allocator.c lcu_realloc_trace")], observe=["lcu_* functions"])

prop("M03", "mplite pool blocks never overlap and freed memory is always reusable",
 "With a lock supplied and any number of threads, blocks returned by mplite_malloc and mplite_realloc lie inside the pool, are aligned, at least as large as asked and never overlap a live block, and contents survive until freed, realloc preserving them. A request fails only when no sufficient free block exists, a failed realloc leaves the old block intact, and once everything is freed the largest block possible after init can be allocated again; every failure path releases the lock. The statistics agree with the blocks handed out and given back.",
 ["schedules", "histories"], "all interleavings of threads allocating, reallocating and freeing in all pool and minimum-block sizes, exhaustion included",
 "Tests allocate a few blocks from one thread.",
 ["src/mem/mplite.c", "inc/mem/mplite.h"], [("buddy allocator behind lock callbacks", "src/mem/mplite.c")], observe=["mplite_malloc", "mplite_realloc", "mplite_free"])

prop("M04", "The memory-checking build behaves exactly like the plain build",
 "Built with _LCU_MEM_CHECK_FEATURE_ENABLE and with the allocation tracker switched on, every component keeps the guarantees it has in the plain build, memory that one component allocates and another component or the caller frees is always handed to the matching allocator, the tracker reports neither corruption, foreign nor double frees for correct use of the library, and once the objects are destroyed it expects no allocations, also after allocation failures and with several threads.",
 ["schedules", "fault_sequences"], "all the schedules, inputs and faults of the other properties on components whose allocations are tracked, with the tracker enabled",
 "The test run exercises the tracking build on the same few healthy single paths.",
 ["inc/mem/mem_debug.h", "src/mem/allocator.c", "src/mem/allocation_tracker.c"], [("allocation macros of mem_debug.h across component borders", "inc/mem/mem_debug.h"), ("canaries and ownership records", "src/mem/allocation_tracker.c")], observe=["every component that includes mem_debug.h", "allocation_tracker_expect_no_allocations"])

prop("L05", "Console output redirected to a file goes there whole, once and in order",
 "After xlog_stdout2file or slog_stdout2file succeeds, every console record of xlog and of slog goes whole and in call order to that file and none to the console; before it, and after xlog_back2stdout or slog_back2stdout, records go to the console again. No record is lost or doubled across a switch, each carries the right level, tag and text and is subject to the level set, hex dumps show exactly the given bytes, and with flushing set to every record the record is in the file when the call returns. A redirect that fails causes no crash, leaves no lock held and does not prevent a later one. (Scope: the redirect calls are made while no other thread logs.)",
 ["histories", "fault_sequences", "schedules"], "all sequences of redirect, restore, setting and logging calls from several threads between switches, with failing opens of the target and of the console at any switch",
 "Tests redirect once on a healthy disk and nobody reads the file back.",
 ["src/log/xlog.c", "src/log/slog.c", "inc/log/xlog.h", "inc/log/slog.h"], [("freopen of the standard stream", "src/log/xlog.c xlog_stdout2file/xlog_back2stdout"), ("same on the simple logger", "src/log/slog.c")], observe=["redirect target content", "console output"])

prop("L06", "Log macros and facade carry each call site unchanged to the chosen logger",
 "Whatever public header a program logs through (xlog.h, slog.h, logger.h with the xlog or the slog selector, with or without its own LOG_TAG, prefix and suffix), each LOGx, TLOGx, _TRACE and _HEX statement that passes the minimum level yields exactly one record of the selected logger with the level of the macro, the given or default tag, the formatted text or exactly the given bytes, and for _TRACE the function and line of the call site, from any thread and in call order per thread. The level, redirect, init and cleanup macros act on that logger, and a program compiled with logging switched off (LCU_XLOG_OFF, _LCU_LOGGER_DISABLE) builds and emits, redirects and sets nothing.",
 ["schedules", "histories", "configurations", "fault_sequences"], "all interleavings of several programs' log statements through seven front-end configurations, with level, format, target, tag and redirect changes between phases and failing opens",
 "The demo logs through one configuration and nobody compares what arrives; switched-off builds are never compiled.",
 ["inc/log/xlog.h", "inc/log/slog.h", "inc/log/logger.h", "inc/log/logger_facade.h", "inc/log/logger_facade_xlog.h", "inc/log/logger_facade_slog.h"], [("call-site macros", "inc/log/xlog.h"), ("facade macros", "inc/log/logger_facade.h")], observe=["console and file output", "callback records", "level getters"])

prop("F01", "file_util_read and file_util_write transfer everything the descriptor allows",
 "file_util_write on a descriptor that accepts data in arbitrary short pieces writes all bytes, in order, each exactly once, and returns the full count; file_util_read returns exactly the bytes the descriptor delivers in short pieces up to the requested count or end of file, never beyond the buffer. When the descriptor fails after part of the data, the returned count is exactly the number of bytes transferred and the call does not try for ever, and an interruption by a signal loses or repeats no byte.",
 ["fault_sequences", "inputs"], "any split into short transfers, with errors, end of file and interruptions after any of them",
 "Tests use regular local files, which never transfer short.",
 ["src/file/file_util.c", "inc/file/file_util.h"], [("retry loop over the remaining range", "src/file/file_util.c pri_internal_rw_file")], observe=["file_util_read", "file_util_write"])

prop("F02", "Whole-file helpers succeed completely or report failure without leaks",
 "file_util_read_all returns 0 only with the exact complete file content, NUL-terminated, and its exact length, and otherwise non-zero with no buffer handed out; file_util_read_txt passes every non-blank line, trimmed of leading blanks and line end, in order with its number until the callback stops it; size queries equal the real size or report an error. Open, seek, read and memory failures at any point yield an error or a shorter prefix of lines, never wrong content, a crash, or a leaked stream or buffer. (Scope of the line reader: lines up to 1021 bytes.)",
 ["fault_sequences", "inputs"], "any file content and size with failures of open, seek, tell, read (short or failing) and allocation at any point",
 "Tests read one healthy file.",
 ["src/file/file_util.c", "inc/file/file_util.h"], [("open/seek/read error paths", "src/file/file_util.c file_util_read_all/file_util_read_txt")], observe=["file_util_read_all", "file_util_read_txt"])

prop("F03", "file_util_mkdirs creates the whole path, also when several threads race",
 "When file_util_mkdirs returns 0 every directory component ending in a slash exists, and it creates nothing else; concurrent callers creating the same or overlapping paths all succeed when nothing fails. If a directory cannot be created it returns non-zero, having created only a prefix of the path, and repeating the call after the fault is gone succeeds. Preparing a path with file_util_append_slash_on_path_if_needed appends at most one separator and stays inside the buffer given, and file_util_access answers for the mode asked. (Scope: forward slashes; a path of 256 or more characters is refused.)",
 ["schedules", "fault_sequences"], "all interleavings of concurrent callers with overlapping paths; failure of any mkdir",
 "Tests create one path from one thread.",
 ["src/file/file_util.c"], [("access-then-mkdir walk", "src/file/file_util.c file_util_mkdirs")], observe=["directory tree"])

prop("F04", "Directory iteration reports every entry once with its right type",
 "Iterating a folder calls the callback once for every regular entry except the dot entries, with the right name and type (file or folder), until the callback asks to stop; the directory stream is always closed. When the folder cannot be opened an error is returned without any callback, and an entry that disappears or cannot be examined during iteration never causes wrong or repeated reports, a crash or a leak: it is skipped and the others are still reported.",
 ["fault_sequences", "schedules"], "all folder contents, concurrent creation and removal of entries, failures of opendir and stat at any entry",
 "Tests list one fixed folder.",
 ["src/file/file_iterator.c", "inc/file/file_iterator.h"], [("readdir loop with stat", "src/file/file_iterator.c")], observe=["iteration callback"])

prop("I01", "A saved ini file reads back identically, and a failed save is reported",
 "When ini_parser_save returns success, the file on disk holds exactly the parser's sections, keys and values, so that parsing the file yields an equal parser; the same holds for dumping to memory. If opening, writing or closing the file fails at any point, or memory runs out, the save reports failure; in all cases the file stream is closed and nothing leaks, and the parser's own content is unchanged. A file that cannot be read to its end is not parsed into a parser holding a part of it. (Scope: content a line of an ini file can represent, that is section and key names of at most 49 characters, lines of at most 197 bytes, no line breaks, comment markers or outer blanks, and sections that hold a key.)",
 ["fault_sequences", "histories"], "any sequence of put and delete operations followed by a save, with short writes, full disk, failed open or close and failing allocations at any point",
 "Tests save to a healthy disk only.",
 ["src/file/ini_parser.c", "inc/file/ini_parser.h", "src/mem/stringbuilder.c"], [("dump to string builder then write file", "src/file/ini_parser.c ini_parser_save")], observe=["ini_parser_save", "ini_parser_parse_file", "file content"])

prop("I02", "Each ini parser operation applies entirely or not at all, also out of memory",
 "After any sequence of put, delete key, delete section and get operations the parser holds exactly what a simple ordered section/key map would hold, gets return the stored text with exact string, integer and other typed conversions, and iteration visits each pair once in order. An operation that cannot obtain memory returns an error code and leaves every existing section, key and value as it was; parsing under memory failure returns no half-built parser; nothing is leaked or used after free. Section and key names compare without regard to case, and a NULL or empty section or key is answered with an error code. (Scope: names up to 63 and values up to 255 characters, numbers that fit the type.)",
 ["fault_sequences", "histories"], "all operation sequences on a few sections and keys with an allocation failure at any point",
 "Tests perform a short fixed script of operations without failures.",
 ["src/file/ini_parser.c", "src/data/list.c"], [("section list with last-used cache", "src/file/ini_parser.c")], [("p_last_used_section", "cached section", "src/file/ini_parser.c")], ["ini_parser_* API"])

prop("I03", "ini reader reports the same entries however the input is delivered",
 "Parsing a stream, a file or a string with the same text calls the handler with the same section, name and value triples in order, and returns the same result (0, or the number of the first bad line), independent of how the input source splits its data. A handler that reports an error is reflected in the result, an unopenable file gives -1, failed allocations give the documented error (-2, only when the line buffer is on the heap), and the file is always closed. This holds for every build configuration that ini_reader.h documents (buffer on the heap, fixed or growing up to INI_MAX_LINE, own allocator, other comment characters, no inline comments, continuation lines or BOM, stop at the first error, report new sections, line numbers for the handler, lines without value refused), and each option does what it says. (Scope: lines shorter than INI_MAX_LINE, 200 as shipped, and text without NUL bytes; longer lines are still reported alike by all sources; a read error looks like the end of the input.)",
 ["fault_sequences", "inputs"], "all texts and all splits of the data into short reads; open and read failures",
 "Tests parse one healthy file.",
 ["src/file/ini_reader.c", "inc/file/ini_reader.h"], [("line reader over a reader callback", "src/file/ini_reader.c ini_reader_parse_stream")], observe=["handler callback", "return value"])

prop("D01", "hashmap with a lock behaves as an atomic map, also when memory runs out",
 "A hashmap created with lock callbacks and used from several threads behaves as if its put, get, remove and clear calls ran one at a time on a simple map, across any growth of the table. A put that returns NULL with errno ENOMEM did not insert anything, and a put whose entry was inserted never reports ENOMEM; failing to grow loses nothing; keys and values are freed exactly once through the given callbacks; iteration visits each entry at most once and stops when the callback says so; the lock is always released.",
 ["schedules", "fault_sequences", "histories"], "all interleavings of locked operations on few keys (collisions included) with allocation failure at any operation",
 "Tests use one thread and no failing allocations.",
 ["src/data/hashmap.c", "inc/data/hashmap.h"], [("lock callbacks around chained buckets", "src/data/hashmap.c")], observe=["hashmap_* API"])

prop("D02", "str_params keeps every pair intact, also when memory runs out",
 "A str_params object holds exactly the last value added for every key, as parsed or added; typed getters return the value or the documented negative error, and converting to text and parsing that text again yields an equal object. An add that fails returns a negative error and changes nothing, creation from text under memory failure either returns NULL or an object without corrupted pairs, conversion to text never returns a text missing some pairs, and no operation leaks, double-frees or uses freed memory. (Scope: keys are non-empty without '=' or the delimiter, values without the delimiter; doubles keep ten decimals.)",
 ["fault_sequences", "histories"], "all operation sequences with an allocation failure at any point, including while the table grows",
 "Tests run a fixed script without failing allocations.",
 ["src/mem/str_params.c", "src/data/hashmap.c"], [("strdup'ed pairs owned by a hashmap", "src/mem/str_params.c")], observe=["str_params_* API"])

prop("D03", "Growable containers keep their content when memory runs out",
 "String builder, array and list always hold exactly the sequence of elements successfully appended, inserted and not removed, across any growth; every append or insert either succeeds completely or reports failure and leaves content, length and order unchanged. Creating a container of impossible size is refused. Lists call the free callback exactly once for each removed element, iteration follows order and may stop early, and nothing is leaked or used after free. (Scope: appended data lies outside the container, array_append_value is for elements of at most 4 bytes, and a list callback removes at most the visited element.)",
 ["fault_sequences", "histories"], "all operation sequences with an allocation failure at any point of growth",
 "Tests append to healthy memory only.",
 ["src/mem/stringbuilder.c", "src/data/array.c", "src/data/list.c"], [("ensure-space before write", "src/mem/stringbuilder.c"), ("grow before append", "src/data/array.c")], observe=["stringbuilder_*", "array_*", "list_* API"])

prop("G01", "Library init and cleanup are balanced, repeatable and fail cleanly",
 "lcu_global_init may be called any number of times and takes effect once; the library stays usable until the matching number of lcu_global_cleanup calls, after which a new init works again and all resources of the previous one were released exactly once. Surplus cleanup calls do nothing. After the last cleanup nothing the library allocated remains, and an allocation failure during init causes no crash, double release or leak.",
 ["histories", "fault_sequences"], "all sequences of init, use and cleanup with an allocation failure at any of them",
 "Tests call init and cleanup once, at start and end.",
 ["src/lcu.c", "src/log/xlog.c", "src/time/time_util.c"], [("init counter", "src/lcu.c g_init_times")], observe=["lcu_global_init", "lcu_global_cleanup"])

prop("G02", "A release build keeps every guarantee the debug build keeps",
 "Compiled for release (optimised, with NDEBUG and without _DEBUG, so that ASSERT no longer stops the program and ASSERT_ABORT logs and aborts), the library keeps all the other properties for the same inputs, schedules and faults: nothing the program relies on happens only in a debug build, no check that must abort in release mode is lost, and no behaviour depends on what an unoptimised build happens to do.",
 ["schedules", "inputs", "fault_sequences"], "all scenarios of the other properties, against the library built with -O2 -DNDEBUG",
 "The tests are run on debug builds only.",
 ["inc/common_macro.h", "src/log/file_logger.c", "src/file/ini_parser.c", "src/mem/mplite.c", "src/mem/allocation_tracker.c", "tool/CMakeLists.txt"], [("ASSERT and ASSERT_ABORT in release mode", "inc/common_macro.h"), ("code under !NDEBUG || _DEBUG", "src/log/file_logger.c")], observe=["the API of every component"])

prop("G03", "Threads sharing the library's memory never race on it",
 "When threads use the library as its headers allow (one producer and one consumer on a ring or queue; pushers of a message handler serialised; any number of threads on a thread pool, xlog, the tracker or the time texts, and on a file logger, mplite pool, auto-cover buffer or hash map that was given a lock; or each thread its own objects), any two accesses to the same library memory from different threads of which one writes are either ordered by synchronisation (lock, semaphore, condition, atomic release and acquire, thread start and join) or both made on atomic or volatile words. What one thread published is therefore complete when another sees it, on every processor and at every optimisation level, not only in the interleavings of a strongly ordered machine; and library functions use no hidden static result shared between threads.",
 ["schedules", "histories", "fault_sequences"], "all scenarios of the concurrent components, judged by happens-before instead of by the values read",
 "Tests on x86 see neither reordering nor the rare interleavings; a race passes them.",
 ["src/thread/thpool.c", "src/ring/ringbuffer.c", "src/ring/ring_buf.c", "src/ring/fixed_msg_queue.c", "src/ring/fixed_msg_queue_handler.c", "src/ring/autocover_buffer.c", "src/log/xlog.c", "src/log/file_logger.c", "src/mem/mplite.c", "src/mem/allocation_tracker.c", "src/time/time_util.c", "src/thread/portable_thread_posix.c"], [("positions published with release, read with acquire", "src/ring/ringbuffer.c"), ("settings and output state under the log lock", "src/log/xlog.c"), ("counters and lists under the pool locks", "src/thread/thpool.c")], observe=["API calls of the components from several threads"])

prop("G04", "Separate objects are independent, whichever threads use them",
 "What happens to one ring, queue, message handler, thread pool (its pause and resume excepted, which are one switch for all pools), thread, lock, semaphore, file logger, ini parser, parameter set, hash map, list, array, string builder, memory pool or iterated directory depends only on the calls made on it: creating, using and destroying other objects, of the same kind or another one, by other threads at any interleaving or by the same thread in between its calls, never changes its contents, its results, its callbacks' data, its order or its life. This also holds for the text, date and string helpers, each call of which works on the caller's data alone, and for an object created at the address of one that is gone.",
 ["schedules", "histories"], "all interleavings of several threads that each use several objects of their own, created and destroyed in between",
 "Tests use one object of a kind at a time, from one thread.",
 ["src/ring", "src/thread", "src/data", "src/mem", "src/file", "src/log/file_logger.c", "src/time/time_util.c"], [("all state in the object behind the handle, no static buffers or caches", "src/file/ini_parser.c"), ("keep-alive flag per pool", "src/thread/thpool.c"), ("worker buffers per handler", "src/ring/msg_queue_handler.c")], observe=["return values", "contents", "callbacks"])

prop("D04", "Stateless helpers give every concurrent caller its own right answer",
 "However many threads call them at once, and also on shared constant inputs, the string, coding, number and time-text helpers return the documented result to each caller: Base64 and URL coding give the standard text and decode back to the original bytes (URL text also piece by piece), strlcpy, strlcat, strreplace, strsplit, strtrim, UTF-8 counting and hex text, the RFC 1123 and 2822 time texts, the formatted length, power-of-two rounding, whether a text is an ini path, and the general macros of common_macro.h and strings.h (minimum, maximum, pointer and integer conversion, freeing, random range, enum names, case change); hashes of equal keys are equal. They keep no state between calls, change no constant input, never touch memory outside the given buffer and length, answer a buffer that is too small as documented, and strreplace without memory returns NULL. (Scope: non-empty pattern and hex capacity, rounding up to at most 2^31, years 1900 to 9999.)",
 ["schedules", "inputs", "fault_sequences"], "all interleavings of concurrent calls, all inputs and buffer sizes, and failing allocations",
 "Tests call each helper once from one thread on a fixed input.",
 ["src/mem/strings.c", "src/data/base64.c", "src/net/url_encoder_decoder.c", "src/data/integer.c", "src/data/hash_functions.c", "src/time/time_rfc1123.c", "src/time/time_rfc2822.c", "src/mem/asprintf.c", "inc/common_macro.h", "inc/mem/strings.h"], [("re-entrant helper functions", "src/mem/strings.c"), ("gmtime_r based text", "src/time/time_rfc2822.c")], observe=["return values", "output buffers"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
