#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text can be edited comfortably)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})

SRB = "include/xtr/detail/synchronized_ring_buffer.hpp"
p("C01", "Blocking log statements are delivered exactly once, in order, intact",
  "Every log statement made through a blocking macro on an open sink whose level admits it appears in the log output exactly once, as one complete line with the right level prefix, sink name, source location and formatted, sanitised arguments as they were at the time of the call, and the lines of one sink appear in the order they were logged. Lines of different sinks and threads never interleave within a line, and nothing that was not logged appears. A string argument is replaced by '<truncated>' only when it could not fit in the sink even if the sink were empty.",
  ["schedules", "inputs", "programs", "configurations"],
  "All interleavings (including weak-memory ones permitted by C++20) of any number of producer threads, sinks and loggers with the consumer thread, all statement shapes, all string lengths and ring wrap positions, including a permanently full sink.",
  "The tests log a handful of statements from one or a few real threads and cannot choose the interleaving, the fill level of the ring, or the wrap position at which a record or string is written.",
  ["include/xtr/sink.hpp", SRB, "include/xtr/detail/string_table.hpp", "include/xtr/detail/trampolines.hpp", "include/xtr/detail/print.hpp", "src/consumer.cpp", "src/buffer.cpp"],
  [("producer writes the whole record then publishes it", "include/xtr/sink.hpp post/post_with_str_table"), ("consumer run loop pops whole records", "src/consumer.cpp run"), ("string table copy with truncation rule", "include/xtr/detail/string_table.hpp"), ("line assembled then appended to the output buffer", "src/buffer.cpp append_line")],
  [("nwritten_/nread_plus_capacity_", "published and consumed byte counts", SRB)], ["bytes reaching the storage back-end"])
p("C02", "Non-blocking statements appear or are counted as dropped, never block",
  "A non-blocking (TRY) log statement never waits for the consumer. Each one either appears in the output exactly once, in order (possibly with string arguments replaced by '<truncated>'), or is dropped because the sink was full; by the time the sink has been closed every dropped statement has been counted exactly once in that sink's '<n> messages dropped' warnings, and no warning counts a statement that was delivered. A statement that fits in the free space known to be available is not dropped.",
  ["schedules", "programs"],
  "All interleavings of a producer filling its sink with the consumer draining it, all fill levels, any mix of blocking and non-blocking statements, and close at any moment.",
  "The unit tests fill one sink with the consumer parked; they do not race drops against draining, the drop counter exchange or close.",
  [SRB, "include/xtr/sink.hpp", "src/consumer.cpp", "src/sink.cpp"],
  [("drop counter incremented by the producer and exchanged by the consumer", SRB + " dropped_count"), ("warning printed when a drained sink has drops", "src/consumer.cpp run")],
  [("dropped_count_", "statements dropped since last report", SRB)], ["'messages dropped' lines", "status command dropped count"])
p("C03", "sync() and fatal statements make prior statements durable before continuing",
  "When sync() on a sink returns, every statement previously made on that sink has been written to the log file and made durable, so it survives a crash of the process or machine at any later moment and is still there, intact and in order, after a restart that appends to the same file. A fatal statement does the same for itself and everything before it on that sink, and only then terminates the process.",
  ["crash_points", "schedules", "programs", "fault_sequences"],
  "A crash at every point of every interleaving, for the posix and io_uring back-ends, with arbitrary un-synced data lost or torn, short writes and delayed or reordered completions, followed by restart.",
  "The tests call sync() and read the file back through the page cache of a live process; they never lose un-synced data and never race sync() with other sinks.",
  ["src/sink.cpp", "src/io_uring_fd_storage.cpp", "src/posix_fd_storage.cpp", "src/fd_storage_base.cpp", "include/xtr/log_macros.hpp"],
  [("sync posts a flush + storage sync to the consumer and waits", "src/sink.cpp sync"), ("io_uring back-end waits for all completions and fsyncs", "src/io_uring_fd_storage.cpp sync"), ("fatal macro syncs and aborts", "include/xtr/log_macros.hpp")],
  [], ["durable file contents at the instant sync() returns"])
p("C04", "Sinks can be closed, copied, assigned and reused without loss or late access",
  "Closing or destroying a sink returns only after everything logged on it has been delivered and the logger no longer touches it; a closed sink can be registered again, with the same or another logger, and works as new. A copy of an open sink, or an assignment from one, is connected to the same logger with the same name and level and delivers independently, whatever the original does afterwards, and assigning over an open sink first delivers what it held. Destroying a logger waits for its connected sinks to disconnect and then delivers everything.",
  ["schedules", "programs", "histories"],
  "Any history of get_sink, register, copy, assign, close, destroy on several threads and loggers, interleaved arbitrarily with logging and the consumer.",
  "Tests exercise single lifetimes with the default schedule; a late consumer access to a closed or destroyed sink is invisible to them.",
  ["src/sink.cpp", "src/consumer.cpp", "src/logger.cpp", "include/xtr/logger.hpp"],
  [("close posts a destroy record and waits for the acknowledgement", "src/sink.cpp close/sync_post"), ("consumer erases the sink and never touches it again", "src/consumer.cpp run"), ("copy posts add_sink through the original's queue", "src/sink.cpp operator=")],
  [("open_", "sink is connected", "include/xtr/sink.hpp"), ("sinks_", "connected sinks", "include/xtr/detail/consumer.hpp")], ["delivered lines", "consumer memory accesses after close"])
p("C05", "Logger functions may be called from any threads concurrently",
  "All logger functions (creating and registering sinks, setting the command path, level style and default level) may be called concurrently from any number of threads, while other threads log: each call takes effect exactly once, is visible to the caller when it returns where the function waits for the consumer, and there is no data race, corruption, lost call or deadlock.",
  ["schedules", "programs"],
  "All interleavings of any mix of logger member functions on several threads with each other and with logging.",
  "Tests call these functions from one thread at a time.",
  ["src/logger.cpp", "include/xtr/logger.hpp", "src/sink.cpp"],
  [("control queue guarded by a mutex", "include/xtr/logger.hpp post")],
  [("control_", "queue of requests to the consumer", "include/xtr/logger.hpp"), ("default_log_level_", "level given to new sinks", "include/xtr/logger.hpp")], ["results of calls", "race detector"])
p("C06", "The producer/consumer queue hands bytes over safely under weak memory",
  "For any interleaving allowed by the C++ memory model, bytes published by the producer are seen by the consumer exactly once, in order and complete, space is handed back to the producer only after the consumer has released it, and producer and consumer never access the same byte without synchronisation. A blocked producer resumes once space is released; free space plus used space always equals the capacity, and every span offered is contiguous and usable across the wrap-around point.",
  ["schedules", "inputs", "configurations"],
  "All interleavings and stale reads permitted by the C++20 memory model, all chunk sizes and wrap positions, fixed and dynamic capacities.",
  "On x86 and with real threads a missing acquire or release is practically unobservable; tests check single-threaded span arithmetic.",
  [SRB, "src/mirrored_memory_mapping.cpp"],
  [("release store of nwritten_ / acquire load in read_span", SRB), ("release add of nread_plus_capacity_ / acquire load in write_span", SRB), ("mirrored mapping makes every span contiguous", "src/mirrored_memory_mapping.cpp")],
  [("nwritten_", "bytes published", SRB), ("nread_plus_capacity_", "bytes released + capacity", SRB)], ["spans and bytes seen by each side"])
p("C07", "Log rotation loses, duplicates or tears no line",
  "When the log is reopened (rotated) while threads are logging, every line is in exactly one of the old and the new file, whole, with the per-sink order preserved across old-then-new; once the reopen command has succeeded, lines logged afterwards are only in the new file. A failed reopen is reported as an error and logging continues to the old file; a log opened without a path reports an error and is unaffected. The old file is closed once its pending writes are done.",
  ["schedules", "histories", "fault_sequences"],
  "Reopen requests at any moment relative to logging, buffered data, in-flight asynchronous writes (short, delayed, re-tried), open failures, repeated rotations.",
  "Tests reopen while nothing is in flight.",
  ["src/consumer.cpp", "src/fd_storage_base.cpp", "src/io_uring_fd_storage.cpp", "src/posix_fd_storage.cpp", "src/fd_storage.cpp"],
  [("flush before reopen", "src/consumer.cpp reopen_handler"), ("drained close of the old descriptor", "src/io_uring_fd_storage.cpp replace_fd"), ("open new then replace", "src/fd_storage_base.cpp reopen")],
  [("offset_", "next file offset", "include/xtr/io/io_uring_fd_storage.hpp"), ("reopen_path_", "path to reopen", "include/xtr/io/detail/fd_storage_base.hpp")], ["old and new file contents", "open descriptors"])
p("C08", "File write errors never tear, duplicate or silently lose lines (posix)",
  "With the posix file back-end, short and interrupted writes are invisible: the file is exactly the lines logged. When writes fail (I/O error, disk full), the failure is reported on stderr, the process keeps running, no line already in the file is repeated or torn, and once writes succeed again logging resumes with whole lines in order; any line that is missing was covered by a reported error.",
  ["fault_sequences", "schedules", "configurations"],
  "Any sequence of short writes, EINTR, EIO and ENOSPC at any write call, any buffer size, any flush timing, stderr itself unwritable.",
  "Tests write to a healthy disk.",
  ["src/posix_fd_storage.cpp", "src/buffer.cpp", "include/xtr/detail/print.hpp"],
  [("write loop with retry", "src/posix_fd_storage.cpp submit_buffer"), ("catch and report", "src/buffer.cpp flush, include/xtr/detail/print.hpp print")],
  [("pos_/begin_", "unsubmitted output", "include/xtr/detail/buffer.hpp")], ["file contents", "stderr"])
p("C09", "io_uring back-end writes every byte once at the right place despite faults",
  "With the io_uring back-end the file ends up exactly as if the submitted buffers had been written one after another from the file position at which logging began, whatever the completion order, short writes, retryable errors, full submission or completion queues and interrupted waits, and for any buffer, queue and batch size. A write that fails for good is reported on stderr and costs only its own bytes. Buffers are not reused before their write has completed, and flush, sync, reopen and destruction always terminate.",
  ["fault_sequences", "schedules", "configurations"],
  "Any completion order and timing, short and EAGAIN completions, submit failures, EINTR, EIO, all (buffer, queue, batch) sizes, polled and non-polled builds.",
  "Tests inject single scripted completions; they cannot explore orders, combinations or buffer reuse races with the kernel.",
  ["src/io_uring_fd_storage.cpp", "include/xtr/io/io_uring_fd_storage.hpp"],
  [("per-buffer file offsets and resubmission", "src/io_uring_fd_storage.cpp submit_buffer/resubmit_buffer"), ("free list refilled only by completions", "src/io_uring_fd_storage.cpp wait_for_one_cqe")],
  [("pending_cqe_count_", "writes in flight", "include/xtr/io/io_uring_fd_storage.hpp"), ("free_list_", "buffers owned by nobody", "include/xtr/io/io_uring_fd_storage.hpp")], ["file contents", "kernel view of registered buffers"])
p("C10", "Custom back-ends see a correct call protocol and correct bytes",
  "A custom storage back-end is only ever called from the logger's background thread (destruction included only after it has stopped using it), never concurrently; buffers are allocated one at a time, submitted from their start with a size between one and their capacity before the next is allocated, never written after submission, and the concatenation of submitted buffers is exactly the logged lines. sync and reopen happen only after everything logged before the request has been submitted and flushed. A back-end that throws from allocating, submitting or flushing gets the error reported on stderr and does not bring down the process or corrupt later lines.",
  ["schedules", "programs", "configurations", "fault_sequences"],
  "Any buffer capacity from one byte up, varying between allocations, any interleaving of logging, sync, reopen and destruction, and exceptions thrown at any call.",
  "Tests use one or two friendly back-ends with fixed large buffers.",
  ["src/buffer.cpp", "include/xtr/detail/buffer.hpp", "include/xtr/io/storage_interface.hpp", "src/consumer.cpp", "src/sink.cpp"],
  [("next_buffer/flush", "src/buffer.cpp"), ("sync lambda flushes before syncing", "src/sink.cpp sync")],
  [("begin_/pos_/end_", "buffer currently owned", "include/xtr/detail/buffer.hpp")], ["calls on the storage interface"])
p("C11", "The command channel answers every request correctly, whatever clients do",
  "Every well-formed request sent to the command socket is executed exactly once and answered with exactly the right reply (one entry per matching connected sink for status with its true name, level and capacity; success for level changes applied to every matching sink and no other; success or an error for reopen), after which the connection is closed. Malformed, truncated, oversized or unknown requests and invalid patterns get an error reply and change nothing. Clients that are slow, disconnect at any moment, send nothing, or flood the socket never crash, block or starve logging or other clients.",
  ["schedules", "inputs", "fault_sequences", "histories"],
  "Any number of clients connecting, sending, reading and vanishing at any moment, any frame contents, small socket buffers, failing socket calls, sinks appearing and disappearing.",
  "Tests issue one request at a time from well-behaved clients.",
  ["src/command_dispatcher.cpp", "src/consumer.cpp", "src/matcher.cpp", "src/regex_matcher.cpp", "src/wildcard_matcher.cpp", "include/xtr/detail/commands/command_dispatcher.hpp"],
  [("poll loop with per-connection reply queues", "src/command_dispatcher.cpp"), ("request handlers", "src/consumer.cpp status_handler/set_level_handler/reopen_handler")],
  [("pollfds_/results_", "connections and unsent replies", "include/xtr/detail/commands/command_dispatcher.hpp")], ["frames received by clients", "sink levels"])
p("C12", "Log levels filter exactly, including concurrent changes",
  "A levelled statement is logged if and only if its level is admitted by the sink's level at the time of the call; a filtered statement evaluates none of its arguments and has no effect. Level changes made by the sink's owner apply to its next statement, and changes from other threads or from the command channel apply within bounded time, after which they stay; new sinks start at the logger's default level and copies at the level of the original. Unlevelled statements are always logged.",
  ["schedules", "programs", "histories"],
  "Any interleaving of level reads, set_level from other threads, command-channel level changes, default-level changes, copies and logging.",
  "Tests set and read levels from one thread.",
  ["include/xtr/sink.hpp", "include/xtr/log_macros.hpp", "src/sink.cpp", "src/logger.cpp", "src/consumer.cpp"],
  [("atomic level checked in the macro", "include/xtr/log_macros.hpp XTR_LOGL_TAGS"), ("default level at creation", "src/logger.cpp get_sink")],
  [("level_", "sink level", "include/xtr/sink.hpp")], ["lines logged", "argument evaluation"])
p("C13", "Timestamps are those of the statement's clock, despite clock misbehaviour",
  "Every line carries a well-formed timestamp. For plain statements it is a value the logger's clock returned to the background thread no later than the line was written and no earlier than its last complete visit of all sinks before the call; for real-time-clock and user-supplied timestamps it is exactly the value read or passed at the call; for TSC statements it is the wall-clock time of the call to within the drift of one resynchronisation period. Clock jumps, slow consumers, low TSC values and estimated TSC frequencies do not break this.",
  ["schedules", "fault_sequences", "inputs", "configurations"],
  "Any consumer delay, any clock values (including before 1970 and far future), steps of the wall clock, any TSC frequency source and starting value.",
  "Tests use a fixed fake clock and the machine's own TSC.",
  ["src/consumer.cpp", "src/tsc.cpp", "include/xtr/detail/tsc.hpp", "include/xtr/detail/get_time.hpp", "include/xtr/logger.hpp", "include/xtr/timespec.hpp"],
  [("clock read at most once per round, lazily", "src/consumer.cpp run"), ("TSC to wall conversion with periodic resync", "src/tsc.cpp to_timespec"), ("clock adapter", "include/xtr/logger.hpp make_clock")],
  [("ts/ts_stale", "cached formatted timestamp", "src/consumer.cpp")], ["timestamp field of each line"])
p("C14", "Everything logged is flushed soon after the logger goes idle",
  "When producers stop, everything they logged reaches the storage back-end and is flushed within a bounded number of consumer rounds, without any further logging, sync or close being needed, even if the last thing that happened was a sink closing or a command. The logger does not flush endlessly while idle.",
  ["schedules", "programs"],
  "Any last action, any number of idle sinks, any buffer size, any schedule.",
  "Tests always sync or close before looking.",
  ["src/consumer.cpp", "src/buffer.cpp"],
  [("flush countdown over idle rounds", "src/consumer.cpp run flush_count")],
  [("flush_count", "idle polls left until flush", "src/consumer.cpp")], ["storage submit/flush calls while idle"])
p("C15", "Logging performs no allocation and no system call on the caller's thread",
  "A log statement, blocking or not, with arguments that do not themselves allocate (numbers, C strings, string views, strings by reference), performs no memory allocation, takes no lock and makes no system call on the calling thread, whether or not the sink is full.",
  ["schedules", "inputs", "programs"],
  "All statement shapes and lengths, all fill levels, the first and every later statement, every schedule.",
  "Tests count allocations on the uncontended path of a few statements only.",
  ["include/xtr/sink.hpp", "include/xtr/detail/string_table.hpp", SRB],
  [("records built in place in the ring", "include/xtr/sink.hpp"), ("spin with pause when full", SRB)],
  [], ["allocator, lock and system-call seams while a statement runs"])
p("C16", "A failing statement affects nothing but itself, and arguments are released once",
  "If copying an argument throws, the exception reaches the caller, nothing of that statement is logged and the sink keeps working. If formatting throws in the background, the error is reported on stderr and only that line is lost, whole. Every argument object stored for a statement is destroyed exactly once, after its line was formatted and before the sink's close returns; passed-by-reference strings are not read after the statement returns unless marked nocopy.",
  ["schedules", "programs", "inputs", "fault_sequences"],
  "Throwing at any copy or format call, any argument mix, any schedule, any position in the ring.",
  "Tests check one throwing formatter on a quiet logger.",
  ["include/xtr/sink.hpp", "include/xtr/detail/print.hpp", "include/xtr/detail/trampolines.hpp"],
  [("publish after construction", "include/xtr/sink.hpp post"), ("catch in print", "include/xtr/detail/print.hpp"), ("destroy after invoke", "include/xtr/detail/trampolines.hpp")],
  [], ["live-object count of arguments", "lines", "stderr"])
p("C17", "Resources are released on every path, including failed construction",
  "After all sinks and loggers are gone, every file descriptor, mapping, thread, ring and socket path the library created has been released, exactly once, and none it did not create has been touched; this also holds when construction of a logger, sink or storage fails part-way (failing open, dup, mmap, thread creation, io_uring set-up, socket calls), in which case the failure is reported as documented (exception, error message or fallback to the posix back-end) and the rest of the process keeps working. The caller's own descriptor or stream stays open and usable.",
  ["fault_sequences", "programs", "configurations"],
  "A failure of each system call at each call position during construction, use, rotation and destruction.",
  "Tests inject a few single failures and do not account for leaks.",
  ["src/fd_storage.cpp", "src/fd_storage_base.cpp", "src/io_uring_fd_storage.cpp", "src/mirrored_memory_mapping.cpp", "src/memory_mapping.cpp", "src/file_descriptor.cpp", "src/command_dispatcher.cpp"],
  [("RAII wrappers", "src/file_descriptor.cpp, src/memory_mapping.cpp"), ("fallback", "src/fd_storage.cpp make_fd_storage")],
  [], ["virtual kernel's descriptor, mapping and path tables"])
p("C18", "A full or slow sink delays only its own users; everything eventually progresses",
  "A producer blocked on a full sink resumes and completes once the consumer runs, every sink with pending data is served within a bounded number of consumer rounds however busy other sinks, commands or producers are, and sync, close and logger destruction terminate. No schedule leads to deadlock.",
  ["schedules", "programs", "configurations"],
  "Any number of sinks and producers, floods on some sinks, statements as large as the sink, stalled threads, any schedule that eventually lets each thread run.",
  "Tests cannot starve or stall chosen threads.",
  ["src/consumer.cpp", SRB, "src/sink.cpp", "include/xtr/detail/string_table.hpp"],
  [("round robin over sinks", "src/consumer.cpp run"), ("space released after each batch", SRB)],
  [], ["steps to completion under a fair schedule"])
p("C19", "The command socket path is owned exactly while the channel is open",
  "While a logger with a command path is alive a client can connect at that path and only there; two loggers with default paths never collide; changing the path moves the channel; and when the channel or logger goes away its path is gone. A path that cannot be used (already in use, too long, unwritable, failing socket calls) is reported on stderr, disables only the command channel, and never removes or disturbs a path owned by another logger or file.",
  ["histories", "schedules", "fault_sequences"],
  "Any history of creating, re-pathing and destroying loggers on several threads, with failing socket, bind and listen calls and pre-existing files.",
  "Tests use fresh unique paths and healthy system calls.",
  ["src/command_dispatcher.cpp", "src/command_path.cpp", "src/consumer.cpp", "src/logger.cpp"],
  [("bind/unlink", "src/command_dispatcher.cpp"), ("unique default path", "src/command_path.cpp")],
  [("path_", "path to unlink", "include/xtr/detail/commands/command_dispatcher.hpp")], ["virtual file system namespace", "connect results"])
p("C20", "xtrctl reports and changes exactly what the target process has",
  "Running xtrctl against a live logger prints the true status of exactly the matching sinks sorted by name, applies level changes to exactly the matching sinks and prints Success, reopens the log and prints Success, and exits with status zero; on any error (bad arguments, no such socket, invalid pattern, failed reopen, connection lost) it prints a reason and exits non-zero. It terminates whatever the target is doing.",
  ["schedules", "inputs", "fault_sequences", "histories"],
  "Any command line, any interleaving with logging and other clients, interrupted and failing socket calls, target dying at any moment.",
  "There are no tests of xtrctl itself.",
  ["src/xtrctl.cpp", "include/xtr/detail/commands/connect.hpp", "include/xtr/detail/commands/recv.hpp", "include/xtr/detail/commands/send.hpp", "include/xtr/detail/commands/ios.hpp"],
  [("request/reply loop until EOF", "src/xtrctl.cpp main")],
  [], ["stdout, stderr and exit status of the tool"])
p("C21", "Compile-time formatting helpers compute the documented text",
  "The compile-time string helpers, alignment helpers and the formatters for tuples and containers produce the documented text for every value.",
  ["inputs"], "All values.",
  "Static assertions and tests cover examples only.",
  ["include/xtr/formatters.hpp", "include/xtr/detail/string.hpp", "include/xtr/detail/align.hpp"],
  [("formatters", "include/xtr/formatters.hpp")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
