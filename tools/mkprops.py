#!/usr/bin/env python3
"""Source of properties.jsonl: run to regenerate it."""
import json,sys
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d['anchors']['hook_needed']=None
    assert len(title)<=80,title
    P.append(d)

p("C01","A sink receives a message exactly when both level gates admit it",
 "For every logger level, sink level and message level, a message logged through any logging entry point of a synchronous or asynchronous logger is delivered to each attached sink exactly once if its level is at least the logger's level and at least that sink's level, and is not delivered to that sink otherwise. Sinks are served in the order they were attached and a sink that rejects the message does not affect the others.",
 ["inputs","configurations"],"all 7x7x7 combinations of logger, sink and message level, sets of up to 3 sinks with independent levels, every logging entry point, sync loggers and the worker side of async loggers",
 "Tests log a handful of fixed levels through one or two sinks; the property quantifies over the full cross product of levels, sinks and entry points.",
 ["include/logger.h","src/logger.cpp","include/async_logger.h","sinks/sink.h"],
 [("logger::should_log_ / sink::should_log gates","include/logger.h, sinks/sink.h"),("logger::sink_log_ loop","src/logger.cpp"),("async_logger::do_sink_log_ loop","include/async_logger.h")],
 ["sink::log calls"])
p("C02","A message at or above the flush level flushes every sink, and only then",
 "After a message whose level is at least the logger's flush level (and not 'off') has been delivered, every attached sink is flushed after receiving it; a message below the flush level, or one rejected by the logger's level, triggers no flush. This holds for synchronous loggers and for asynchronous loggers on any thread pool and worker count, where it must not block the worker.",
 ["inputs","configurations"],"all logger/flush/message level combinations, 1-3 sinks with independent levels; async loggers on the lock pool with 1 worker, all schedules within the preemption bound",
 "Tests set one flush level and look at a file; no test flushes by level through an async logger.",
 ["include/logger.h","src/logger.cpp","include/async_logger.h","base/thread_pool.cpp"],
 [("should_flush_","include/logger.h"),("sink_log_ / do_sink_log_ flush step","src/logger.cpp, include/async_logger.h")],
 ["sink::flush calls"])
p("C03","Message content reaches the sink byte for byte, sync or queued",
 "The text, level, logger name, source location, time and thread id that a sink sees are exactly those of the logging call, for every byte content (including NUL, braces and '%') and every length; a message that is queued, copied or moved keeps its own copy, unaffected by the caller reusing its buffers or by later changes to, or destruction of, the original.",
 ["inputs"],"arbitrary bytes, message lengths 0..6 and lengths around the 250-byte inline buffer (e.g. 249..252, 300), names 0..4 bytes, copy/move/assign chains of the owning message type",
 "Tests log short ASCII literals; the inline-to-heap switch and view re-targeting in copies and moves depend on length and history.",
 ["include/logger.h","base/log_msg.h","base/log_msg_buf.h","base/async_msg.h"],
 [("log_msg_buf::update_string_view","base/log_msg_buf.h"),("logger::log overloads","include/logger.h"),("async_msg","base/async_msg.h")],
 ["log_msg fields seen by sink::log"])
p("C04","Formatted arguments appear as their exact decimal or text value",
 "For every integer of every width and signedness, every boolean, character and string argument, a logging call with '{}' placeholders (including width, fill, alignment, zero-padding and hexadecimal specs) delivers exactly the text the format specification defines, with literal text and '{{' '}}' escapes preserved. The library's own integer appenders (append_int, fill_uint with any fill length, digit counting) likewise produce the exact decimal text left-padded with zeros to the requested length and never truncated.",
 ["inputs"],"all 64-bit values split into digit-count cases for append_int/fill_uint/count_unsigned_digits; all 8/16-bit and digit-sliced 32/64-bit arguments through the public log call; strings of 0..4 arbitrary bytes",
 "Tests format a few constants; the property ranges over all integer values and pad widths.",
 ["include/logger.h","base/fmt_base.h","base/fmt/format.h","base/fmt/base.h","sinks/formatters/filler.h"],
 [("logger::log_ vformat","include/logger.h"),("fmt_base::append_int/fill_uint/count_unsigned_digits","base/fmt_base.h"),("fmt::format_int","base/fmt/format.h")],
 ["message text seen by sink::log","buffer contents"])
p("C05","Every pattern string is parsed safely and rendered by its documented meaning",
 "For every pattern string, building a formatter and formatting a message is memory safe, never throws, and outputs the concatenation of: literal characters as they are, each documented flag's field, '%%' as '%', an unknown flag as '%' followed by that character, nothing for an incomplete '%' specification at the very end, and finally the end-of-line string exactly once.",
 ["inputs"],"all pattern strings of up to 4 arbitrary bytes (quick) / 5 (thorough) over a fixed message; all two-flag combinations with literals; custom end-of-line strings",
 "Tests use about ten well-formed patterns; malformed, truncated and adversarial patterns are never tried.",
 ["sinks/formatters/pattern_formatter.cpp","sinks/formatters/pattern_formatter.h","sinks/formatters/flag_formatter.h"],
 [("pattern_formatter::analyse_pattern_","sinks/formatters/pattern_formatter.cpp"),("append_flag_formatter_","sinks/formatters/pattern_formatter.cpp")],
 ["formatted buffer"])
p("C06","Width, alignment and truncation specs pad or cut each field exactly",
 "For every field flag (all but '%+', '%^', '%$' and '%%') with a width specification ('%<w>', '%-<w>', '%=<w>', optional '!'), the field is padded with spaces to exactly min(w,64) characters - on the left by default, on the right for '-', split with the larger half on the right for '=' - is left unchanged when already that long without '!', and is cut to its first min(w,64) characters with '!'. The text before and after the field is not affected, and no width, however large, corrupts the output.",
 ["inputs"],"all widths 0..10^30 as digit strings, all three alignments, truncation on/off, field lengths 0..70, and every field flag",
 "Tests cover a few widths on a few flags; clamping, exact-equality and overflow widths are untested.",
 ["sinks/formatters/filler.h","sinks/formatters/pattern_formatter.cpp","sinks/formatters/flag_formatter.h"],
 [("filler","sinks/formatters/filler.h"),("analyse_spaces_info_","sinks/formatters/pattern_formatter.cpp")],
 ["formatted buffer"])
p("C07","Time fields show the message's own timestamp exactly",
 "For every timestamp from 1970 to 9999 (up to the clock's range), each date and time flag prints the zero-padded fixed-width component of the message's local time (%y 4, %m %d %H %M %S 2, %E 3, %F 6, %G 9 digits, %a and %b three-letter names, %T and %c their composites), and sub-second fields are the exact truncated milliseconds, microseconds and nanoseconds. The elapsed-time flags print the non-negative difference to the previously formatted message in their unit.",
 ["inputs","histories"],"arbitrary 64-bit nanosecond timestamps >= epoch with the broken-down local time an arbitrary valid calendar value; sequences of 2-3 messages with arbitrary (also decreasing) times",
 "Tests compare against the current time only; no test covers all months, digit carries or decreasing clocks.",
 ["sinks/formatters/flag_formatter.h","base/fmt_base.h","base/os.h"],
 [("time flag formatters","sinks/formatters/flag_formatter.h"),("precise_time","base/fmt_base.h"),("duration_formatter","sinks/formatters/flag_formatter.h")],
 ["formatted buffer"])
p("C08","The default layout is right for every message and its cache is never stale",
 "For every message, the default pattern '%+' prints '[YYYY-MM-DD HH:MM:SS.mmm] [name] [level] [file:line] text', the line zero-padded to 5 digits, with the name bracket omitted when the name is empty and the location bracket omitted when there is no location, and marks exactly the level text for colouring. The result never depends on messages formatted earlier by the same formatter, whatever their timestamps.",
 ["inputs","histories"],"sequences of up to 3 messages with arbitrary timestamps (same second, next second, going backwards), names, levels, locations and texts",
 "Tests format single messages at the current time; the cached date prefix is only exercised by specific time sequences.",
 ["sinks/formatters/flag_formatter.h"],
 [("full_formatter date cache","sinks/formatters/flag_formatter.h")],["formatted buffer","color range"])
p("C09","Source location fields are printed exactly and missing parts are harmless",
 "With a location present, '%@' prints 'file:line', '%A' the file, '%B' the line and '%C' the function; with no location (line <= 0) they print nothing; and a location lacking a file or function name prints an empty field instead of crashing. Padding applies to these fields as to any other.",
 ["inputs"],"every int line number, file/function names null or up to 4 arbitrary non-NUL bytes, each location flag and the default layout",
 "Tests use full __FILE__/__LINE__/__func__ triples; the two-argument location constructor leaves the function name null.",
 ["sinks/formatters/flag_formatter.h","include/definitions.h"],
 [("source_*_formatter","sinks/formatters/flag_formatter.h")],["formatted buffer"])
p("C10","Rolling files never exceed the size limit and are numbered in order",
 "Whatever sequence of message sizes is logged, each rolling file holds at most max_file_size bytes unless it holds a single oversized message, a new file is started exactly when the next message would not fit, a message is never split across files, and no file is left empty when messages were written. Files are used in increasing number order starting at the lowest free number, never beyond max_file_num; once the last number is reached only that file is restarted, and every other file, pre-existing or rolled earlier, keeps its content, so the concatenation in number order is the log in order minus only what restarting the last file dropped.",
 ["inputs","histories","configurations"],"every 64-bit max_file_size, max_file_num 1..3 and 10, sequences of up to 5 messages of 0, 1, 3 or 300 bytes, any subset of the files 1..3 pre-existing, one or two runs",
 "The test writes one fixed message repeatedly; boundary-exact sizes, oversized messages and pre-existing files are not explored.",
 ["sinks/rolling_file_sink.h","base/file_base.h"],
 [("rolling_file_sink::output_ / roll_file_","sinks/rolling_file_sink.h")],["modelled file system contents"])
p("C11","Rolling file names insert the zero-padded number before the suffix",
 "For every base file name, the rolling name is the base name with '_' and the index, zero-padded to the number of digits of max_file_num, inserted before the extension of the last path component; a dot in a directory name or a leading dot of a hidden file is not an extension. Distinct indices in range give distinct names.",
 ["inputs"],"all base names up to 5 arbitrary bytes including '/' and '.', all max_file_num 0..10000 and indices 1..max_file_num",
 "Tests use a handful of names.",
 ["sinks/rolling_file_sink.h","base/file_base.h"],[("suffix_pos","base/file_base.h"),("get_rolling_filename","sinks/rolling_file_sink.h")],["returned name"])
p("C12","File sinks create their directories and append or truncate as asked",
 "Opening a file sink on any path creates all missing parent directories (relative or absolute path) and the file; existing content is kept and appended to unless truncation was requested, in which case exactly the old content is dropped; everything logged is then in the file in order after flush or destruction.",
 ["inputs","configurations"],"all paths up to 3 components with optional leading '/', any subset of the directories existing, prior content present or absent, truncate on/off, up to 3 messages",
 "Tests use one relative path in the working directory.",
 ["base/file_base.h","base/os.h","sinks/basic_file_sink.h"],[("file_base::open","base/file_base.h"),("os::create_dir","base/os.h")],["modelled file system"])
p("C13","I/O failures are contained: no crash, no misuse of files, others unaffected",
 "If any file operation (directory creation, open, write, flush, size query, close) fails at any point, logging calls on a logger still return normally without terminating the program, other sinks of the logger still get the message, and no closed or null file handle is used or closed twice - also while sinks are destroyed.",
 ["fault_sequences"],"every choice of up to 2 failing operations among all I/O calls of a run with construction, 2-3 messages, a flush and destruction, for basic and rolling file sinks",
 "Tests inject no I/O faults.",
 ["base/file_base.h","sinks/basic_file_sink.h","sinks/rolling_file_sink.h","src/logger.cpp","base/exception.h"],
 [("LEARNLOG_CATCH","base/exception.h"),("file_base::close/open/write/flush","base/file_base.h")],["modelled stdio handles","sink deliveries"])
p("C14","The ring buffer is a bounded FIFO that overwrites its oldest element",
 "From any reachable state, a ring of capacity n behaves as a FIFO list: push appends and, when n elements are held, drops exactly the oldest and counts one override; pop removes the oldest; size, empty, full, at(i) and front agree with the list; copies are equal and independent, a move transfers the contents and leaves the source empty, and clear empties it. A zero-capacity, cleared or moved-from ring is safe to use and holds nothing.",
 ["histories","inputs"],"one arbitrary operation from every representable valid state (all heads, tails, override counts) for capacities 0..6, i.e. histories of any length at those capacities, plus all operation sequences of length 6 from construction",
 "Tests run a few fixed sequences.",
 ["base/circular_queue.h"],[("circular_queue","base/circular_queue.h")],["public queue API"])
p("C15","The blocking queue is linearizable, loses nothing and wakes its waiters",
 "Under every interleaving of producers and consumers, each enqueued item is dequeued at most once, items from one producer come out in order, blocking enqueue never overwrites or drops, the overwriting variant drops only the oldest and counts it, the non-blocking variant drops the new item only when full and counts it, and timed dequeue fails only when the queue was empty. No thread stays blocked while the operation it waits for is possible.",
 ["schedules","inputs"],"2-3 threads (producers/consumers of every kind), capacities 1-2, up to 4 operations, all schedules up to a preemption bound, plus one step of every operation from any valid queue state with arbitrary interference at each wait",
 "Tests run a few threads under the OS scheduler pinned to one CPU and see a handful of interleavings.",
 ["base/block_queue.h","base/circular_queue.h"],[("block_queue mutex/condition variables","base/block_queue.h")],["dequeued items","counters"])
p("C16","The lock-based pool delivers every accepted message once and drains on exit",
 "With the lock-based thread pool, every message accepted from any logger is delivered to its sinks exactly once under every schedule, messages of one thread are delivered in order when there is one worker, and destroying the pool first delivers everything accepted before, then joins all workers without deadlock. The worker start and stop callbacks run exactly once per worker.",
 ["schedules"],"1-2 workers, 1-2 producer threads, queue size 1-2, up to 3 messages, all schedules up to a preemption bound",
 "Tests count lines after running under one OS schedule.",
 ["base/lock_thread_pool.h","base/thread_pool.cpp","base/thread_pool.h","include/async_logger.h","base/block_queue.h"],
 [("worker_loop_/process_async_msg_","base/thread_pool.cpp"),("~lock_thread_pool","base/lock_thread_pool.h")],["sink::log calls"])
p("C17","The lock-free pool delivers every accepted message once and drains on exit",
 "With the lock-free thread pool, every message accepted from a producer thread is delivered to its sinks exactly once under every schedule, in order per producer with one worker, and destroying the pool first delivers everything accepted before, then joins all workers.",
 ["schedules"],"1-2 workers, 1-2 producers, up to 3 messages, queue sizes large enough for one block per producer, all schedules up to a preemption bound under sequentially consistent memory",
 "Tests count lines after running under one OS schedule.",
 ["base/lockfree_thread_pool.h","base/thread_pool.cpp","base/concurrentqueue/concurrentqueue.h","base/concurrentqueue/blockingconcurrentqueue.h","base/concurrentqueue/lightweightsemaphore.h"],
 [("enqueue_async_msg_/dequeue_async_msg_","base/lockfree_thread_pool.h"),("~lockfree_thread_pool","base/lockfree_thread_pool.h")],["sink::log calls"])
p("C18","The concurrent lock-free pool keeps per-thread order with any worker count",
 "With the lock-free concurrent pool, every accepted message is delivered exactly once under every schedule, messages logged by one thread reach the sinks in the order logged whatever the number of workers, and destroying the pool first delivers everything accepted before, then joins all workers. A thread may go on logging through a new pool after the old one was replaced.",
 ["schedules","histories"],"1-2 workers, 1-2 producer threads, up to 3 messages, destroy-and-replace of the pool, all schedules up to a preemption bound under sequentially consistent memory",
 "Tests count lines under one OS schedule and never replace a pool of this kind.",
 ["base/lockfree_concurrent_thread_pool.h","base/lockfree_concurrent_thread_pool.cpp","base/thread_pool.cpp"],
 [("atomic_token binding","base/lockfree_concurrent_thread_pool.h"),("~lockfree_concurrent_thread_pool","base/lockfree_concurrent_thread_pool.h")],["sink::log calls"])
p("C19","Flushing an async logger covers everything logged before it",
 "When flush() on an asynchronous logger returns, every message that thread logged through it before the call has been delivered to the sinks and the sinks have been flushed afterwards, under every schedule with a single worker; the call always returns, also when the sinks throw or the pool is already gone.",
 ["schedules","fault_sequences"],"lock-based and lock-free pools with 1 worker, 1-2 loggers, up to 2 messages before the flush, all schedules up to a preemption bound; sinks that throw; expired pool",
 "Tests call flush once and check a file.",
 ["include/async_logger.h","base/thread_pool.cpp","base/async_msg.h"],
 [("enqueue_flush / promise","base/thread_pool.cpp"),("flush_sink_","include/async_logger.h")],["sink::flush calls","flush() return"])
p("C20","Thread-safe sinks never interleave, lose or race on concurrent messages",
 "When several threads log to, flush, or change the pattern or formatter of one '_mt' sink, every message appears exactly once as one contiguous line formatted by a single pattern, and there is no data race on the sink, its formatter or its file, under every schedule. Colour sinks on the same standard stream exclude each other as well.",
 ["schedules"],"2 threads, up to 2 operations each (log, flush, set_pattern, set_formatter), every '_mt' sink type, all schedules up to a preemption bound with happens-before race detection",
 "Tests run a few OS schedules; a missing lock is rarely visible there.",
 ["sinks/basic_sink.h","sinks/ansicolor_sink.h","sinks/std_sinks.h","base/static_mutex.h"],
 [("lock_guard in each sink operation","sinks/basic_sink.h, sinks/ansicolor_sink.h")],["sink output","race detector"])
p("C21","Backtrace keeps exactly the last n messages and dumps them once in order",
 "With backtrace enabled for n messages, a dump outputs a start line, then the most recent min(n, logged) messages since enabling - whatever their level, also those below the logger level - oldest first with their original content, then an end line, and empties the store; disabling or never enabling makes dumping and disabling harmless no-ops.",
 ["histories","inputs"],"n in 0..3, up to 5 messages of arbitrary level and content, enable/disable/re-enable/dump in any order",
 "Tests use one n and one fixed history.",
 ["base/backtracer.h","include/logger.h","src/logger.cpp","base/circular_queue.h"],
 [("backtracer","base/backtracer.h"),("logger::dump_backtrace","src/logger.cpp")],["sink::log calls"])
p("C22","The registry is a faithful name-to-logger map",
 "After any sequence of register, create, set-default, remove and remove-all calls, looking up a name yields exactly the logger currently registered under it or null; registering an existing name is reported as an error and changes nothing; removing a missing name is a no-op; the default logger is what was last set unless removed since. Iteration visits each registered logger exactly once. Calls made by several threads at once take effect one after another in some order.",
 ["histories","inputs","schedules"],"all sequences of up to 4 operations over 3 names with symbolic operation and name choice; 2 threads with up to 2 calls each, every interleaving up to a preemption bound",
 "Tests exercise fixed scenarios.",
 ["base/registry.cpp","base/registry.h","src/learnlog.cpp"],[("registry map operations","base/registry.cpp")],["public learnlog:: API"])
p("C23","Global settings reach every registered logger and every later one",
 "After any sequence of global and per-logger setting calls (pattern, formatter, log level, flush level), each registered logger, its sinks and the default logger use the value set last for it, and every logger created later through a factory starts with the last global values, including a global formatter. Setting a value on an unknown name is reported and changes nothing. Levels, patterns and formatters may be set through the global functions while other threads log: every message is rendered with one of the values in force, none is lost.",
 ["histories","inputs","schedules"],"all sequences of up to 4 setting/creation operations with symbolic kinds, levels and targets over 2 loggers plus a new one",
 "Tests exercise fixed scenarios.",
 ["base/registry.cpp","include/logger.h","src/logger.cpp","include/sync_factory.h","include/async_factory.h"],
 [("set_global_*","base/registry.cpp"),("initialize_logger","base/registry.cpp")],["logger getters","formatted output"])
p("C24","Replacing the thread pool never leaves a logger on a dead pool silently",
 "After any sequence of pool initialisation, registration and async factory calls, the registered pool is the last one set, asynchronous loggers of a replaced pool are no longer registered while synchronous ones are kept, a factory reuses a pool of its kind and otherwise replaces it, and a retained logger whose pool is gone reports an error and returns. Everything accepted by the old pool is delivered before it disappears.",
 ["histories"],"sequences of up to 3 pool/factory/registry operations with symbolic kinds, pools of each kind",
 "Tests exercise one scenario per pool type.",
 ["base/registry.cpp","include/async_factory.h","include/async_logger.h"],[("register_thread_pool","base/registry.cpp"),("async_factory_template","include/async_factory.h")],["registry API","sink deliveries"])
p("C25","Errors inside logging calls never escape, and only that message is lost",
 "A malformed format string, an argument formatter or a sink that throws a standard exception never propagates out of a logging or flush call of a synchronous logger or out of a pool worker: the error is reported, every other sink still receives the message, and later messages are handled normally.",
 ["fault_sequences","inputs"],"2-3 sinks each throwing or not on each of 2-3 messages or flushes (all combinations), runtime format strings of up to 4 arbitrary bytes with one argument, sync and async",
 "One test throws from one formatter once.",
 ["base/exception.h","include/logger.h","src/logger.cpp","include/async_logger.h","base/thread_pool.cpp"],
 [("LEARNLOG_CATCH","base/exception.h")],["escaping exceptions","sink deliveries"])
p("C26","Periodic flushing runs, and stops promptly, under every schedule",
 "A periodic task runs only after each full interval, never concurrently with itself, never after its owner's destruction returns, and not at all for a zero or negative interval; destroying it never waits for a further interval and never deadlocks, under every schedule. Periodic flushing flushes every registered logger.",
 ["schedules"],"one periodic object, destruction at any point, all schedules up to a preemption bound with timeouts modelled as optional events",
 "Tests sleep for a few intervals under one OS schedule.",
 ["base/periodic_function.h","base/registry.h"],[("condition wait and active flag","base/periodic_function.h")],["callback calls","destructor return"])
p("C27","Cloned loggers and formatters behave as their originals, independently",
 "A cloned logger has the new name and the same sinks, levels and kind as its original, and later level or name changes on either do not affect the other; a cloned pattern formatter, including custom flags, produces the same output as the original for every message (the elapsed-time flags restart in the clone). Swapping two loggers exchanges all of their settings.",
 ["inputs","histories"],"arbitrary levels and patterns up to 3 bytes, messages with arbitrary text, custom flag characters over all bytes, sync and async loggers",
 "Tests clone once with defaults.",
 ["src/logger.cpp","include/async_logger.h","sinks/formatters/pattern_formatter.cpp"],[("logger::clone/swap","src/logger.cpp"),("pattern_formatter::clone","sinks/formatters/pattern_formatter.cpp")],["public API"])
p("C28","Colour sinks wrap exactly the marked range and otherwise add nothing",
 "On a colour-capable terminal the colour sink outputs the formatted message with the level's colour code inserted at the start and the reset code at the end of the marked range, whatever the range, and on any other output, or with an empty or reversed range, exactly the formatted message. Ranges marked by an earlier sink or message never leak into the next.",
 ["inputs","configurations"],"every level, patterns with marks in any position and order, texts of up to 4 arbitrary bytes, terminal and TERM/COLORTERM states",
 "Tests check one pattern visually; no test observes the escape codes.",
 ["sinks/ansicolor_sink.h","base/os.h","sinks/formatters/flag_formatter.h"],[("ansicolor_sink::log","sinks/ansicolor_sink.h"),("os::is_color_terminal","base/os.h")],["bytes written"])
p("C29","The lock-free queue is a FIFO per producer and loses or invents nothing",
 "For every sequence of single and bulk enqueue and dequeue operations and every interleaving, each item enqueued successfully is dequeued at most once and never lost, items of one producer come out in order, dequeue reports empty only if nothing was available (or another dequeue was under way), a refused enqueue changes nothing, memory is reused and given back, and all remaining items are destroyed with the queue exactly once. The blocking queue's waits return as soon as an item is available, their timeouts wait the full time, and its semaphore never gives out more than was signalled nor loses a signal.",
 ["schedules","histories"],"sequences of up to 4 operations after any start position, crossing block boundaries (block sizes 2 and 4 by traits), explicit and implicit producers, tokens; programs of 2-3 threads with up to 5 operations each under all schedules with up to 3 preemptions, sequentially consistent memory plus happens-before race detection by memory order",
 "Tests stress it under OS schedules pinned to one CPU.",
 ["base/concurrentqueue/concurrentqueue.h","base/concurrentqueue/blockingconcurrentqueue.h","base/concurrentqueue/lightweightsemaphore.h"],
 [("ExplicitProducer/ImplicitProducer","base/concurrentqueue/concurrentqueue.h")],["dequeued items"])
p("C30","UTF-8/UTF-16 conversion on Windows is lossless",
 "On Windows, converting any valid path or message between UTF-8 and UTF-16 and back yields the original, and invalid input is reported rather than truncated.",
 ["inputs"],"all strings up to the API's length limit",
 "Tests run on Linux only.",
 ["base/wchar_support.h"],[("utf8buf_to_wcharbuf","base/wchar_support.h")],["returned strings"])
p("C31","Ending the program or calling close() loses nothing and ends every thread",
 "When close() returns, or the program ends without it, everything accepted by synchronous and asynchronous loggers has been delivered to the sinks, file sinks have written and closed their files, worker and periodic threads have ended, no error has been reported and every sink is destroyed once its last user is gone - whoever still holds loggers, with any pool kind and worker count, with periodic flushing on, when called twice or by two threads, or while another thread logs (its messages are delivered without gaps or reported). After close() no logger, default logger or pool is registered, a retained asynchronous logger reports and returns, a retained synchronous one goes on working, and new loggers and pools can be created.",
 ["schedules","histories"],"one synchronous and one asynchronous logger, 2-3 messages with arbitrary bytes, each pool kind, 1-2 workers, static and thread-local destructors run as exit() runs them, bounded preemptions",
 "Tests end through one OS schedule and look at nothing after main.",
 ["base/registry.cpp","base/registry.h","base/periodic_function.h","base/lock_thread_pool.h","base/lockfree_thread_pool.h","base/lockfree_concurrent_thread_pool.h"],[("registry::close_registry, ~registry","base/registry.cpp")],["delivered messages, files, live threads after exit"])
p("C32","Every caught error is reported once, whole and numbered",
 "Each error the library catches - on any thread - puts exactly one entry on stderr, '[*** EXCEPTION #NNNN ***] [YYYY-MM-DD HH:MM:SS] text', with the current local time and the complete text of the exception whatever bytes it holds (also '%'); entries count up from 0001, no number is skipped or used twice, entries of several threads never mix, and nothing else is written. The library's own exceptions carry the given text, the system error text and the source location they were given, and registry errors name the logger.",
 ["inputs","schedules"],"texts of up to 6 arbitrary non-NUL bytes, any time, 12 errors in a row, 2 threads with 2 errors each, all interleavings of writes",
 "Tests print errors without looking at them.",
 ["base/exception.h","base/os.h","include/logger.h","include/async_logger.h","base/registry.cpp"],[("handle_excpt, learnlog_excpt","base/exception.h")],["stderr"])
out='/verif/properties.jsonl'
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))
