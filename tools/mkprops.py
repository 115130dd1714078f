#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mechanism],
        "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Every accepted message reaches every attached sink exactly once",
  "While a logger is active, each message logged by any thread is delivered exactly once, complete and unaltered, to every sink that was attached before the log call began and not detached until it returned. No message is lost, duplicated, invented or withheld because of volume, size, number of sinks or what other threads do. A message processed while no sink at all is attached is reported, with its text, on standard error instead of vanishing.",
  ["schedules", "histories", "inputs"],
  "for every interleaving of any number of logging threads, the background worker, the sinks' threads and threads attaching or detaching sinks, and every number, size and content of messages and sinks",
  "the sink tests log a fixed number of messages from a few threads and count them on whatever schedule the machine happens to give; no test controls the schedule, attaches/detaches sinks while others log, or looks at which message went where",
  ["src/logworker.cpp", "src/g3log.cpp", "src/g3log/active.hpp", "src/g3log/shared_queue.hpp", "src/g3log/sink.hpp", "src/g3log/moveoncopy.hpp"],
  [("push to worker queue", "src/g3log.cpp pushMessageToLogger -> src/logworker.cpp LogWorker::save"),
   ("fan-out with a private copy for each sink", "src/logworker.cpp LogWorkerImpl::bgSave"),
   ("mutex/condition-variable queue drained by one thread", "src/g3log/shared_queue.hpp, src/g3log/active.hpp Active::run"),
   ("forwarding to the sink's own thread", "src/g3log/sink.hpp Sink::send")],
  [("worker queue", "messages and membership commands accepted but not dispatched", "src/g3log/active.hpp mq_"),
   ("sink list", "sinks attached now", "src/g3log/logworker.hpp _sinks"),
   ("sink queue", "messages and calls not yet executed by one sink", "src/g3log/sink.hpp _bg")],
  ["the receiving function of every sink", "standard error"])

p("C02", "All sinks see one common order that respects program and real-time order",
  "There is a single total order of all messages such that every sink receives its messages in that order. The order contains each thread's messages in the order the thread logged them. If one log call returned before another one began, on whatever threads, the first message comes first.",
  ["schedules", "histories"],
  "for every interleaving of logging threads, worker and sink threads and every set of sinks attached over time",
  "the tests compare the order only for one logging thread and one sink; agreement between sinks and across threads depends on the schedule",
  ["src/logworker.cpp", "src/g3log/active.hpp", "src/g3log/shared_queue.hpp", "src/g3log/sink.hpp"],
  [("FIFO queue guarded by one mutex", "src/g3log/shared_queue.hpp push / wait_and_pop"),
   ("single background thread dispatches to all sinks", "src/logworker.cpp LogWorkerImpl::bgSave")],
  [("worker queue", "the common order", "src/g3log/active.hpp mq_")],
  ["order of receipt at every sink"])

p("C03", "A sink runs one thing at a time, on its own thread, on its own data",
  "The receiving function of a sink, the calls made through its handle and its destruction never overlap and never run after its destruction, and message receipt and handle calls run on one background thread that belongs to that sink alone, never on a thread that logs. What a sink does to the message it received is not visible to any other sink nor to the thread that logged it.",
  ["schedules", "histories", "programs"],
  "for every interleaving of messages, handle calls, attachment and removal, and every sink implementation including ones that modify the message they receive",
  "tests use sinks that are written to tolerate concurrent use and never modify the message; an overlap needs a specific schedule",
  ["src/g3log/sink.hpp", "src/g3log/sinkhandle.hpp", "src/g3log/active.hpp", "src/logworker.cpp"],
  [("one active object for each sink", "src/g3log/sink.hpp Sink::_bg"),
   ("destruction joins the sink's thread before the real sink dies", "src/g3log/sink.hpp Sink::~Sink, src/g3log/active.hpp ~Active"),
   ("message copied for each sink", "src/logworker.cpp bgSave / bgFatal")],
  [("sink thread", "the only executor of the sink's code", "src/g3log/active.hpp thd_")],
  ["entry/exit of every sink function with the thread that runs it", "text of the message at each sink"])

p("C04", "Attaching and detaching sinks takes effect by the time the call returns",
  "When attaching a sink returns, every message logged afterwards reaches it, and messages whose log call had returned before the attaching began never do. When detaching one sink, or all sinks, returns, every message logged before it began has been received by the detached sink, the sink has been destroyed (unless the client itself holds on to it or is in the middle of another operation on it), it receives nothing afterwards, and every other sink is unaffected. Detaching twice or through a stale handle is harmless.",
  ["schedules", "histories"],
  "for every sequence and interleaving of attach, detach-one, detach-all, logging and handle calls from several threads",
  "tests attach sinks first and detach them last, with one thread; removal under traffic is never tried",
  ["src/g3log/logworker.hpp", "src/logworker.cpp", "src/g3log/future.hpp", "src/g3log/sink.hpp"],
  [("membership changes executed on the worker and awaited", "src/g3log/logworker.hpp removeSink/removeAllSinks, src/logworker.cpp addWrappedSink"),
   ("destruction drains the sink queue", "src/g3log/active.hpp ~Active")],
  [("sink list", "membership at the moment a message is dispatched", "src/g3log/logworker.hpp _sinks")],
  ["call/return of attach and detach, receipts, sink destructors"])

p("C05", "Handle calls run exactly once, in order, and report faithfully",
  "A call made through a handle on a live sink executes exactly once on the real sink, in the order in which calls by one thread were made and interleaved consistently with messages, and its future yields exactly the value returned or the exception thrown, with the arguments given at the time of the call. A call on a sink that was detached and destroyed does not execute anything and yields an exception saying so, without crashing. A call accepted before its sink is detached is still executed before the sink is destroyed.",
  ["schedules", "histories", "inputs"],
  "for every interleaving of handle calls with logging, detaching and shutdown, and every argument, result and exception",
  "tests make single handle calls on idle sinks; the race between a call and removal and the ordering with messages are never exercised",
  ["src/g3log/sinkhandle.hpp", "src/g3log/sink.hpp", "src/g3log/future.hpp", "src/g3log/moveoncopy.hpp"],
  [("weak reference promoted before use", "src/g3log/sinkhandle.hpp SinkHandle::call"),
   ("packaged task through the sink's queue", "src/g3log/future.hpp spawn_task, src/g3log/sink.hpp Sink::async")],
  [("weak reference", "whether the sink still exists", "src/g3log/sinkhandle.hpp _sink")],
  ["the future returned by the call", "execution on the sink"])

p("C06", "Orderly shutdown flushes everything and stops cleanly",
  "Destroying the active logger returns, and by then every message whose log call had returned has been received by every attached sink and every sink has been destroyed (unless the client itself holds on to it or is in the middle of an operation on it), each exactly once and after its last message. Messages logged after that are discarded without crashing or blocking, until a logger is initialized again. This holds whatever backlog the queues have and however slow the sinks are.",
  ["schedules", "histories"],
  "for every backlog, sink speed, number of sinks and interleaving at the moment of shutdown, and every sequence of create, initialize, log and destroy",
  "the tests always shut down with small backlogs; whether the last queued messages and pending handle calls are flushed depends on the schedule of three layers of threads",
  ["src/logworker.cpp", "src/g3log/active.hpp", "src/g3log/sink.hpp", "src/g3log.cpp"],
  [("stop command queued behind all work, then join", "src/g3log/active.hpp ~Active"),
   ("detach all before the worker is stopped", "src/logworker.cpp ~LogWorker"),
   ("logger pointer cleared first", "src/g3log.cpp shutDownLoggingForActiveOnly")],
  [("active logger", "where log calls go", "src/g3log.cpp g_logger_instance")],
  ["receipts and sink destructors before the logger's destructor returns"])

p("C07", "Logger lifecycle: early messages, initialization rules, several loggers",
  "Of the messages logged before any logger was ever initialized, the very first one is kept, shown on standard error, and delivered exactly once, marked as logged before initialization, ahead of all messages logged through the first initialized logger; the later ones are discarded without crashing. Initializing with no logger, or while another logger is active, ends the process with a failure status and an explanation, and initializing again after the active logger is gone works and starts with a fresh pre-fatal hook. Destroying a logger that is not the active one leaves the active one working and warns through it.",
  ["histories", "schedules"],
  "for every sequence of log calls, logger creation, initialization, explicit shutdown and destruction, with several loggers and several threads logging before initialization",
  "a test process initializes once at the start; the once-only state survives for the whole process, so most histories cannot be reached in the test binaries",
  ["src/g3log.cpp", "src/logworker.cpp", "src/g3log/g3log.hpp"],
  [("first uninitialized message stored once", "src/g3log.cpp pushMessageToLogger"),
   ("saved to the worker at first initialization", "src/g3log.cpp initializeLogging"),
   ("shutdown only for the active worker", "src/g3log.cpp shutDownLoggingForActiveOnly")],
  [("active logger", "null, or the initialized one", "src/g3log.cpp g_logger_instance"),
   ("first early message", "kept once", "src/g3log.cpp g_first_uninitialized_msg")],
  ["receipts, standard error, exit status"])

p("C08", "A fatal event flushes every earlier message before the process dies",
  "When the first fatal event occurs (fatal log, broken contract or fatal signal), every message whose log call returned before it, and the fatal message itself as the last one, is received by every attached sink, and those sinks are destroyed (so their files are complete), before the process ends; excepted are only sinks that the client itself holds on to or is in the middle of an operation on. The process is then ended by the signal that belongs to the event: abort for fatal logs and broken contracts, the original signal otherwise. With no active logger the fatal message still appears on standard error before the process dies from that signal.",
  ["crash_points", "schedules", "histories"],
  "for every point of the program at which application code raises a fatal event, every backlog, sink speed and number of sinks, and every interleaving with other logging threads",
  "the tests replace the fatal exit handler by a mock or run one fatal example by hand; none lets the process die and inspects what the sinks received",
  ["src/g3log.cpp", "src/logworker.cpp", "src/crashhandler_unix.cpp", "src/filesink.cpp"],
  [("fatal message queued behind all earlier messages", "src/logworker.cpp LogWorker::fatal"),
   ("sinks destroyed before exit", "src/logworker.cpp LogWorkerImpl::bgFatal"),
   ("original signal re-raised with handlers restored", "src/crashhandler_unix.cpp exitWithDefaultSignalHandler")],
  [("fatal in the queue", "everything before it must be flushed", "src/logworker.cpp")],
  ["receipts recorded outside the dying process", "log file left on disk", "wait status of the process"])

p("C09", "A fatal event never returns to the caller and always ends the process",
  "Unless the application had set the signal in question to be ignored, the following holds with the default fatal handling. Control never returns to the code that logged a fatal message, broke a contract or received a fatal signal. The process always terminates within bounded time, whichever threads raise fatal events at the same time and even if the pre-fatal hook itself logs, raises a fatal event or crashes.",
  ["crash_points", "schedules", "fault_sequences"],
  "for every number of simultaneous fatal events of every kind on application threads, every interleaving, and every behaviour of the pre-fatal hook",
  "no test lets the process die; simultaneous and recursive fatal events need particular schedules",
  ["src/g3log.cpp", "src/crashhandler_unix.cpp", "src/logworker.cpp"],
  [("caller blocks until the worker ends the process", "src/g3log.cpp pushFatalMessageToLogger"),
   ("only the first signal is handled", "src/crashhandler_unix.cpp shouldDoExit / signalHandler"),
   ("recursion counter and hook reset", "src/g3log.cpp saveFatalMessage")],
  [("blocking flag", "callers wait to die", "src/crashhandler_unix.cpp gBlockForFatal")],
  ["wait status of the process, events after the fatal call"])

p("C10", "Pre-fatal hook and fatal exit handler are honoured exactly",
  "The most recently set pre-fatal hook runs exactly once, for the first fatal event after it was set, on that event's thread and before the fatal exit handler is invoked, and not at all without a fatal event. The most recently set fatal exit handler receives every fatal event exactly once, with its complete message, level and signal, in place of the default handling; when it returns, or throws out of a fatal log or broken contract, the program goes on, logging keeps working, and handing the message to the default handling from inside it has the default effect.",
  ["histories", "schedules", "inputs"],
  "for every sequence of hook/handler settings, initializations and fatal events of every kind, on any threads",
  "tests use one mock handler and one hook; re-setting, re-initialization, recursion and concurrent events are hardly combined",
  ["src/g3log.cpp", "src/g3log/g3log.hpp"],
  [("hook taken and reset under a lock", "src/g3log.cpp saveFatalMessage / setFatalPreLoggingHook"),
   ("function pointer replaced", "src/g3log.cpp setFatalExitHandler / fatalCall")],
  [("hook", "run at most once", "src/g3log.cpp g_fatal_pre_logging_hook"),
   ("handler", "target of fatal events", "src/g3log.cpp g_fatal_to_g3logworker_function_ptr")],
  ["calls of hook and handler, with thread and content"])

p("C11", "Signal dispositions: install, override and restore never lose the original",
  "After any sequence of initializing, installing the crash handler, overriding the set of handled signals, restoring single signals and resetting to the default set, exactly the currently chosen and not individually restored signals go to the crash handler, and every other signal has the disposition the application had given it before. When the crash handler re-raises a fatal signal at the end, the application's original disposition is the one in effect.",
  ["histories", "configurations"],
  "for every sequence of these calls, every set of signals, every pre-existing disposition (default, ignored, application handler)",
  "the signal test restores and overrides in one fixed order in one process; dispositions are process-wide so sequences need many processes",
  ["src/crashhandler_unix.cpp", "src/g3log/crashhandler.hpp"],
  [("original action saved at installation", "src/crashhandler_unix.cpp installSignalHandler"),
   ("saved action restored and forgotten", "src/crashhandler_unix.cpp restoreSignalHandler"),
   ("override restores, then installs the new set", "src/crashhandler_unix.cpp overrideSetupSignals")],
  [("saved actions", "dispositions to go back to", "src/crashhandler_unix.cpp gSavedSigActions"),
   ("handled set", "signals to handle", "src/crashhandler_unix.cpp gSignals")],
  ["sigaction() queries, and how the process dies"])

p("C12", "The fatal message says what happened",
  "The message delivered for a fatal event contains the user's text, the kind of event with the contract expression for a broken contract or the signal's name and number and the process id for a signal, a stack dump of the failing thread, the exit reason with the signal's name, and the statement that the log was flushed; location and level of fatal logs and contracts are those of the failing statement. If it is not the first fatal event since initialization, the message also says so and includes the first one's stack dump. The text delivered to a sink is also printed on standard error.",
  ["inputs", "fault_sequences", "configurations"],
  "for every kind of fatal event, message text, expression, signal and level, and every recursion of fatal events",
  "tests look for a few fixed substrings with a mock handler that bypasses the second half of the message",
  ["src/g3log.cpp", "src/logworker.cpp", "src/crashhandler_unix.cpp", "src/logcapture.cpp", "src/logmessage.cpp"],
  [("stack dump captured at the failing statement", "src/logcapture.cpp LogCapture ctor"),
   ("message composition", "src/g3log.cpp saveFatalMessage, src/logworker.cpp bgFatal, src/logmessage.cpp fatal*ToString"),
   ("signal name table", "src/crashhandler_unix.cpp exitReasonName")],
  [("recursion counter", "whether a fatal is already in progress", "src/g3log.cpp g_fatal_hook_recursive_counter")],
  ["text at the sinks, in the log file and on standard error"])

p("C13", "Run-time level filtering follows the documented level table",
  "With dynamic levels, after any sequence of adding, enabling, disabling, set-lowest-enabled, enable-all, disable-all and reset, a level is logged if and only if it is registered and enabled according to that history; unregistered levels are not logged and stay unregistered, whatever is queried or logged. Queries and the printed table report exactly that state. Without dynamic levels every level is logged.",
  ["histories", "inputs", "configurations"],
  "for every sequence of level operations interleaved with logging and queries, over arbitrary level values and names",
  "the tests try a handful of sequences on the default levels; the interplay of registration, queries and bulk operations needs histories",
  ["src/loglevels.cpp", "src/g3log/loglevels.hpp", "src/g3log/atomicbool.hpp"],
  [("level table", "src/loglevels.cpp g_log_levels and the functions of log_levels"),
   ("filter in front of every logging statement", "src/g3log/g3log.hpp LOG, LOGF, LOG_IF, LOGF_IF")],
  [("level table", "registered levels with status", "src/loglevels.cpp g_log_levels")],
  ["delivered messages, getStatus, getAll, to_string"])

p("C14", "Logging statements evaluate what they must and nothing else",
  "A logging statement whose level is disabled or whose condition is false evaluates none of its message arguments and sends nothing; otherwise arguments and condition are evaluated exactly once and one message is sent. A contract statement fires exactly when its expression is false, independent of any level setting, evaluates the expression once and the message only when it fires. The statements are usable wherever a single statement is, including unbraced if/else.",
  ["programs", "configurations", "inputs"],
  "for every statement form, level status, condition value and argument expression with side effects, in every statement context",
  "tests check that messages appear, not how often conditions and arguments are evaluated, and only for a few forms",
  ["src/g3log/g3log.hpp", "src/loglevels.cpp"],
  [("if/else macro skeleton", "src/g3log/g3log.hpp LOG, LOG_IF, LOGF, LOGF_IF, CHECK, CHECKF, CHECK_F")],
  [("level table", "enabled or not", "src/loglevels.cpp g_log_levels")],
  ["side effects of argument and condition expressions, delivered messages"])

p("C15", "Printf-style messages are complete, or visibly truncated at the limit",
  "A printf-style message is delivered exactly as the standard formatting functions would produce it when it fits the size limit; otherwise it is delivered as a maximal prefix followed by the truncation marker, and never silently shortened. The limit is 2048 bytes unless the application changed it, in which case the changed limit applies to every later message. Stream-style messages are never truncated.",
  ["inputs", "configurations"],
  "for every format, argument list and resulting length, in particular around the limit, and every configured limit",
  "tests format a few short strings and one very long one; the exact boundary and configured limits are not explored",
  ["src/logcapture.cpp", "src/g3log/g3log.hpp"],
  [("bounded vsnprintf with marker", "src/logcapture.cpp LogCapture::capturef"),
   ("configurable limit", "src/logcapture.cpp setMaxMessageSize")],
  [("maximum message size", "limit in force", "src/logcapture.cpp MaxMessageSize")],
  ["delivered text"])

p("C16", "A message arrives with the facts of its statement and survives copying",
  "Each delivered message carries the level, file, line, function and thread of the statement that logged it, a time stamp taken during that statement, and exactly the logged text, even if the strings passed by the caller are gone by then. Copying, assigning, moving and swapping messages preserve every one of these fields and the chosen formatting. The formatted text is time stamp, level, location and text in the selected details format.",
  ["inputs", "programs", "histories"],
  "for every text, file path, function, line and level, every sequence of copies, assignments, moves and swaps, and every details format",
  "tests compare a few fields of a few messages; assignment and swap of messages with different field values are barely tried",
  ["src/logmessage.cpp", "src/g3log/logmessage.hpp", "src/g3log/moveoncopy.hpp", "src/logcapture.cpp", "src/g3log.cpp"],
  [("explicit deep copies", "src/g3log.cpp saveMessage, src/logmessage.cpp constructors, swap"),
   ("formatting", "src/logmessage.cpp toString and helpers")],
  [("message fields", "facts of the statement", "src/g3log/logmessage.hpp")],
  ["fields and formatted text at the sink"])

p("C17", "The file sink writes every entry once, in order, at the promised intervals",
  "The log file consists of a header followed by exactly the formatted entries received, in order, each once, and a final shutdown line, whatever the write interval. After every n-th entry (n being the write interval) all entries received so far are in the file, and after the sink is destroyed all of them are. Overridden header and details format apply from the next use on.",
  ["histories", "inputs", "configurations", "crash_points"],
  "for every sequence of entries, write intervals, format changes and file changes, inspected at every point of the history",
  "tests write a few entries and look for substrings at the end; what is in the file at intermediate points (what a crash would leave) is not examined",
  ["src/filesink.cpp", "src/g3log/filesink.hpp", "src/filesinkhelper.ipp"],
  [("write buffer and counter", "src/filesink.cpp FileSink::fileWrite"),
   ("flush at destruction", "src/filesink.cpp FileSink::~FileSink")],
  [("write buffer", "entries received but not in the file", "src/g3log/filesink.hpp _write_buffer")],
  ["bytes in the file after every operation"])

p("C18", "Changing the log file neither loses nor duplicates entries",
  "Over any sequence of entries and log-file changes, the concatenation of all files used holds every received entry exactly once and in order. A successful change returns the new name, which is then reported as current, leaves in each file a reference to the other, and later entries go to the new file; a failed change returns an empty name, leaves the current file and name in place, notes the failure there, and loses nothing. Nothing already written is destroyed, even if the change leads to the same file.",
  ["histories", "inputs", "fault_sequences"],
  "for every sequence of entries, changes to valid, invalid, unwritable and identical destinations, at any buffer fill level",
  "the tests change the file twice to valid locations and once to an invalid one; repeated, same-second and partially buffered changes are not explored",
  ["src/filesink.cpp", "src/filesinkhelper.ipp"],
  [("new stream opened before the old one is given up", "src/filesink.cpp FileSink::changeLogFile")],
  [("current file", "where entries go", "src/g3log/filesink.hpp _log_file_with_path")],
  ["returned names, bytes of all files"])

p("C19", "Log file names are sanitized and predictable, illegal ones refused",
  "The name of the log file that creating a file sink opens is the given prefix without white space, slashes, backslashes, dots and colons, then the logger id if there is one, then the creation time, then the log suffix, placed in the given directory with delimiters unified and trailing delimiters and blanks removed. A prefix that is empty or still contains an illegal character after that stops the program with a message rather than creating a file. If the directory cannot be used the file is created in the current directory.",
  ["inputs", "configurations"],
  "for every prefix, directory and id string",
  "tests try a dozen strings; the rule quantifies over all strings",
  ["src/filesinkhelper.ipp", "src/filesink.cpp"],
  [("prefix and path sanitizing", "src/filesinkhelper.ipp prefixSanityFix, isValidFilename, pathSanityFix, createLogFileName"),
   ("fallback to the current directory", "src/filesink.cpp FileSink ctor")],
  [],
  ["name reported by the sink and files existing on disk"])

p("C20", "Logging is asynchronous: no caller ever waits for a sink",
  "A non-fatal log call returns without waiting for any sink: it completes even if every sink is stuck and any number of messages is waiting. A stuck or slow sink delays neither the delivery of messages to other sinks nor handle calls on other sinks. Making a handle call does not wait for the sink either; only its future does.",
  ["schedules", "histories"],
  "for every set of stuck or slow sinks, every backlog size and every interleaving",
  "tests measure nothing while a sink is stuck; a hidden wait shows only when a sink never makes progress",
  ["src/g3log/active.hpp", "src/g3log/sink.hpp", "src/logworker.cpp", "src/g3log/sinkhandle.hpp"],
  [("unbounded queues on both levels", "src/g3log/shared_queue.hpp"),
   ("worker only forwards", "src/logworker.cpp bgSave")],
  [("queues", "unbounded backlog", "src/g3log/active.hpp mq_")],
  ["log calls and deliveries to other sinks while a sink is held"])

p("C21", "Time stamps format fractions and dates correctly",
  "Formatting a time from the epoch on, with a result of 1 to 1023 bytes, replaces each fraction directive by exactly 3, 6 or 9 digits (nine when no digit count is given) of that time's sub-second part, zero padded and truncated, wherever and however often it occurs, and formats the rest of the string as the standard date formatting does for the local time of the same instant. Two times with the same offset from UTC, formatted in a fixed-width date-and-fraction format, compare as strings as the times do.",
  ["inputs"],
  "for every time at or after the epoch, every format string and number of fraction directives, and every local time zone",
  "tests check a few constants",
  ["src/time.cpp", "src/g3log/time.hpp"],
  [("fraction replacement, then strftime", "src/time.cpp localtime_formatted_fractions, to_string, localtime_formatted, put_time")],
  [],
  ["formatted strings"])

p("C22", "The public concurrency building blocks are linearizable and never lose work",
  "The shared queue delivers each pushed item to exactly one consumer, in FIFO order, a blocking pop returns whenever an item is available, and size and emptiness are those of some moment during the call. An active object runs every task handed over before its destruction began exactly once, in order, one at a time, on one background thread, and its destruction waits for them. A spawned task's future receives exactly its result or exception, and spawning on no worker yields an exception in the future.",
  ["schedules", "histories"],
  "for every interleaving of any number of producers and consumers, and every sequence of operations",
  "the concept tests run a few tasks on natural schedules; lost wake-ups and reordering need specific interleavings",
  ["src/g3log/shared_queue.hpp", "src/g3log/active.hpp", "src/g3log/future.hpp", "src/g3log/moveoncopy.hpp"],
  [("mutex + condition variable with re-check", "src/g3log/shared_queue.hpp wait_and_pop"),
   ("stop task queued last, join", "src/g3log/active.hpp ~Active"),
   ("packaged task and promise", "src/g3log/future.hpp spawn_task")],
  [("queue", "items pushed and not popped", "src/g3log/shared_queue.hpp queue_"),
   ("stop flag", "set by the last task", "src/g3log/active.hpp done_")],
  ["results of every call, execution of every task"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
for r in P:
    assert len(r["title"]) <= 80, r["id"]
with open(out, "w") as f:
    for r in P:
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
