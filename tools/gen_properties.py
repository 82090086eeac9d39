#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
H = "src/include/falcon/"
LS = [H + "logsystem.h", "src/engine/logsystem.cpp"]
LG = [H + "logger.h", "src/engine/logger.cpp"]
PS = [H + "engine/pagedstack.h"]
FX = [H + "futex.h", "src/engine/futex.cpp"]
IT = [H + "engine/" + n for n in ("item.h", "itemdata.h", "handler.h", "flathandler.h", "deephandler.h",
      "deepflatcopyhandler.h", "nilhandler.h", "boolhandler.h", "inthandler.h", "floathandler.h",
      "stringhandler.h", "bignumhandler.h", "handlerfactory.h")] + ["src/engine/handlerfactory.cpp"]
FUT = ["src/fut/unittest.cpp", "src/fut/testcase.cpp", H + "fut/fut.h", H + "fut/unittest.h", H + "fut/testcase.h"]
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- logging
p("L01", "Every accepted log message reaches every eligible listener exactly once",
  "While the logging service runs, every message submitted at or below the service's current level is delivered exactly once, with its source file, line, level, category and text unchanged, to each enabled listener that was registered before the submission and whose filters accept it, whatever the number of producers, the size of the backlog and the speed of the listeners. A message submitted above the service's level is delivered to no listener.",
  ["schedules", "inputs", "histories"], "all interleavings of any number of producer threads with the delivery thread; all message contents, sizes and backlogs, also beyond the pre-allocated pool",
  "logsystem.fut sends one message per case from one thread and never leaves the 64-message pool, so loss, duplication and corruption under load are out of its reach.",
  LS, [("log: level gate, message allocation, enqueue under the message lock", "src/engine/logsystem.cpp:LogSystem::log"),
       ("delivery loop: dequeue, dispatch, recycle", "src/engine/logsystem.cpp:LogSystem::loggingThread")],
  ["Listener::onMessage arguments", "LogSystem::log call/return at the client"],
  [("m_messages", "backlog of submitted messages", "logsystem.h"), ("m_pool", "idle messages for reuse", "logsystem.h")])
p("L02", "Log messages are delivered in submission order, the same for all listeners",
  "The messages of one producer reach every listener in the order in which they were submitted, and a submission that returned before another one began, on any thread, is delivered before it. All listeners observe the messages they have in common in the same relative order, and a listener finishes one message before it is given the next.",
  ["schedules", "histories"], "all interleavings of concurrent producers, listeners added at any time, restarts in between",
  "The tests deliver a single message per service, so no order is ever observed.",
  LS, [("FIFO queue under one mutex", "src/engine/logsystem.cpp:LogSystem::log"), ("single delivery thread", "src/engine/logsystem.cpp:LogSystem::loggingThread")],
  ["Listener::onMessage sequence", "LogSystem::log call/return stamps"])
p("L03", "Listener filters decide delivery exactly",
  "A listener receives a message if and only if it is enabled, its level is at least the message's level, and its category filter is empty, or the message has no category, or the whole category matches the filter expression; a change to any of these made before a submission applies to that message. An invalid filter expression is refused with the invalid-category error and leaves the previous filter in force. Filtering writes nothing to the program's standard output or error.",
  ["inputs", "histories"], "all combinations of levels, categories, expressions, enabled states and sequences of changes to them",
  "The tests try three filter settings with one message each.",
  LS, [("sendMessageToListeners predicate", "src/engine/logsystem.cpp:LogSystem::sendMessageToListeners"), ("checkCategory full match", "src/engine/logsystem.cpp:LogSystem::Listener::checkCategory"), ("category setter", H + "logsystem.h:Listener::category")],
  ["Listener::onMessage", "stdout/stderr of the process", "Listener::category()"])
p("L04", "Listener registration and detachment take effect and release the listener",
  "A listener receives no message submitted after its detachment completed, even if no message was processed between its registration and its detachment, and the detachment does not disturb delivery to the others. The service stops holding a detached listener once it has processed a further message, and destroying the service releases every listener it holds. Registering further listeners at any moment, also from within a listener, never loses a listener.",
  ["schedules", "histories"], "all sequences and interleavings of registration, detachment, submission and destruction, from several threads and from within listeners",
  "The tests register two listeners up front and never observe a detachment or a release.",
  LS, [("pending listeners merged before each delivery", "src/engine/logsystem.cpp:LogSystem::processNewListeners"), ("detached listeners removed after each delivery", "src/engine/logsystem.cpp:LogSystem::cleanupTerminatedListeners")],
  ["Listener::onMessage", "weak references to listeners", "LogSystem::getDiags listener counts"],
  [("m_pendingListeners / m_activeListeners", "registered listeners not yet / already served", "logsystem.h")])
p("L05", "Message storage is conserved, bounded and fully released",
  "At every quiescent moment the idle pool plus the backlog equals the 64 pre-allocated messages plus those created on demand minus those discarded, the idle pool never exceeds 64, and messages are created only when it is empty. The diagnostics agree with what happened: messages processed, the longest backlog reached, and the numbers of pending, active and enabled listeners. However many messages were logged, of whatever size, destroying the service releases all the memory they used, and processed messages do not accumulate memory meanwhile.",
  ["histories", "schedules", "inputs"], "all histories of bursts, drains, stops and restarts with any message sizes and number of producers",
  "The tests check the counters after at most one short message; growth, recycling and memory over many messages is never exercised.",
  LS, [("pool allocate/dispose", "src/engine/logsystem.cpp:LogSystem::allocateMsg, disposeMsg"), ("destructor frees queue and pool", "src/engine/logsystem.cpp:LogSystem::~LogSystem"), ("diagnostics", "src/engine/logsystem.cpp:LogSystem::getDiags")],
  ["LogSystem::getDiags", "process allocation accounting"],
  [("m_unpooled / m_destroyed", "messages created on demand / discarded", "logsystem.h")])
p("L06", "The logging service stops for good, restarts, and never deadlocks",
  "After stop returns no listener is called until the service is started again; start and stop may be called any number of times, in any order and from several threads at once, and always return. Messages submitted while the service is stopped, or still in the backlog when it stops, are delivered exactly once and in order after the next start. Destroying the service, running or stopped and with any backlog, returns and is followed by no listener call.",
  ["schedules", "histories"], "all interleavings of start, stop, submission and destruction on several threads",
  "The tests stop each service once, at the end, with an empty backlog; a service is never restarted.",
  LS, [("termination flag and join", "src/engine/logsystem.cpp:LogSystem::stop"), ("thread creation", "src/engine/logsystem.cpp:LogSystem::start")],
  ["Listener::onMessage relative to stop/start returns", "progress watchdog"],
  [("m_isTerminated", "the delivery thread has to leave", "logsystem.h")])
p("L07", "Concurrent use of the logging interfaces is free of data races",
  "Any mix of concurrent submissions, level changes, listener registration and detachment, filter and enabling changes and reads, stream replacement, thread categories, diagnostics reads and start/stop, on one or several logging services, is free of data races, of memory errors and of undefined behaviour.",
  ["schedules"], "all interleavings of all public operations on shared services and listeners",
  "The suite runs without a race detector and calls the service from one thread.",
  LS + LG + [H + "logstream.h", "src/engine/logstream.cpp", H + "logproxy.h"],
  [("mutexes for queue, pool, listeners, category, stream; atomics for levels and flags", H + "logsystem.h")],
  ["ThreadSanitizer and AddressSanitizer reports"])
p("L08", "A stream listener writes each record as one whole line to its current stream",
  "For each message delivered to it a stream listener writes exactly one record - local date and time, four-letter level, the category in parentheses if there is one, the source file's name without its directories, a colon and the line number, and the text, ended by a newline - whole, flushed, whatever format flags and locale the stream has, and to exactly one stream, the one set last. Replacing the stream at any moment, by any of the three ways, loses, duplicates or splits no record, and after the replacement returned nothing more is written to the previous stream. A stream handed over or shared stays alive while it is the current one and is destroyed exactly once; without any stream the record is discarded.",
  ["inputs", "schedules", "histories"], "all message contents, all sequences and interleavings of stream replacement with delivery",
  "logstream.fut writes one fixed message per stream and searches only for the text.",
  [H + "logstream.h", "src/engine/logstream.cpp"], [("onMessage formats under the stream lock", "src/engine/logstream.cpp:LogStreamListener::onMessage"), ("own/share/writeOn swap under the stream lock", H + "logstream.h")],
  ["bytes received by each stream buffer", "flush and destruction events of the streams"],
  [("m_pout", "current stream", "logstream.h")])
p("L09", "Log statements composed anywhere never mix",
  "A message composed through the stream-style interface carries exactly the text of its own operands, the source file, line and level of its own statement, and the category of its own thread, or the temporary one given to that message alone. Nothing of a statement - text, formatting manipulators, level, source position or temporary category - reaches any other message, whether composed concurrently by another thread, later by the same thread, or nested within one of its operands or blocks, also when a block is left by an exception.",
  ["schedules", "inputs", "programs"], "all interleavings of composing threads, all operand types and manipulators, all nestings of statements and blocks",
  "logger.fut composes one plain statement at a time from one thread, and is excluded from the stable suite because it is flaky.",
  LG, [("thread-local composition state", "src/engine/logger.cpp"), ("statement scopes AutoEnd and BlockEnd", H + "logger.h"), ("commit", H + "logger.h:Logger::commit")],
  ["messages received by a listener of the application logger"])
p("L10", "Disabled log statements do nothing, enabled ones log exactly once",
  "A log statement or log block whose level is above the logger's run-time level or above the compile-time limit of its source file serialises none of its operands, runs none of its block and submits no message; one at or below both limits serialises its operands once, runs its block once and submits exactly one message. Setting the thread's category takes effect under every compile-time limit that leaves any statement enabled, and disabling all logging at compile time leaves the program's other behaviour unchanged.",
  ["inputs", "configurations", "programs"], "all statement levels, run-time levels and compile-time limits",
  "logger.fut uses one compile-time limit and enabled statements almost only.",
  LG, [("level test in AutoEnd/BlockEnd and the LOG_BLOCK loop", H + "logger.h"), ("LOG_CATEGORY", H + "logger.h")],
  ["operand serialisation counters", "block execution counters", "messages received by a listener"])
p("L11", "The category filter adds matching messages and is fully undone by clearing",
  "While a category filter is installed, the default output receives at least once every message of the requested level or below that the filter accepts - those of matching category and those without one - and, of all other messages, exactly those it received before. Installing another filter replaces the first one, and clearing restores the logger's and the default listener's level to what they were before the first installation and stops the extra output for all messages submitted from then on; clearing when no filter is installed changes nothing. An invalid expression is refused with the invalid-category error and leaves everything as it was.",
  ["inputs", "histories"], "all sequences of installing and clearing with all levels, expressions and categories",
  "One (flaky, excluded) case installs one filter once, after setting the levels by hand.",
  LG + [H + "logproxy.h"], [("categoryFilter / clearFilter", "src/engine/logger.cpp"), ("proxy listener", H + "logproxy.h")],
  ["text received by the default listener's stream", "Logger::level, defaultListener()->level"])

p("L12", "A proxy listener passes what it accepts to its target",
  "A proxy listener passes to its target, once each, unchanged and in delivery order, exactly the messages the proxy's own level, category filter and enabling accept while it is registered and not detached, whatever the target's own filters, enabling or detachment are, whether or not the target is registered with a service itself. A target may serve any number of proxies, of proxies of proxies and of services at once; it is kept alive while any proxy uses it and released with the last one.",
  ["inputs", "histories", "schedules"], "all messages, all filter settings of proxies and targets and their changes, all sets of proxies over one or several services",
  "No test creates a proxy; it is only used indirectly by the logger's category filter.",
  [H + "logproxy.h"] + LS, [("onMessage hands over to the other listener", H + "logproxy.h:LogProxyListener::onMessage"), ("the proxy's filter is applied by the service", "src/engine/logsystem.cpp:LogSystem::sendMessageToListeners")],
  ["onMessage arguments at the targets", "destruction of the targets"])
p("L13", "The application's logger works from first use to the end of the program",
  "The application's logger is one object, made by its first use, be it by a static initialiser or by several threads at once. From then on until it is destroyed with the static objects, log statements and submissions work from everywhere, destructors of static objects made after it and of thread objects included: nothing submitted before a message that arrived is lost, nothing is given twice or out of order. The program ends with the status it asked for, whatever the backlog and the listeners' work at that moment; by then all listeners and streams the logger holds are destroyed, and none is called afterwards.",
  ["programs", "histories", "schedules"], "all ways to begin, use and end a program: static initialisers, threads, static and thread destructors, return or exit from any thread, any backlog",
  "Every test uses the logger from main only, and what happens when the program ends is not looked at.",
  LG + LS, [("the application's logger", H + "logger.h:Logger::instance"), ("per-thread composition", "src/engine/logger.cpp:Logger::threadData"), ("end of the service", "src/engine/logsystem.cpp:LogSystem::~LogSystem")],
  ["deliveries, destructions and exit status told by child programs through a pipe"])
p("M01", "One engine serves all the parts of a program",
  "However a program is put together - an executable, libraries linked to it, modules loaded and unloaded while it runs - and whichever of its parts a thread runs code of, the parts use one engine. They share the application's logger with its level, listeners and filter; a thread has one log category and one message under composition, whichever part sets, begins or adds to it; each type of items has one handler; a lock taken by a thread in one part is held by it in all of them. Messages, listeners, items, code objects, locks and errors made by one part are used, copied, caught by their type and destroyed by any other with the same results as if there were one part only, and, but for the listeners, whose code it contains, also after the module that made them was unloaded.",
  ["programs", "configurations", "histories"], "all compositions of a program and all histories of use, loading and unloading of its parts by any threads",
  "Every test is one executable made of one source, which loads nothing.",
  LG + LS + FX + IT + ["src/engine/CMakeLists.txt"], [("the application's logger, defined by the engine", "src/engine/logger.cpp:Logger::instance"), ("per-thread composition", "src/engine/logger.cpp:Logger::threadData"),
   ("handlers, defined by the engine", "src/engine/handlerfactory.cpp"), ("identity of threads", "src/engine/futex.cpp")],
  ["messages heard by listeners of every part", "values and handlers of items seen from every part", "addresses told by every part", "exclusion under locks taken across parts"])
# ---------------------------------------------------------------- paged stack
p("S01", "A paged stack behaves as a plain LIFO sequence for every page geometry",
  "For every page size and preallocation of at least one and every sequence of valid operations - single and multiple push, in-place construction, single, multiple and reversed pop, reading and replacing the top, peeking from the top, from a depth or reversed, discarding by count or down to an iterator, clearing and shrinking - the values returned, the size, the emptiness and the contents equal those of an unbounded LIFO sequence given the same operations. Discarding to an iterator removes the element it points to and everything above it.",
  ["inputs", "histories", "configurations"], "all operation sequences of any length, all page sizes and preallocations, all element types",
  "pagedstack.fut runs 38 short fixed sequences with one page size (4) and one preallocation (2).",
  PS + [H + "engine/distribute.h"], [("page list with a current page", H + "engine/pagedstack.h:advance, internal_pop_one, internal_discard, discard, clear"), ("distribute", H + "engine/distribute.h")],
  ["return values of the public operations", "full traversal after operations"],
  [("m_curBase", "page holding the top", "pagedstack.h"), ("m_base", "all pages", "pagedstack.h")])
p("S02", "Stack iterators visit exactly the elements, in order, in both directions",
  "Iterating from begin to end visits every element exactly once from the top down, and from reverse begin to reverse end from the bottom up, for mutable and constant iterators, whatever pages are allocated beyond the top. Iterating from a given depth visits exactly that many topmost elements from the bottom up; stepping an iterator back retraces its path; equal positions compare equal and different ones different. Writing through a mutable iterator changes exactly the element it points to.",
  ["inputs", "configurations", "histories"], "all stack sizes relative to all page sizes, all histories that left spare pages, all iterator kinds and step patterns",
  "The tests iterate over stacks of five or six elements that exactly use both preallocated pages.",
  PS, [("iterator_base / reverse_iterator_base", H + "engine/pagedstack.h"), ("begin, end, rbegin, rend, from_top", H + "engine/pagedstack.h")],
  ["values and comparisons seen by the client while iterating"])
p("S03", "Stack elements stay in place, die exactly once, and pages are balanced",
  "An element keeps its address from the moment it is pushed until it is removed; it is destroyed exactly once, by the operation that removes it or by the stack's destruction, so the number of live elements equals the stack's size. Every block taken from the allocator is given back to it, emptied pages are reused before new ones are requested, pages are let go by shrinking only, and shrinking keeps exactly the pages up to the one holding the top.",
  ["histories", "configurations"], "all operation sequences and page geometries",
  "Two cases count allocations of one fixed sequence; destruction and addresses are never observed.",
  PS, [("pages reserved to full size before use", H + "engine/pagedstack.h:growBase"), ("internal_shrink_to_fit", H + "engine/pagedstack.h")],
  ["constructor/destructor events of an instrumented element type", "allocate/deallocate events of an instrumented allocator", "getStats"])
p("S04", "A failing operation leaves the stack intact",
  "If copying, constructing or assigning an element or obtaining memory throws during an operation, the exception reaches the caller and the stack stays fully usable. A single push or in-place construction that fails leaves the contents exactly as they were; a multiple push keeps exactly the values pushed before the failing one, a multiple pop has removed exactly the values already delivered, and a failing peek or reversed pop removes nothing; in what is done next elements keep their place as ever. No element or memory block is leaked or destroyed twice.",
  ["fault_sequences", "histories", "configurations"], "an exception at every possible point (element copy, construction, assignment, allocation) of every operation, at every fill level of a page",
  "No test makes an element or the allocator throw.",
  PS, [("advance / push ordering", H + "engine/pagedstack.h:internal_push, push_emplace, growBase")],
  ["stack contents after each injected fault", "live element and block accounting"])
p("S05", "Operations on a locked stack are atomic",
  "With a real mutex type, operations called concurrently on one stack, copying it and assigning to it included, behave as if executed one at a time in an order consistent with their calls: values pushed together are adjacent, values popped together were adjacent at one moment, and no value is lost, duplicated or invented. Concurrent use is free of data races and deadlocks.",
  ["schedules", "histories"], "all interleavings of pushes, pops, peeks, discards, size and emptiness queries, shrinking, copies and assignments, with any of the mutex types",
  "All stack tests are single-threaded; the mutex is used there only to detect self-deadlock.",
  PS + FX, [("lock_guard on m_mutex in every public operation", H + "engine/pagedstack.h")],
  ["call/return history of every client operation", "ThreadSanitizer reports"])
p("S06", "Synchronised iterators survive modification of the stack",
  "A synchronised iterator that has not reached the end yields the element at its position while that position exists, otherwise it moves to the current top, and reports an emptied stack by an exception; over an unmodified stack it visits every element from the top down. It never touches released storage: shrinking requested while any synchronised iterator exists, copies and constant ones included, takes effect only when the last of them is gone, and then does take effect; nothing is released unless it was asked for. All this holds with concurrent modification by other threads.",
  ["schedules", "histories"], "all interleavings of iteration with pushes, pops, discards, clears and shrinking, any number of iterators and copies of them",
  "Three single-threaded cases with fixed steps; copies and constant synchronised iterators are not used.",
  PS, [("synchronize under the stack's lock", H + "engine/pagedstack.h:sync_iterator_base"), ("iterator count and deferred shrink", H + "engine/pagedstack.h:removeSyncIterator, shrink_to_fit")],
  ["values and exceptions seen through the iterator", "getStats block counts", "sanitizer reports"],
  [("m_syncIterCount / m_shrinkRequest", "live synchronised iterators / a shrink is due", "pagedstack.h")])
p("S07", "A copied stack is an independent stack",
  "A stack copied from another, by construction or assignment, holds equal elements in the same order, and from then on neither is affected by any operation on, or the destruction of, the other. The copy keeps all the guarantees of a stack of its own, and assigning a stack to itself changes nothing.",
  ["histories", "configurations"], "all histories before and after the copy, all page geometries",
  "No test copies a stack.",
  PS, [("copy construction and assignment", H + "engine/pagedstack.h")], ["contents of both stacks after operations on either"])

# ---------------------------------------------------------------- locks and atomics
p("F01", "The futex lock excludes, publishes and lets waiters through",
  "For every spin count, at most one thread is between its lock and its unlock, everything written before an unlock is visible to the next holder and to whoever finds the lock free after it, the lock reports itself locked exactly while held, and a waiter gets the lock once it is released and not taken by others. Spuriously failing hardware exchanges do not change this.",
  ["schedules", "configurations"], "all interleavings of any number of contenders, all spin counts, spurious failures of the weak exchange at any point",
  "The tests count increments of a volatile counter on a strongly ordered machine, where a missing acquire or release and spurious failures cannot show.",
  FX, [("compare-exchange loop with acquire, store with release", H + "futex.h:Futex::lock, unlock")],
  ["critical-section entry/exit events", "happens-before tracking by ThreadSanitizer"])
p("F02", "The recursive futex is owned, re-entrant and exclusive",
  "The thread holding a recursive futex may lock it again without blocking, and others get it only after it was unlocked as many times as it was locked; at most one thread holds it, and what was written under it is visible to the next holder and to whoever finds it free afterwards. It reports ownership exactly to the holding thread and the locked state exactly while held, also to threads that never used a recursive futex.",
  ["schedules", "histories"], "all interleavings of nested lock/unlock sequences of any number of threads on several recursive futexes",
  "No test uses the recursive futex.",
  FX, [("owner exchange and count", H + "futex.h:RFutex::lock, unlock"), ("thread identifiers", "src/engine/futex.cpp")],
  ["critical-section events", "isOwner/isLocked answers", "ThreadSanitizer reports"],
  [("s_thread_id", "identifier of the calling thread", "futex.cpp")])
p("F03", "The futex's waiting policy follows its spin count",
  "A waiting thread never yields the processor with spin count zero, yields at every failed attempt with spin count one, and with a higher spin count n yields after every n failed attempts for as long as it waits. Acquiring a free futex never yields.",
  ["schedules", "configurations"], "all spin counts and waiting times",
  "The tests measure only total run time; the number of yields is not observed.",
  FX, [("spin countdown", H + "futex.h:Futex::lock")], ["calls to the system's yield while a waiter is kept waiting", "failed exchange attempts"])
p("A01", "Atomic operations are indivisible and return what they document",
  "Concurrent atomic increments, decrements, additions, exchanges, compare-and-swaps, sets, fetches and bitwise operations on one variable take effect one at a time: increments, decrements and additions return the new value, exchange and the bitwise operations the previous one, compare-and-swap succeeds exactly when the value compared equal. A set or exchange publishes what its thread wrote before to a thread that fetches the value.",
  ["schedules", "inputs"], "all interleavings of the operations and all 32-bit operands including overflow",
  "No target even compiles the atomic headers.",
  [H + "atomic.h", H + "atomic_gcc.h"], [("compiler atomic builtins", H + "atomic_gcc.h")], ["returned values and final value", "ThreadSanitizer reports"])
p("G01", "A singleton is built exactly once and shared by all accessors",
  "All accessors of a singleton type, mutable or constant, through any wrapper object and from any threads, reach the same single instance; it is constructed once, completely before any accessor returns it, even under concurrent first use, and not before first use, and changes made through the mutable accessor are seen by all. A construction that throws tells the accessor so and is tried again by the next access.",
  ["schedules", "histories"], "all interleavings of first and later accesses by any number of threads and wrappers",
  "One single-threaded case on one wrapper.",
  [H + "singleton.h"], [("function-local static instance", H + "singleton.h:Singleton::get")], ["constructor events and addresses seen by accessors", "ThreadSanitizer reports"])

# ---------------------------------------------------------------- items and code
p("I01", "An item gives back the value it was built from",
  "An item built from a boolean, a character, a byte, a signed or unsigned 32- or 64-bit integer, a double, a C or C++ string or a big number returns that same value from the typed getter of its kind, and its integer, truth and text conversions and its type name follow from the value: integers within the signed 64-bit range in decimal, doubles and big numbers with six significant digits and truncated to integer, booleans as true/false, the empty item as nil, zero and false, strings unchanged whatever characters they hold, and their leading decimal number as integer, whatever the global locale is. Building an item from any other type, or asking it for one, is refused with the invalid-argument error, changes nothing and leaks nothing.",
  ["inputs"], "all values of all supported types",
  "Four cases with four values; the typed getters are never instantiated.",
  IT, [("constructor dispatch on type", H + "engine/item.h"), ("handlers", H + "engine/*handler.h")], ["get, toInt, toBool, toString, typeName results"])
p("I02", "Items and handlers own their values and release them exactly once",
  "Copying or assigning an item, temporary and self-assignment included, gives an item with an equal value of its own: later changes to or destruction of either do not affect the other, and every value an item holds is released exactly once. A value obtained from a handler's allocation is a valid default value of that handler's type and is fully released by the same handler's destroy. A handler tells its values to be flat exactly when they hold no storage of their own.",
  ["inputs", "histories"], "all sequences of construction, copy, assignment, container storage and destruction over all item types, and all handlers",
  "No test copies an item or calls a handler's allocation.",
  IT, [("item destructor through the handler", H + "engine/item.h"), ("allocate/destroy", H + "engine/deephandler.h")], ["allocation accounting", "AddressSanitizer reports", "values after operations"])
p("I03", "Item conversions are total",
  "Converting any item to integer, truth value or text always returns normally, without undefined behaviour and without terminating the program: a string that does not begin with a number converts to zero, and a string, double or big number beyond the 64-bit range to the nearest representable integer, not-a-number of a double to zero.",
  ["inputs"], "all strings, all doubles including infinities and NaN, all big numbers",
  "The only conversion tested is that of \"100\".",
  IT, [("toInt of string, float and big number handlers", H + "engine/stringhandler.h, floathandler.h, bignumhandler.h")], ["results and process survival", "UndefinedBehaviorSanitizer (float-cast-overflow)"])
p("I04", "Distinct items and code can be used by several threads at once",
  "Threads that build, copy, convert and destroy items, handler allocations, code objects and compilers of their own, or that only read and copy shared ones, obtain the same results as if each worked alone, and never race on data.",
  ["schedules", "inputs", "histories"], "all interleavings of operations on distinct objects and of read-only operations on shared ones",
  "No test uses items or code from more than one thread.",
  IT + ["src/engine/code.cpp", "src/engine/compiler.cpp"], [("stateless shared handlers", "src/engine/handlerfactory.cpp"), ("conversions over local streams", H + "engine/inthandler.h")], ["conversion results per thread", "ThreadSanitizer reports"])
p("I05", "Items work during the whole life of a program",
  "Items, their handlers, code objects and compilers can be built, copied, assigned, converted and destroyed at any moment of a program: by the initialisers and destructors of static objects of any source and whatever the order of construction, by those of objects of threads, by functions called at exit and by threads that run until the process is no more. Each gives its own value all along, and the program ends with the status it asked for.",
  ["programs", "schedules", "histories"], "all orders of construction and destruction of objects of static and thread storage, all ways to end a program",
  "No test holds an item beyond the body of a case.",
  IT + ["src/engine/code.cpp", "src/engine/compiler.cpp"], [("the handlers shared by all items", "src/engine/handlerfactory.cpp"), ("Item::~Item, clone", H + "engine/item.h")], ["values told by the objects of a program before, during and after main", "exit status", "AddressSanitizer reports"])
p("C01", "Code renders the source it was built from and owns its data",
  "A code object renders exactly the source text it was built from, whatever its length and characters, and so do its copies, its move target and objects assigned from it; each lives independently of the others and releases its memory exactly once, and a moved-from object can still be rendered, assigned and destroyed. Compiling a one-word source gives code that renders that word, an empty or failed source code that renders nothing, and what a stream is asked to throw reaches the caller.",
  ["inputs", "histories"], "all source lengths and contents, all sequences of construction, copy, move, assignment and destruction",
  "One case compiles the one-character source \"0\" and never copies the result.",
  ["src/engine/code.cpp", H + "engine/code.h", "src/engine/compiler.cpp", H + "engine/compiler.h"], [("source copy and data buffer", "src/engine/code.cpp"), ("Compiler::compile", "src/engine/compiler.cpp")],
  ["toString results", "allocation accounting", "AddressSanitizer reports"])
p("D01", "Distribution assigns consecutive elements to its targets",
  "Distributing an iterator over n targets assigns to the k-th target the k-th element starting from the iterator's position, reads each of those elements exactly once and in order, and never reads or steps beyond the n-th, for every iterator category and target type convertible from the element.",
  ["inputs"], "all sequences, iterator kinds and numbers and types of targets",
  "It is only used through the stack's peeks on short stacks.",
  [H + "engine/distribute.h"], [("recursive distribute", H + "engine/distribute.h")], ["dereference/increment events of an instrumented iterator", "assigned values"])

# ---------------------------------------------------------------- unit test framework
p("T01", "The test framework's verdicts are truthful",
  "A test case is counted as passed if and only if its set-up, body and tear-down ran to completion without a failed check, an explicit failure, an exception or captured output on standard error; the unit test program exits with zero if and only if every case it ran passed. The reported status, failure text, file and line of a failed case are those of the failure, the summary names exactly the cases that ran and failed, and component results agree with their cases.",
  ["programs", "configurations", "histories"], "all combinations of outcomes of set-up, body and tear-down over any set of cases, components and options",
  "The framework's own tests cover a handful of single-case outcomes, one of them with an inverted condition that checks nothing.",
  FUT, [("status computation", "src/fut/testcase.cpp:TestCase::run"), ("hasPassed, exit status, report", "src/fut/unittest.cpp")], ["exit status", "printed report", "XML report"])
p("T02", "Each selected test case runs exactly once with its fixture",
  "A run executes each registered case exactly once, or each case named by an option once per naming and no other; cases of a component run consecutively in registration order and components in lexicographic order. For each execution the set-up runs before the body and the tear-down after it, whether the body passes, fails or throws, with the body skipped only when the set-up throws, and no failure or exception of one case keeps a later case from running.",
  ["programs", "configurations"], "all sets of components and cases, all selections, all outcomes",
  "The only fixture test returns before performing the test.",
  FUT, [("component grouping and loop", "src/fut/unittest.cpp:UnitTest::runAllTests"), ("SetUp/test/TearDown", "src/fut/testcase.cpp:TestCase::run"), ("TEST/TEST_F registration", H + "fut/fut.h")], ["event log written by instrumented cases"])
p("T03", "Output capture is complete, attributed and undone",
  "Unless capture is disabled, everything a case writes to the program's output and error streams during its execution, whatever characters, is captured for that execution alone and shown, whole and under its name, exactly when the verbosity asks for it; nothing else appears, and in silent mode nothing is printed at all. After every case, also a throwing one, both streams write where and how they wrote before. With capture disabled the output passes through unchanged.",
  ["programs", "configurations"], "all outputs, outcomes, verbosity levels and options",
  "fut_verbosity looks for one sentence in five single-case runs.",
  FUT, [("stream buffer swap", "src/fut/testcase.cpp:TestCase::beginTest, endTest"), ("verbosity rules", "src/fut/unittest.cpp:UnitTest::endTest")], ["stdout/stderr of the test program", "stream buffers after each case"])
p("T04", "The XML report is well-formed and agrees with the run",
  "Whatever the names, failure texts and exception messages, as long as they are valid UTF-8, the XML report asked for is a well-formed document that lists exactly the executed cases under their components with the right test and failure counts, a failure element for exactly the failed cases, and the failure texts recoverable unchanged except for characters XML cannot represent, whatever locale the cases leave in force.",
  ["inputs", "programs"], "all texts (any UTF-8, markup, quotes, control characters) and outcomes",
  "No test asks for the XML report.",
  FUT, [("saveToXML", "src/fut/unittest.cpp:UnitTest::saveToXML")], ["the report parsed by an XML parser"])
p("T05", "The unit test command line does what it documents or refuses",
  "Every documented option, in any order and combination, has its documented effect - verbosity, quiet mode, selection of cases, name and identifier, report file, capture - and the defaults derive from the program's file name. An unknown option, a missing argument, an out-of-range verbosity or an unknown case name runs no test and exits non-zero; asking for help prints the usage and runs nothing.",
  ["inputs", "configurations"], "all argument vectors",
  "Programs are run with no option or with -v 5.",
  FUT, [("parseParams, detectTestName", "src/fut/unittest.cpp")], ["exit status, printed text, report, event log"])
p("T06", "The check macros decide correctly and report where they failed",
  "Each comparison, string, truth, floating-point and exception check passes exactly when its documented relation holds between its operands, whatever expressions they are; a failed comparison ends the test body at once and is reported with the failing file, line and expression text and the actual value. Floating-point equality of values of a magnitude up to a billion holds when they differ by rounding only and fails when they differ by more than a ten-thousandth; evaluating a passing check evaluates each operand once.",
  ["inputs", "programs"], "all operand values and expression shapes",
  "fut_checks exercises each macro with one or two values and only in the passing direction.",
  [H + "fut/fut.h", "src/fut/testcase.cpp"], [("FALCON_TEST_CHECK_LOGIC and friends", H + "fut/fut.h"), ("checkFail", "src/fut/testcase.cpp")], ["status, failDesc, failLine after running instrumented bodies"])
p("T07", "Reported elapsed times are those of the executions",
  "The elapsed time told for a case - by its accessors during and after the run, in the printed results and in the XML report - is never less than the time its body took nor more than the time between the end of the previous case and the start of the next, whether the case passes, fails or throws in any phase and however often it is run; the times of components and of the whole unit test are never less than those of the bodies they comprise nor more than the time that passed around them.",
  ["programs", "histories"], "all outcomes, phases and durations",
  "fut_timing looks at one passing case of a fixed duration.",
  FUT + [H + "fut/timelapse.h"], [("time marks", "src/fut/testcase.cpp:TestCase::run"), ("TimeLapse", H + "fut/timelapse.h"), ("component and total times", "src/fut/unittest.cpp:UnitTest::runAllTests")], ["elapsedTime(), elapsedTimeNow(), printed report, XML report, against the times recorded by the cases"])
p("T08", "Time marks, lapses and waits are those of the clock",
  "A time mark is the wall clock's time in milliseconds at a moment of the call that made it, in whatever thread; the lapse between two marks is their difference, and the lapse up to now is the time passed since its beginning was marked, whatever was asked in between. Waiting for any number of milliseconds returns no sooner than that time has passed, from none to more than any program lasts and whatever signals are handled meanwhile, and does return.",
  ["inputs", "schedules"], "all durations, sequences of marks, threads and signal arrivals",
  "No test calls these functions directly.",
  [H + "fut/timelapse.h", H + "fut/marktime.h", "src/fut/marktime-unix.c++"], [("marks and waits", "src/fut/marktime-unix.c++:markTime, waitTime"), ("lapses", H + "fut/timelapse.h:TimeLapse")], ["marks, lapses and returns of waits against clocks read around each call"])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
