#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, sys
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
                  "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
                  "mechanism": [{"name": a, "where": b} for a, b in mech],
                  "observe_at": observe or [], "hook_needed": None}})

p("P01", "Integer and float max/min return the exact extreme argument",
  "For every pair of integers, the maximum and minimum helpers (int and int64) return exactly one of the two arguments, and it is the larger, respectively smaller, one. For every pair of floats that are not NaN, the float32 and float64 helpers return the larger, respectively smaller, argument, and a NaN argument yields NaN unless the other argument is the infinity that wins.",
  ["inputs"], "all pairs of 64-bit integers, float64 and float32 bit patterns",
  "the tests compare a handful of one-digit numbers; rounding only shows for integers that do not fit a 53-bit mantissa",
  ["xmath/xmath.go"], [("comparison of the two arguments", "xmath/xmath.go")], observe=["return values of MaxInt, MinInt, MaxInt64, MinInt64, MaxFloat64, MinFloat64, MaxFloat32, MinFloat32"])

p("P02", "Fixed-width binary values round-trip in big-endian order",
  "Writing any bool, 16-bit or 32-bit unsigned value puts exactly 1, 2 or 4 bytes on the stream, most significant byte first (true is 1, false is 0), and reading them back yields the same value and consumes exactly those bytes. This holds however the reader fragments its data, including readers that return one byte at a time, empty reads without error, or data together with the end-of-file error, and for any sequence of values written one after the other.",
  ["inputs", "histories"], "all values, all sequences of values, all legal fragmentations of the reader",
  "tests read from in-memory readers that never fragment and write one small value each",
  ["xbinary/xbinary.go", "xbytes/pool.go"], [("full read of the fixed-width buffer", "xbinary/xbinary.go: ReadUint16, ReadUint32, ReadBool"), ("byte order of the writers", "xbinary/xbinary.go: WriteUint16, WriteUint32, WriteBool")],
  observe=["bytes received by the io.Writer", "values and errors returned"])

p("P03", "Length-prefixed byte strings round-trip or are refused",
  "Writing a byte string emits its length as two big-endian bytes followed by the bytes, and reading it back yields an equal byte string and leaves the stream positioned at the next frame, for any sequence of frames and any reader fragmentation. A byte string too long for the two-byte length prefix is refused with an error and nothing misleading is written, never silently truncated or mis-framed.",
  ["inputs", "histories"], "all byte strings, including those longer than 65535 bytes, and all frame sequences",
  "tests use one-byte payloads; the length prefix wraps only above 65535",
  ["xbinary/xbinary.go"], [("length prefix", "xbinary/xbinary.go: WriteBytes"), ("payload read", "xbinary/xbinary.go: ReadBytes")],
  observe=["bytes on the writer", "returned byte string, error and reader position"])

p("P04", "Truncated or failing streams are reported as errors by the codec",
  "If the stream ends or fails before a complete value or frame was read, every decoder returns an error together with the zero value (nil byte string), and never a value assembled from missing or stale bytes. If the underlying writer fails at any point, the encoder returns that error.",
  ["inputs", "fault_sequences"], "every truncation point, every failure point and error value, every fragmentation",
  "tests cut the stream at one or two fixed places; recycled scratch buffers only leak old bytes after earlier operations",
  ["xbinary/xbinary.go", "xbytes/pool.go"], [("error propagation", "xbinary/xbinary.go")], observe=["errors and values returned"])

p("P05", "Pooled byte buffers have the requested shape and are never shared",
  "An allocation returns a buffer whose length is the requested size and whose capacity is the larger of the requested size and capacity. Two buffers that are both in use never share memory, whatever sequence, or concurrent interleaving, of allocations and frees came before, so writing one never changes another, and the content of a buffer in use changes only through its owner.",
  ["inputs", "histories", "schedules"], "all sizes and capacities, all alloc/free histories, all schedules of concurrent callers",
  "tests allocate and free a few sizes and never look for aliasing between live buffers",
  ["xbytes/pool.go", "xsync/map.go"], [("one pool per capacity", "xbytes/pool.go: getOrCreatePool"), ("free by capacity", "xbytes/pool.go: Free")],
  state=[("pool per capacity", "free buffers keyed by exact capacity", "xbytes/pool.go: bytesPoolMap")], observe=["len, cap and contents of returned buffers"])

p("P06", "Pooled buffered readers and writers behave like fresh ones",
  "A buffered reader or writer obtained from the pool delivers exactly the bytes of the stream it was requested for: no byte, error or pending output of an earlier use appears, output reaches only the requested destination, and its buffer is at least as large as the requested size (the standard default when no size is given). Two borrowers, including a caller who passes in a buffered stream of its own, never hold the same object at the same time.",
  ["inputs", "histories", "schedules"], "all sequences of get, use and put with different sizes and streams",
  "tests get and put the same size over one buffer",
  ["xio/buffer.go"], [("reset on get and put", "xio/buffer.go"), ("size check on reuse", "xio/buffer.go")], observe=["bytes read from / written to the streams", "Size()"])

p("P07", "A ring returns exactly its most recent items, oldest first",
  "After any sequence of additions to a ring of size n, taking the items returns the last min(n, number of additions) items in the order they were added, without consuming them, and the returned slice is a snapshot unaffected by later additions. Concurrent additions and takes are safe: every take returns a contiguous window of one single order of all additions, and a size below one is refused.",
  ["inputs", "histories", "schedules"], "all ring sizes, all add/take histories, all schedules",
  "tests use one ring of 4 with 8 additions and no concurrency",
  ["xring/xring.go"], [("modular index and window start", "xring/xring.go: Add, Take"), ("read/write lock", "xring/xring.go")], state=[("index", "number of additions so far", "xring/xring.go")], observe=["result of Take"])

p("P08", "A batch error reports exactly the errors added, in order",
  "Adding nil errors never changes a batch error; with no error added the result is a nil error, with one added the result is that very error, and with more the message is every message in order of addition separated by single line breaks. An error value already obtained does not change when more errors are added later, and the non-nil test agrees with the result.",
  ["inputs", "histories"], "all sequences of nil and non-nil errors with arbitrary messages",
  "tests add at most two errors with fixed messages",
  ["xerror/err.go", "xstring/stringjoiner.go"], [("collection", "xerror/err.go: Add, Err"), ("message", "xerror/err.go: Error")], observe=["Err(), NotNil(), Error()"])

p("P09", "A joiner yields prefix, separated pieces and suffix",
  "After any sequence of writes (string, byte, rune or byte slice), growth hints and resets, the joined text is the prefix, the pieces written since the last reset in order with the separator between neighbouring pieces only, and the suffix. The reported length always equals the length of that text, capacity is at least the length, growth hints never change the text, and write calls report the piece's own byte length and no error.",
  ["inputs", "histories"], "all prefixes, separators, suffixes and operation histories",
  "tests write first and reset or grow only joiners without separator",
  ["xstring/stringjoiner.go"], [("separator before every piece but the first", "xstring/stringjoiner.go"), ("length bookkeeping", "xstring/stringjoiner.go: Len, Cap")], observe=["String(), Len(), Cap()"])

p("P10", "Substring functions select exactly the requested characters",
  "For every valid text and every pair of indices, the substring functions return the characters from start (inclusive) to end (exclusive), counting characters not bytes, with negative indices counting from the end, out-of-range indices clamped to the text, and an empty result when start is not before end. They never panic for any integer arguments, and left part plus right part at the same index is the whole text.",
  ["inputs"], "all valid UTF-8 texts and all integer indices, including the extreme ones",
  "tests use ten index pairs on two texts",
  ["xstring/xstring.go"], [("index normalisation", "xstring/xstring.go: sub")], observe=["Sub, Left, Right"])

p("P11", "Padding reaches the requested width and keeps the text",
  "Padding a text to a width returns the text unchanged when it already has at least that many characters, and otherwise a text of exactly that many characters consisting of the original preceded, followed or surrounded only by the pad character; centre padding puts half of the padding (rounded down) on the left. Repeating a character returns exactly that many copies and the empty text for counts below one.",
  ["inputs"], "all texts, widths and pad characters, including multi-byte ones",
  "tests pad ASCII text with ASCII characters",
  ["xstring/xstring.go"], [("pad count in characters", "xstring/xstring.go: padCharLeftOrRight, PadCenterChar")], observe=["PadLeft*, PadRight*, PadCenter*, RepeatChar"])

p("P12", "Rotate, reverse and shuffle only rearrange characters",
  "Rotating a text moves its characters circularly to the right by the given count (to the left for negative counts, modulo the number of characters); reversing returns the characters in opposite order for every valid text and reports an error exactly for texts that are not valid UTF-8; shuffling returns some permutation of the characters. Multi-byte characters are never split, and reversing twice gives the original text.",
  ["inputs"], "all valid texts (plus arbitrary bytes for reverse), all shift counts, all random choices",
  "tests rotate ASCII only and reverse seven texts",
  ["xstring/xstring.go", "internal/hack/xstring.go"], [("shift modulo length", "xstring/xstring.go: Rotate"), ("rune-wise reversal", "xstring/xstring.go: Reverse"), ("swap", "xstring/xstring.go: Shuffle")], observe=["Rotate, Reverse, MustReverse, Shuffle"])

p("P13", "Deleting characters, substrings or whitespace removes exactly those",
  "Removing a character or all Unicode whitespace from a text returns all other characters in their original order and none of the removed ones, for every valid text including multi-byte ones. Removing a substring removes its successive non-overlapping occurrences from left to right and changes nothing when the substring is empty.",
  ["inputs"], "all valid texts, characters and substrings",
  "tests use ASCII whitespace and two Chinese samples",
  ["xstring/xstring.go"], [("filters", "xstring/xstring.go: RemoveChar, RemoveString, DeleteWhitespace")], observe=["RemoveChar, RemoveString, DeleteWhitespace"])

p("P14", "Difference positions and common prefixes are exact",
  "For any list of valid texts, the reported index of difference is the first character position at which they are not all equal (one text ending counts as a difference there), and -1 when they are all equal or fewer than two are given. The common prefix is the longest text that all start with, and the difference of two texts is the remainder of the second from the first differing position.",
  ["inputs"], "all lists of valid texts",
  "tests compare a few ASCII texts, never three texts that differ at different places",
  ["xstring/xstring.go", "xmath/xmath.go"], [("position scan", "xstring/xstring.go: IndexOfDifference, IndexOfDifferenceWithTwoStr")], observe=["IndexOfDifference, IndexOfDifferenceWithTwoStr, Difference, CommonPrefix"])

p("P15", "Case-sensitive and case-insensitive matching are exact",
  "Two texts are equal ignoring case when they have the same number of characters and corresponding characters have the same upper-case or the same lower-case form, and different when their lengths differ or some corresponding characters are unrelated by any case mapping; containment, suffix and region tests ignoring case hold exactly when some, the last, or the named region of that length is equal in that sense, and the case-sensitive variants when it is identical. Region tests with negative or out-of-range positions are false and no argument makes any of them panic; the any-of variants hold exactly when one of the listed texts matches.",
  ["inputs"], "all valid texts and all integer region bounds",
  "tests have no pair where one text is a case-folded prefix of the other and never use region tests out of range",
  ["xstring/xstring.go"], [("region comparison", "xstring/xstring.go: RegionMatches"), ("length checks", "xstring/xstring.go: EqualsIgnoreCase, EndsWith, ContainsIgnoreCase")], observe=["EqualsIgnoreCase, ContainsIgnoreCase, EndsWith*, RegionMatches, EqualsAny, EndsWithAny"])

p("P16", "Abbreviation fits the width and keeps a contiguous part of the text",
  "For every non-empty valid text and marker, abbreviating to a width returns the text unchanged if it fits, an error if the width cannot hold the marker (both markers, when text is dropped on both sides) plus one character, and otherwise a result of exactly that many characters. That result is a contiguous part of the text with the marker exactly at each end where text was dropped: the part starts at the requested offset (clamped to the text and moved back as far as needed for the rest to fill the width), except that the beginning is kept when that start is at most one character past the marker's length.",
  ["inputs"], "all texts, markers, offsets and widths, including negative and huge integers",
  "every test uses offset 0, so the offset branches are never executed",
  ["xstring/xstring.go"], [("window selection", "xstring/xstring.go: Abbreviate")], observe=["Abbreviate"])

p("P17", "Text classification answers match their character-class definition",
  "For every text: alphabetic, alphanumeric and numeric tests hold exactly when the text is non-empty and all characters are letters, letters or digits, respectively digits; the numerical test holds exactly for digits optionally followed by one decimal point and further digits. A text is blank exactly when all characters are whitespace (so also when empty), the any/none/not variants are the corresponding combinations over all arguments (an empty argument list counts as having a blank and an empty one), and default-if-blank / default-if-empty return the default exactly then.",
  ["inputs"], "all texts, all argument lists",
  "tests try a dozen samples; a wrong separator such as 1x2 is not among them",
  ["xstring/xstring.go"], [("character loops", "xstring/xstring.go: IsAlpha, IsAlphanumeric, IsNumeric, IsBlank"), ("pattern", "xstring/xstring.go: IsNumerical")], observe=["Is*, Default*"])

p("P18", "Search and trim helpers return the true first match and minimal trim",
  "The substring searches report containment exactly when an occurrence exists and the byte index of the first one, or -1, with an empty text containing nothing; the any-of search reports exactly whether one listed substring occurs. The trim helpers return the longest part of the text that does not begin (and/or end) with a character of the cut set or whitespace, and character counting counts decoded characters.",
  ["inputs"], "all texts, substrings and cut sets",
  "tests use fixed samples",
  ["xstring/xstring.go"], [("delegation to the standard library", "xstring/xstring.go: Contains, Index, IndexAny, ContainsAnySubstrings, Trim*, Len")], observe=["Contains, Index, IndexAny, ContainsAnySubstrings, Trim, TrimLeft, TrimRight, TrimSpace, Len"])

p("P19", "Zero-copy conversions preserve content and never over-extend",
  "Converting a text to bytes or bytes to a text yields the same bytes and length for every input, including the empty one, without copying. The byte slice made from a text has no spare capacity, so appending to it never writes into memory behind the text.",
  ["inputs"], "all byte strings",
  "one sample per direction is tested and capacity is never inspected",
  ["internal/hack/xstring.go"], [("header conversion", "internal/hack/xstring.go")], observe=["StringToBytes, BytesToString"])

p("P20", "The map behaves as a dictionary for every operation history",
  "For every history of stores, loads, load-or-stores, load-and-deletes, deletes, compute-if-absent, compute-if-present, clears and ranges issued one after the other, each result equals that of a plain dictionary, including after entries were deleted and re-created any number of times. A range visits every present key exactly once with its value and stops as soon as the callback says so; compute functions are called at most once per such call, only when the key is absent, respectively present, and receive the current value.",
  ["histories", "inputs"], "all operation histories over keys that may coincide",
  "the random tests never call range or clear in mid-history, ignore the compute results and rarely drive an entry through delete, expunge and re-creation",
  ["xsync/map.go"], [("read/dirty promotion", "xsync/map.go: missLocked, dirtyLocked"), ("expunge protocol", "xsync/map.go: tryExpungeLocked, unexpungeLocked")], state=[("read, dirty, misses", "two-level table and promotion counter", "xsync/map.go")], observe=["all methods of the map"])

p("P21", "Concurrent map operations are linearizable and free of data races",
  "When several goroutines use one map at the same time, the results of all operations (load, store, load-or-store, load-and-delete, delete, clear) are explained by some sequential order that respects which operation finished before which started, no update is lost, and a finished operation is visible to every later one. No schedule leads to a data race, crash or deadlock, and a range running concurrently visits no key twice and no value that the key never had.",
  ["schedules", "histories"], "all interleavings of concurrent operations on shared keys from any reachable prior state",
  "the stress tests see a few thousand schedules and only test the standard library's map or disjoint keys; they never clear concurrently",
  ["xsync/map.go"], [("lock-free fast paths", "xsync/map.go: tryStore, tryLoadOrStore, delete"), ("locked slow paths with re-check", "xsync/map.go")], observe=["results of concurrent calls"])

p("P22", "Map compute operations are atomic",
  "When goroutines compute on the same key at the same time, compute-if-absent stores at most one computed value per absence and every caller gets the stored one, and compute-if-present applies every update to the latest value, so n concurrent increments of a present counter add exactly n. A compute function that panics leaves the map unchanged for that key and fully usable by everybody.",
  ["schedules", "fault_sequences"], "all interleavings of compute operations with each other and with store and delete, and panics in the callback",
  "tests call the compute operations from one goroutine",
  ["xsync/map.go", "xsync/shared_map.go"], [("compare-and-swap retry", "xsync/map.go: tryComputeIfAbsent, tryComputeIfPresent")], observe=["results and final contents"])

p("P23", "The sharded map is a dictionary for every shard count and key",
  "A sharded map created with any positive shard count behaves like one dictionary: every key is found again exactly where it was stored, keys never interfere, bulk store stores every pair, has/load/load-or-store/delete/compute/clear agree with the dictionary, and a range visits every pair once and stops across shards when asked to. A shard count below one is refused at construction.",
  ["inputs", "histories", "configurations"], "all string keys, shard counts and operation histories",
  "tests use the default count and one of 10, and never stop a range early",
  ["xsync/shared_map.go", "xsync/map.go"], [("shard selection by hash and mask", "xsync/shared_map.go: GetShard, fnv32, getShardBlockSize")], observe=["all methods of the sharded map"])

p("P24", "The spin lock provides mutual exclusion and can always be re-acquired",
  "At most one goroutine is between a successful lock (or try-lock) and its unlock at any time, writes made in one critical section are visible in the next, and try-lock succeeds exactly when the lock is free and never blocks. After an unlock some waiting goroutine acquires the lock: no schedule deadlocks.",
  ["schedules"], "all interleavings of several goroutines locking, try-locking and unlocking",
  "tests run two goroutines under whatever schedule the runtime picks",
  ["xsync/spinlock.go"], [("compare-and-swap acquire, atomic release", "xsync/spinlock.go")], observe=["critical sections of callers"])

p("P25", "A write-once value keeps exactly the first value",
  "Of all writes to a write-once value, sequential or concurrent, exactly one reports success, every other reports failure without panicking whatever type its value has, and from then on every reader sees that one value; before it, readers see nil. No schedule lets a reader see a value whose write reported failure.",
  ["schedules", "histories", "inputs"], "all interleavings of writers and readers with values of equal or different types",
  "the test writes integers only",
  ["xonce/value.go"], [("compare-and-swap from empty", "xonce/value.go: Write")], observe=["Write and Value results"])

p("P26", "A write-once channel delivers exactly one value and then closes",
  "Of all writes to a write-once channel, sequential or concurrent, exactly one reports success and none of them blocks or panics, whether or not anybody is receiving. The channel delivers exactly that one value (to one receiver) and is then closed, so every further receive returns immediately.",
  ["schedules", "histories"], "all interleavings of writers and receivers",
  "one test with one receiver after all writes",
  ["xonce/chan.go"], [("one-shot flag, buffered send, close", "xonce/chan.go: Write")], observe=["Write results and received values"])

p("P27", "The resource manager creates once, shares, and closes every resource",
  "For every key, concurrent and repeated gets return the same resource and the create function runs successfully at most once until the key is removed; a failed creation is reported to the callers waiting for it and not remembered, a get that begins after a removal or a close does not return what was removed or closed, and creating one key does not hold up the others. Closing closes every held resource exactly once and reports all close errors; a creation that finishes during or after the close does not crash, its resource is closed, not leaked, and its get fails; remove reports whether the key was held.",
  ["schedules", "fault_sequences", "histories"], "all interleavings of get, remove and close with failing or succeeding create and close functions",
  "tests use one goroutine and one key",
  ["xsync/resourcemanager.go", "xerror/err.go"], [("single flight per key, re-check under lock", "xsync/resourcemanager.go: Get"), ("close under write lock", "xsync/resourcemanager.go: Close")], state=[("resources", "held resources by key", "xsync/resourcemanager.go")], observe=["Get, Remove, Close results; create and close calls"])

p("P28", "A context-controlled task returns its outcome, cancels promptly, cleans up once",
  "Running a function under a context returns the function's own error if it finishes and the context stays alive, re-raises its panic in the caller, and returns the context's error as soon as the context ends, without starting the function when it has already ended. The cleanup function, if given, runs exactly once before the call returns or panics in every case, and no goroutine of the runner stays blocked after the function itself has finished. A function that panics with nil, or ends its goroutine instead of returning, neither makes the call wait forever nor counts as a success.",
  ["schedules", "fault_sequences"], "all interleavings of completion, panic, cancellation and timeout",
  "tests separate the events by sleeps, so the races between them are never forced",
  ["xtask/do.go"], [("buffered result channels and select", "xtask/do.go: Do")], observe=["returned error or panic, cleanup calls, remaining goroutines"])

p("P29", "Retry runs until first success and reports every failure",
  "A function run with retries is called at least once and again after each failure, until it succeeds or the configured number of retries (default 3) has been used in addition to the first call, whichever comes first, and never after a success. The result is nil exactly if some call succeeded, and otherwise carries the error of every call in order.",
  ["inputs", "fault_sequences", "configurations"], "all retry counts, including zero and negative ones, and all success/failure sequences",
  "tests try three fixed sequences",
  ["xtask/retry.go", "xerror/err.go"], [("retry loop", "xtask/retry.go: DoWithRetry")], observe=["number of calls and returned error"])

p("P30", "The worker bounds concurrency and runs every accepted function once",
  "While their contexts stay alive, never more functions run at once than the worker's size (and up to that many do), every submitted function runs exactly once, its completion callback runs exactly once after it, and its slot becomes free again after that callback (not before), so later submissions never starve. A function whose context has already ended is not started, but its completion callback still runs and its slot is freed.",
  ["schedules", "configurations"], "all interleavings of submissions, completions and cancellations for any size of at least one",
  "the test counts completions only and never measures concurrency",
  ["xworker/xworker.go", "xtask/do.go"], [("slot channel", "xworker/xworker.go: Run")], observe=["running functions, callbacks"])

p("P31", "Read and write barriers transfer exactly one value or report failure",
  "A barrier write reports success exactly when its value was handed to the channel, and a barrier read reports success exactly when it returns a value received from the channel (not for a closed channel). Once the context has ended, later reads and writes fail without touching the channel, and calls already blocked return with failure instead of waiting forever.",
  ["schedules", "histories"], "all interleavings of reads, writes, cancellation and channel close",
  "tests never block in a barrier and never read from a closed channel",
  ["xbarrier/readbarrier.go", "xbarrier/writebarrier.go"], [("select on context and channel", "xbarrier")], observe=["results of Read and Write, channel contents"])

p("P32", "Map-reduce maps each item once and always closes its output",
  "Without cancellation every generated item is passed to the map function exactly once, with at most the configured number of map calls at a time (one if configured below one), everything written is delivered on the output, and the output is closed exactly once after the last write. On cancellation no further items are started, map functions never crash on a closed output, the output is closed, and the generator is not left blocked forever.",
  ["schedules", "configurations"], "all interleavings of generator, mappers, consumer and cancellation for every worker size",
  "tests cancel only when everything is idle after a one-second sleep",
  ["xmapreduce/xmapreduce.go", "xworker/xworker.go", "xbarrier/writebarrier.go"], [("wait group before close", "xmapreduce/xmapreduce.go: doMap"), ("worker slots", "xworker/xworker.go")], observe=["map calls, output channel, remaining goroutines"])

p("P33", "Order-preserving stream stages compute the list function they name",
  "For every finite input and argument, skip, limit, tail, reverse, sort, distinct, split, split into streams, merge, buffer, peek and ordered/reverse traversal produce exactly the elements the corresponding list operation produces, in that order, and then end. Limits and sizes beyond the number of elements, equal to it, zero, or on an empty stream are handled (a buffer size below zero means unbuffered), negative or otherwise unusable sizes are refused with a panic.",
  ["inputs", "schedules"], "all finite inputs (elements may repeat), all size arguments, all schedules of the stages",
  "tests use inputs of 3-9 fixed elements and a few sizes",
  ["xstream/xstream.go", "xstream/ring.go"], [("counting loops of the stages", "xstream/xstream.go"), ("ring of the last n", "xstream/ring.go")], observe=["elements delivered by the resulting stream"])

p("P34", "Parallel stream stages process each element exactly once within bounds",
  "Map, filter, flat-map, walk and parallel-finish call the user function exactly once per element, deliver all of its outputs exactly once, and run up to, but never more than, the configured work size of calls at the same time (one unless configured, or if configured below one; flat-map skips nil elements). With work size one the output order is the input order; the result ends only after every call has finished.",
  ["schedules", "inputs", "configurations"], "all inputs, work sizes and interleavings of workers and consumer",
  "tests run with work size one or count only",
  ["xstream/xstream.go", "xstream/option.go"], [("slot channel and wait group", "xstream/xstream.go: Walk")], observe=["callback invocations, delivered elements"])

p("P35", "Streams always end: no pipeline of stages deadlocks or leaks",
  "Whatever stages are chained, once the result is consumed to its end, or finished by a short-circuiting operation (any, all, find first, limit), every goroutine started by the stages and by a finite source terminates, for every schedule. A refused argument (panic) does not leave the source blocked, and a map, filter, flat-map, walk or parallel-finish whose function panics on some elements still processes the others and ends, and a panicking generator, peek or distinct function ends the stream.",
  ["schedules", "fault_sequences", "programs"], "all chains of stages, inputs, schedules and panicking callbacks",
  "leak checks run for a few fixed chains with buffered sources that can never block",
  ["xstream/xstream.go"], [("draining of abandoned sources", "xstream/xstream.go: drain"), ("unbounded goroutine pool", "xstream/xstream.go: pool")], observe=["termination of consumers, remaining goroutines"])

p("P36", "Concatenation, copy and grouping lose and duplicate nothing",
  "Concatenating streams delivers every element of every input exactly once and each input's elements in their own order; copying delivers to every copy all elements in source order when all copies are consumed; grouping delivers exactly one group per distinct key, holding all its elements in order. Each ends exactly when all inputs have ended.",
  ["inputs", "schedules"], "all inputs, key functions, buffer sizes and interleavings",
  "tests sort the results or count them for one input",
  ["xstream/xstream.go", "xstream/collection.go"], [("fan-in wait group", "xstream/xstream.go: Concat"), ("fan-out loop", "xstream/xstream.go: Copy"), ("group table", "xstream/xstream.go: Group; xstream/collection.go")], observe=["elements delivered"])

p("P37", "Stream terminals return the right answer",
  "Count returns the number of elements; any-match and all-match return whether some, respectively every, element satisfies the predicate (false, respectively true, for an empty stream) and evaluate no element after the answer is known; find-first and find-last return the first, respectively last, element or the no-element error exactly when the stream is empty. Collectors and for-each see every element exactly once in order.",
  ["inputs", "schedules"], "all finite inputs and predicates",
  "tests use three fixed elements",
  ["xstream/xstream.go", "xstream/collection.go"], [("terminal loops", "xstream/xstream.go")], observe=["return values, callback invocations"])

with open("/verif/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
import jsonschema
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x, s); assert len(x["title"]) <= 80, x["id"]
    n = x["statement"].count(". ") + 1
    assert n <= 3, (x["id"], n)
print(len(P), "properties")
