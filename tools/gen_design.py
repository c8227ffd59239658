#!/usr/bin/env python3
"""Writes DESIGN.md: the prose is here, the bounds come from the harnesses'
"Bounds:" comments, the planted bugs from seeded/ and tools/seed_results.txt."""
import json, re, glob, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]

bounds = {}
for f in sorted(glob.glob(V + '/harness/*/*.go')):
    cur = []
    for l in open(f):
        if l.startswith('//'):
            cur.append(l[2:].strip())
            continue
        m = re.match(r'func (P\d\d)_(\w+)\(\)', l)
        if m:
            t = ' '.join(cur)
            b = t.split('Bounds:', 1)[1].strip() if 'Bounds:' in t else ''
            head = t.split('Bounds:', 1)[0].strip()
            head = head.split(': ', 1)[1] if ': ' in head else head
            bounds.setdefault(m.group(1), []).append((m.group(2), head.rstrip('.'), b))
        cur = []

# oracle: what the result is compared with; reach: what the tests cannot do and this can;
# outside: what is not covered beyond the bounds.
T = {
'P01': ('Arguments are 64-bit integer variables or all float bit patterns (SMT FloatingPoint). Oracle: the result is one of the arguments, at least (at most) both; NaN and infinities by definition.',
        'The solver rules out every one of the 2^128 argument pairs, including those above 2^53 where the original code lost precision.',
        ''),
'P02': ('The writer is a stand-in collecting the bytes; the reader hands them out in pieces whose sizes are solver/choice variables. Oracle: big-endian byte formula and equality of the value read back.',
        'Every value and every fragmentation of the stream, with pools that may return any earlier buffer or none.',
        'streams that violate the io contracts.'),
'P03': ('As P02 with frames of arbitrary bytes; oracle: frame read back equals the frame written, earlier frames unchanged, a frame above 65535 bytes is refused with nothing written.',
        'Every content, fragmentation and pool behaviour; lengths just around 2^16.',
        'frame lengths between the listed ones.'),
'P04': ('Readers that end or fail after any number of bytes and writers that fail after any number of bytes; oracle: an error whenever fewer bytes than the encoding were transferred, never a value.',
        'The failure position is quantified over every byte of every encoding, after any pooled leftovers.',
        'which error is reported for a truncated frame payload (io.EOF and io.ErrUnexpectedEOF are both accepted).'),
'P05': ('Buffers carry ownership marks: the sync.Pool model returns any pooled buffer or none; oracle: length, capacity and that no live buffer shares memory with another. Data races in the happens-before sense are violations.',
        'Pool behaviour (which buffer, or a new one) is a choice variable, and all interleavings of the first allocation of a size are explored.',
        'freeing the same buffer twice, using a buffer after freeing it.'),
'P06': ('Pool behaviour as in P05; streams are stand-ins. Oracle: a reader (writer) from the pool delivers exactly the bytes of its own stream, with the size asked for.',
        'Every leftover state (partly read, pending output, sticky error) and every pool behaviour.',
        'streams that violate the io contracts.'),
'P07': ('The ring is compared with the list of all items written: the items are solver variables; concurrent histories are decided by lin.Check over order variables.',
        'Every position of the window for every size, with takes at any point and in any interleaving.',
        'more than the stated concurrent takers and adders.'),
'P08': ('Error messages are symbolic bytes; oracle: nil for none, the very error for one, otherwise all messages in order joined as documented.',
        'All contents and mixes of nil and non-nil additions, copies of the batch and later additions.', ''),
'P09': ('Oracle: prefix + pieces joined by the separator + suffix, with symbolic bytes, computed by the harness.',
        'Every history of writes, growth hints and resets.', 'negative growth hints (documented panic of strings.Builder).'),
'P10': ('Characters are decoded symbolically from UTF-8 (lead and continuation bytes as constrained solver variables); positions are 64-bit variables. Oracle: the character list of the text sliced by the documented rule.',
        'Every position including extremes and overflow, characters of each width.', ''),
'P11': ('Oracle: width in characters, the text in its place, only pad characters elsewhere, in the documented pattern.', 'Every text, pad and width in the bounds.', 'widths whose result cannot be allocated.'),
'P12': ('Oracle: rotation and reversal as index formulas over the characters; a shuffle is a permutation (the random source is nondeterministic).', 'Every shift as a 64-bit variable; every outcome of the random source.', ''),
'P13': ('Oracle: the text without the characters (substrings, whitespace) in question, computed character by character.', 'All characters incl. each Unicode space.', ''),
'P14': ('Oracle: first differing character, longest common prefix in characters, by definition.', 'All pairs and lists of texts within the bounds.', ''),
'P15': ('Case folding is the real unicode tables (encoded as formulas over the code point). Oracle: character-by-character equality of the simple folds, region tests by index arithmetic over 64-bit positions.', 'Special folds (K/Kelvin sign, long s, dotted i), positions that overflow.', 'folds that map one character to several.'),
'P16': ('Oracle: result of exactly the width, made of the marker and one contiguous part of the text that starts where the statement says; refusals as stated.', 'All offsets and widths as 64-bit variables.', 'empty markers and texts that are not valid UTF-8 (only checked for not panicking).'),
'P17': ('Oracle: the class predicate over every character, using the same Unicode tables as the standard library, encoded as formulas.', 'Every code point rather than sampled ones.', ''),
'P18': ('Oracle: least index, least match, minimal trim by definition over characters.', 'All contents, cut sets and positions within the bounds.', ''),
'P19': ('The executor models slice and string headers over one memory; oracle: content equal, capacity equals length, no byte outside the original reachable.', 'Header confusion is visible to the executor for any content.', 'writing to the bytes of a constant text (documented as unsafe).'),
'P20': ('Oracle: a small association list kept next to the map. Prepared states put the map in each internal shape (clean, dirty, promoted, deleted, expunged entries).', 'Every operation sequence from every internal shape, each iteration order, symbolic keys that may coincide.', 'operations on the map from inside a compute function (documented deadlock).'),
'P21': ('Operations are recorded with call and return stamps that are order variables; the linearizability formula over stamps and results is decided by the solver (lin.Check), races by vector clocks.', 'All interleavings of two or three operations from each internal shape; the map has windows two instructions wide.', 'more operations per goroutine; weak-memory effects beyond the happens-before race check.'),
'P22': ('As P21; the compute functions record their input, the result must equal some serial order, and panicking functions must leave the map usable.', 'Lost updates and double applications need an interleaving inside the compute window.', 're-entrant use of the map inside a compute function.'),
'P23': ('Oracle: one dictionary; shard choice is executed symbolically (the hash is encoded), so keys of arbitrary bytes reach every shard.', 'Every shard count in the bounds and every key, including ones that hash to the sign boundary.', 'shard counts above 2^31; bulk store, clear and range are not one atomic step across shards (not promised).'),
'P24': ('Sections record stamps (order variables) and unsynchronised memory; decided: at most one holder, the history of lock words, visibility, and that lock calls return. Data races on the guarded memory are violations.', 'All interleavings of the critical sections and give-way points.', 'fairness; unlock of an unlocked lock.'),
'P25': ('Recorded history decided against a write-once register by lin.Check over order variables.', 'Publication races between the flag and the value.', ''),
'P26': ('Recorded history: exactly one write reports success, its value and only it is received, then closed.', 'All interleavings of writers, receivers and close.', ''),
'P27': ('Counting create and close functions; gets, creations, removals and closes carry order stamps. Decided: one creation at a time and one success per key until removal, same resource for all, failures shared only with gets that were waiting, nothing removed or closed handed to a get that begins later, each resource closed exactly once. Keys are symbolic.', 'The windows inside single-flight (found and repaired here, see a3557cd).', 'create functions that panic or call Goexit; a get called by the create function for the same key (deadlock by design).'),
'P28': ('Order stamps on calls, function, cleanup and cancellation. Decided: outcome, promptness (the call returns although the function is blocked), once-only, order of cleanup; leftover goroutines are violations.', 'All positions of the cancellation relative to start, finish, panic.', 'What exactly the caller sees when the function ends its goroutine (the call must end, with cleanup, and not report success).'),
'P29': ('Oracle: number of calls and list of errors by definition; the retry count is a 64-bit variable where the loop bound allows.', 'Negative and huge counts, errors that are equal or not comparable.', ''),
'P30': ('Spans of user functions are order variables: "never more than size at once" is a formula over all orderings of independent steps.', 'Interleavings of submitters, slot hand-over, context ends.', 'size below 1 and nil functions; a slot is freed when the context ends although the function still runs (by design of Do).'),
'P31': ('Recorded histories decided against a bounded queue that refuses everything once the context has ended (lin.Check over order variables, values symbolic); for unbuffered channels write and read must overlap.', 'The select between both ready cases is a choice, all interleavings are explored.', 'other users of the raw channel closing it while a write is blocked (a Go panic).'),
'P32': ('Counts of generator, map and output calls; spans as order variables for the parallelism bound; leftover goroutines and blocked parties are violations.', 'The cancellation may come between any two steps.', 'map functions that panic, readers that stop reading while the context is alive.'),
'P33': ('Oracle: the list function, over symbolic ints; sizes are 64-bit variables.', 'All sizes, all contents; scheduling deviations.', 'chains longer than two stages of different kinds; FlatMap of nil items.'),
'P34': ('Spans of user functions are order variables; oracle: multiset (sequence for size one) of outputs; every call returned before the result ends.', 'Parallelism bounds over all orderings.', 'more deviations from round-robin than stated.'),
'P35': ('Deadlock detection of the executor: every goroutine must be able to finish; leftover goroutines are violations.', 'Pairs of all 18 stages with every short-circuiting end; functions that panic.', 'streams that are never consumed; panicking comparison functions.'),
'P36': ('Oracle: lists; order within one input; one group per key with keys of any comparable kind; every iteration order of small tables.', 'Scheduling and table orders.', 'copies that are not consumed (they hold up the others, by design).'),
'P37': ('Oracle: the list function, over symbolic ints.', 'All contents, predicate thresholds as variables, scheduling deviations.', ''),
}

out = []
w = out.append
w('''# Solver-based checking of chenquan/go-pkg

All 37 properties in `properties.jsonl` are decided by one technique: the Go
code in /repo is executed symbolically from its SSA form, inputs, environment
behaviour and schedules are variables, and Z3 decides the assertions. No
property had to be listed as not applicable.

(This file is written by `tools/gen_design.py`; the bounds below are the
`Bounds:` comments of the harnesses, which also go into the evidence.)

## How a check works

`check.sh PID TIER` builds the engine (`engine/`, Go, no dependencies beyond
the cached x/tools) and runs it:

1. **Load.** The harness packages of the property, the helper packages
   `sym` and `lin` and the models (`engine/go`) are laid over the current
   working tree of /repo as `internal/zzverif/...` (a `go/packages` overlay:
   nothing is written into /repo). Type checking and `go/ssa` construction
   happen on every run, so the encoding is always that of the current source,
   including the sources of the standard library functions that are reached.
2. **Execute.** The engine interprets SSA instructions over terms
   (bit-vectors of the real widths, IEEE floats, booleans). Memory is a heap
   of cells with real aliasing (slices, strings, maps, interfaces, pointers
   into structs, unsafe header casts). A branch on a symbolic condition asks
   Z3 which sides are feasible and forks. Structural choices (`sym.Choose`,
   lengths, indices that must be concrete) fork.
3. **Decide.** `sym.Assert(c)` asks Z3 whether the negation of `c` is
   satisfiable together with the path condition. Conditions that term
   rewriting already reduces to true are counted as `assertions_trivial`,
   the others as `assertions_discharged_by_solver`. Unsatisfiable queries are
   cached by structure. The older installed Z3 (4.8.12) is asked what the newer one leaves
   unknown; if neither knows, the harness counts as not exhausted.
4. **Replay.** A satisfiable negation gives concrete inputs. For sequential
   code the harness is compiled natively with these inputs and must fail
   there too; otherwise it is printed as UNCONFIRMED and listed in the evidence
   (`counterexamples_not_reproduced`), but it is not reported as a violation. For schedule-dependent
   counterexamples the native run is stressed under the race detector; the
   schedule found by the executor over the real code is the counterexample,
   whether or not the stress run hits it, and it is written to `replay/`.
5. **Cross-check.** On every run, a sample of finished paths is solved for
   concrete inputs and executed natively; every observation must agree
   (`traces_validated_against_impl`). Disagreements are printed as
   TRANSLATION-DISAGREEMENT and counted in the evidence
   (`native_disagreements`; none on the current tree). This guards the
   engine's Go semantics. Where a native run fails an assertion or crashes
   that the executor found true, that is reported as a violation.

Exit codes: 0 held within the bounds explored, 1 violation with the
`VIOLATION property=... replay=...` line, 2 machinery problem (the tree does not
load or build). Each harness marks points that must be reached (`sym.Cover`)
so that an assertion cannot pass vacuously; a point not reached is printed
(MISSING-COVER) and recorded in the evidence (none on the current tree). Quick runs have a budget of 75 s per property, thorough runs of
780 s; a harness that does not finish within it is reported as "not exhausted"
in the evidence (on the unchanged tree all quick runs exhaust their bounds).

### Concurrency

Goroutines, channels, select, mutexes, wait groups, atomics, conditions and
sync.Pool are executed by the engine's scheduler. Each synchronisation
operation is a scheduling point; between them goroutines run alone, and
unsynchronised conflicting accesses are detected with vector clocks and
reported as data races, which makes that reduction sound.

* Default ("every interleaving"): all schedules up to equivalence, by sleep
  sets over the dependency relation of the operations.
* `preempt n`: at most n preemptions; `delay n`: at most n deviations from
  round-robin scheduling. Used where all interleavings are out of reach; the
  bound is part of the harness's stated bounds.
* Moments: `sym.Call/Ret` and `lin.Calls` put *order variables* into the path.
  A path then stands for every ordering of its steps that keeps the order of
  dependent ones, and assertions such as "at most n at once", "b does not
  begin before a has returned", or the linearizability formula of `lin.Check`
  are decided by the solver for all these orderings together with symbolic
  data.
* Deadlock (nobody can move although the harness has not ended), goroutines
  left over at the end (`quiet()`), panics, runtime errors and races are
  violations in every harness.

To be plain about it: the choice of schedule class is a path fork, not a
solver variable; the solver decides the data and the orderings within a class.
The large-size harnesses (`Pxx_Large`, `Pxx_Long`, `Pxx_Many`, `P24_LongWait`)
use sizes far beyond the exhaustive bounds, mostly concrete with a few symbolic
items at the places that matter, to reach thresholds, wrapping counters and
resized tables. Where goroutines are involved they follow one schedule without
preemption and four that rotate: after every 1, 2, 3 or 7 steps of
synchronisation the next goroutine goes on (in these, `sync.Pool` is a stack).
They claim no more than those schedules and sizes.

### Models

Everything else is real code (also of the standard library and
golang.org/x/sync). Replaced by models in `engine/go/stubs` or by engine
intrinsics: `context`; `time.After`, timers, `time.Now/Since/Until` (a timer
fires at any point or, if nothing else can move, eventually; the clock is
monotonic and otherwise arbitrary); `ants.Pool` (goroutine per task, at most
the configured number); `sync.Pool` (get returns any pooled item or none);
`sync.Map` (atomic operations); `fmt` printing of the kinds in use;
`errors.Is`; `sort.Slice` (a real insertion sort through the comparison);
`math/rand` (any value); `strings`/`bytes` search primitives written in
assembly; `runtime.Gosched`, `debug.Stack`; map iteration (every order for
small tables, insertion order for larger ones). Unsupported: `time.NewTicker`,
reflection beyond type names and equality, cgo. Reaching something unsupported
makes the harness "not exhausted", with the reason in the evidence.

Memory model: sequentially consistent interleavings plus the race check.

### What is trusted

The engine's instruction semantics and models (cross-checked natively on every
run), go/ssa, Z3, and the harnesses' oracles.
''')

w('## The properties\n')
cost = {}
p = V + '/tools/quick_times.txt'
if os.path.exists(p):
    for l in open(p):
        a = l.split()
        cost[a[0]] = a[1]
for pr in props:
    i = pr['id']
    o, r, x = T[i]
    w(f"### {i} {pr['title']}\n")
    w(f"*Oracle.* {o}\n")
    w(f"*Beyond tests.* {r}" + (f" Quick run: about {cost[i]} s." if i in cost else '') + '\n')
    w('*Bounds.*\n')
    for n, h, b in bounds[i]:
        w(f'- `{n}` ({h}): {b}')
    w('')
    if x:
        w(f'*Outside.* Anything beyond these bounds; {x}\n')

w('## Defects found and repaired\n')
w('Each was shown by a counterexample on the real code and repaired by one `fix:` commit in /repo; `KNOWN_FINDINGS` has them as `fixed:` entries. No finding is open.\n')
for l in open(V + '/KNOWN_FINDINGS'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        w(f'- {m.group(1)} `{m.group(2)}`: {m.group(3)}')
w('''
False alarms met on the way, and what became of them: the error of a truncated
frame payload (`io.EOF` is accepted besides `io.ErrUnexpectedEOF`); a worker
slot that is free again although the cancelled function still runs (by design
of `Do`, the property now counts functions under live contexts); `Buffer` and
`Copy` with negative sizes (mean unbuffered); stale answers of single-flight in
`P27_Moments` before "at the same time" was taken to include the get that ran
the creation (this one left a true violation behind, see a3557cd); a
`castPtr` shape test that took two identical structs for different ones
(engine); refactorings that used `strings.Builder`, `utf8.FullRune`, timers or
`fmt.Fprintf`, which the engine did not model at first.

## Behaviour-preserving edits

About 75 refactorings of all packages (extracted helpers, reordered
statements, rewritten loops, other primitives of equal meaning such as
`sync.Mutex` for an atomic flag, `strings.Builder` for `bytes.Buffer`, timers
for `time.After`) were run through the quick checks: all quiet, all exhausted,
none in disagreement with the native runs. Harnesses use only exported API, so
they do not depend on how the code is written.

## Planted bugs

`seeded/` holds them; each was confirmed to build, to pass the stable tests
and to fail its demonstration. The table says what the property's quick check
answered.
''')
res = {}
p = V + '/tools/seed_results.txt'
if os.path.exists(p):
    for l in open(p):
        a = l.rstrip('\n').split(' ', 4)
        if len(a) >= 4:
            res[a[0]] = (a[2], a[3], a[4] if len(a) > 4 else '')
w('| bug | what it breaks | answer | by |\n|---|---|---|---|')
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    rc, t, by = res.get(i, ('', '', ''))
    ans = {'rc=1': 'caught', 'rc=0': 'missed', '': 'not run yet'}.get(rc, rc)
    clean = lambda s: s.replace('|', '/').replace('\n', ' ')
    w(f"| {i} | {clean(m['what_it_breaks'])[:220]} | {ans}{' in ' + t if t else ''} | {clean(by)[:110]} |")
w('')
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
print(len(out), 'blocks')
