"""Regenerates properties.jsonl (single source for the property texts)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
C='expression/collections/'; K='expression/core/'; S='expression/system/'; E='expression/effect/'; X='expression/extra/'
p('M01','A Map is observationally a sorted dictionary through every history',
 "After any history of constructions, additions, removals, changes, filters, partitions and mappings, every way of looking at a Map (lookup, membership, size, emptiness, iteration, items, list/sequence conversion, folds from either end, exists/for-all, pick) agrees with a dictionary given the same operations, bindings appear in ascending key order, and the last write to a key wins. The method and the curried module function of the same operation agree, a missing key raises KeyError from indexing/find/pick and gives Nothing from the try-variants, and a change function is called exactly once with the current binding. This also holds for maps of thousands of bindings inserted or removed in any order.",
 ['histories','inputs'],"all finite histories of map operations over totally ordered keys and arbitrary values (including None and other falsy values), through both API styles, sizes up to thousands",
 "a balanced tree has bugs that need particular shapes (rotations, removal of inner nodes, key on the boundary); the existing tests build maps of a few keys and look at one operation each",
 [C+'map.py',C+'maptree.py'],[('insertion/removal/rebalancing',C+'maptree.py: add, remove, change, rebalance, splice_out_successor, mk'),('lookup and traversal',C+'maptree.py: try_find, mem, fold, fold_back, partition, filter, MkIterator'),('public API',C+'map.py: Map and module functions')])
p('M02','Maps are persistent: no operation ever changes an existing Map',
 "Once a Map exists, its bindings, size, order and textual form never change, no matter which operations are applied to it or to maps it shares structure with, whether a callback raises half way, or whether an iterator over it is open while new maps are derived. A callback exception reaches the caller unchanged.",
 ['histories','fault_sequences'],"all branching histories in which each operation starts from any earlier version, callbacks failing at any call, iterators open at any point",
 "sharing bugs only show when an old version is observed after a later operation on a different branch, which example tests never do",
 [C+'map.py',C+'maptree.py'],[('path copying',C+'maptree.py: add, remove, change, rebalance, map'),('iteration state',C+'maptree.py: MkIterator, collapseLHS, to_seq')])
p('M03','Map equality is content equality and agrees with hashing',
 "Two maps are equal exactly when they bind equal keys to equal values, regardless of the histories that produced them, and a map equals nothing that is not a map; equality is reflexive, symmetric and transitive, and inequality is its negation. Equal maps have equal hashes, so they are interchangeable as dictionary keys and set members.",
 ['histories','inputs'],"all pairs and triples of maps with hashable contents, reached along different histories (equal, prefix of each other, one binding apart, unrelated)",
 "equality must not depend on tree shape or on which map is on the left; shape differences need specific insertion/removal orders",
 [C+'map.py'],[('comparison',C+'map.py: Map.__eq__'),('hash',C+'map.py: Map.__hash__')])
p('B01','A Block behaves as an immutable Python sequence under every operation',
 "Every Block operation (construction, cons/append/concatenation, indexing and slicing, head/tail/take/skip and their from-the-end variants, map/starmap/mapi/filter/choose/collect/partition, fold/reduce/sum/forall, sort, zip, indexed, unfold, conversion) yields exactly what the same operation on a plain list yields, with elements preserved by identity and callbacks applied once per element in order. The method and the curried module function agree, empty blocks raise where a list head/reduce would, and no operation changes the block it is applied to. Blocks are equal exactly when their elements are pairwise equal.",
 ['inputs','histories'],"all finite element lists (including falsy elements, duplicates and nested blocks), all argument values including negative and out-of-range counts, all chains of operations",
 "there are some forty operations with boundary arguments each; tests sample one list of ints per operation and never re-observe the source",
 [C+'block.py'],[('operations',C+'block.py: class Block'),('curried functions',C+'block.py: module functions')])
p('S01','Sequence operations compute exactly what the list operations compute',
 "Iterating the result of any chain of sequence operations (map, starmap, mapi, filter, choose, collect, concat, append, skip, take, tail, scan, pairwise, zip, unfold, range, init, delay) yields the elements in order that the corresponding list computation yields; the consumers (fold, fold from the back, head, length, sum, max, min and their by-variants, find-index, pick, to-list, iterate) return the list result. Methods and curried functions agree, and a callback's exception reaches the consumer unchanged.",
 ['inputs','programs'],"all finite sources (list, tuple, range, generator, Block, Seq), all chains of operations with arbitrary callbacks (not raising StopIteration) and counts",
 "composition of lazy stages has a quadratic number of pairs and boundary counts; tests exercise single stages",
 [C+'seq.py'],[('transformations',C+'seq.py: map, filter, collect, concat, skip, take, scan, zip, unfold, SeqGen'),('consumers',C+'seq.py: fold, fold_back, head, try_find_index, try_pick, max_by')])
p('S02','Sequences are lazy, demand-driven and re-iterable',
 "Building a chain of sequence transformations reads nothing from the source and calls no callback; consuming k results reads no more source elements than those k results need, so every transformation works on infinite sources and take(n) never reads past the n-th element. Short-circuiting consumers (head, find-index, pick) stop at the deciding element. A transformed sequence over a repeatable source can be iterated any number of times, also interleaved, giving the same elements each time.",
 ['programs','histories'],"all chains of transformations over infinite or instrumented sources, all consumption prefixes and interleavings of several iterations (callbacks do not raise StopIteration)",
 "laziness and re-iterability are about what does not happen (extra reads, consumed state), which result-comparing tests cannot see",
 [C+'seq.py'],[('deferred generators',C+'seq.py: SeqGen, Seq.__iter__'),('early stop',C+'seq.py: take, head, try_find_index, try_pick')])
p('A01','A TypedArray behaves as a mutable Python list under every history',
 "Through every history of mutations (item and slice assignment, deletion, insert, append, extend, pop, remove, reverse) and observations, a TypedArray agrees with a Python list of the same elements. The transformations (map, filter, choose, collect, take, skip, sort, indexed, tail, unfold, fold, sum ...) return what the list computation returns without changing their source, and later mutation of the result or the source does not affect the other; an array equals another array or a list exactly when their elements are pairwise equal, and nothing else.",
 ['histories','inputs'],"all histories of mutations and transformations over arrays of untyped and typed elements",
 "aliasing between derived arrays and index arithmetic only show in sequences of mutations",
 [C+'array.py'],[('storage',C+'array.py: TypedArray'),('curried functions',C+'array.py: module functions')])
p('A02','Typed storage keeps every in-range value exactly and rejects the rest',
 "An array built from elements of a declared machine type, or with an explicit type code, has that type code and gives back every in-range integer exactly and every float rounded to the declared precision. An integer that does not fit the storage of the type code raises OverflowError (ValueError for bytes) at construction and when stored later (item assignment, insert, append), instead of being silently altered, and leaves the array unchanged; filtering keeps the type code.",
 ['inputs'],"all machine types and type codes, all integers around and beyond their limits, arbitrary floats",
 "the limits of eleven element types times construction and mutation routes are a boundary-value space that tests do not cover",
 [C+'array.py'],[('type selection',C+'array.py: array_from_typecode, array_from_initializer'),('type preserving filter',C+'array.py: TypedArray.filter')])
p('Y01','Async sequences compute the list result, in order and on demand',
 "Iterating the result of any chain of asynchronous sequence operations yields the elements, in order, that the same list computation yields, whatever the pattern of suspensions in the source; the consumers (fold, fold back, head, length, sum, max, min) return the list result and raise ValueError on empty input where a list would. Elements are requested on demand: take(n) never awaits more than n elements, and head only the first.",
 ['programs','schedules'],"all finite async sources with arbitrary suspension patterns and all chains of operations; prefixes of infinite sources (callbacks do not raise StopIteration or StopAsyncIteration)",
 "the existing tests only cover range and map; suspension patterns and over-consumption are never exercised",
 [C+'asyncseq.py'],[('operations',C+'asyncseq.py: class AsyncSeq and module functions')])
p('O01','Option obeys the functor/monad laws and short-circuits exactly on Nothing',
 "Mapping, binding, applying, filtering, star-mapping, combining, defaulting and recovering an option give the value a two-case reference gives, satisfy the functor, monad and applicative laws, and treat any payload (None, 0, empty or nested options included) as a present value that is carried through unchanged. A callback is called exactly once when its value is needed and never otherwise. Conversions to and from optional values, results, lists and sequences lose nothing, and method and module function agree.",
 ['inputs','programs'],"all options with arbitrary payloads and all chains of operations with arbitrary (possibly failing) callbacks",
 "laws quantify over all functions and payloads; truthiness mistakes only show on falsy payloads that tests rarely use",
 [K+'option.py'],[('case analysis',K+'option.py: class Option'),('curried functions',K+'option.py: module functions')])
p('R01','Result obeys the functor/monad laws and propagates errors unchanged',
 "Mapping (either side), binding, applying, combining, filtering, swapping, merging, defaulting and recovering a result give the value a two-case reference gives and satisfy the functor, monad and applicative laws; an error passes every success-side operation unchanged, by identity, and when two results are combined and both failed, the error of the left one wins (for apply, the error of the function). Callbacks run exactly once when needed and never otherwise, for any payload including None and falsy values. Conversions to and from options keep the payload, and method and module function agree.",
 ['inputs','programs'],"all results with arbitrary payloads on both sides and all chains of operations with arbitrary callbacks",
 "laws quantify over all functions, payloads and error precedence combinations",
 [K+'result.py',K+'try_.py'],[('case analysis',K+'result.py: class Result'),('curried functions',K+'result.py: module functions')])
p('O02','Options and results compare, hash and order consistently',
 "Options (and likewise results and tries) are equal exactly when they are the same case with equal payloads, and equal values hash alike. Ordering is a strict total order whenever payloads are: Nothing precedes every Some and Ok precedes every Error, and within a case the payloads decide; sorting any list of them is therefore deterministic and agrees with that order. They never equal a bare payload or a value of the other type.",
 ['inputs'],"all pairs and triples of options, results and tries with arbitrary comparable or hashable payloads, nested ones included",
 "order and hash laws range over pairs and triples; tests compare a few fixed pairs",
 [K+'option.py',K+'result.py',K+'tagged_union.py'],[('derived comparison',K+'tagged_union.py: __eq__, __lt__, __hash__')])
p('U01','A tagged union holds exactly one declared case, immutably when frozen',
 "For every declared union, construction succeeds exactly when one declared case is given (with, if any, a matching tag), and the value then exposes that tag and payload, matches that case only in pattern matching, and is described by its representation and its dataclass dictionary; everything else is rejected with TypeError. Equality, hashing of frozen unions and ordering are by case (in declaration order) and then payload. Case and tag of a frozen value can be neither reassigned nor deleted.",
 ['programs','inputs'],"all union declarations (1-6 cases, options frozen/order/eq/repr), all construction attempts with any subset of names and tags, all payloads",
 "tests declare a handful of unions; the guarantees are about any declaration and any wrong construction",
 [K+'tagged_union.py'],[('constructor',K+'tagged_union.py: __init__'),('comparison/immutability',K+'tagged_union.py: __eq__, __lt__, __hash__, __setattr__, __delattr__')])
p('U02','Copying and pickling preserve options, results, unions and collections',
 "Shallow copy, deep copy and pickling (every protocol) of an option, result, try, user-declared union, Block or Map give a value equal to the original, of the same class, with equal hash where hashable, usable exactly as the original. A shallow copy shares the payload, a deep copy shares no mutable part of it, and none of them affects the original.",
 ['inputs'],"all values built from nested options, results, tries, unions, blocks and maps with plain payloads",
 "nesting depth, payload mutability and pickle protocol multiply; tests cover a few flat values",
 [K+'tagged_union.py',C+'block.py',C+'map.py'],[('state protocol',K+'tagged_union.py: __getstate__, __setstate__, __copy__, __deepcopy__')])
p('J01','Models containing options, results and blocks round-trip through JSON',
 "Any pydantic model whose fields are options, results, blocks, nested models and plain values validates back to an equal model from its own dictionary dump and from its own JSON text, with payloads converted to their declared types. The dump represents Nothing as null, Some by its payload, a result as an object naming its tag and payload, and a block as a list. Data whose payload does not fit the declared type is rejected with a validation error.",
 ['inputs','programs'],"all models composed of these types (nesting up to depth 3, where Some(None)-like payloads are excluded as null is ambiguous) and all values of them",
 "tests check a few fixed models, mostly one direction only",
 [K+'option.py',K+'result.py',C+'block.py'],[('schemas',K+'option.py, '+K+'result.py, '+C+'block.py: __get_pydantic_core_schema__'),('dumps','dict() of Option, Result, Block')])
p('F01','Piping and composing apply the functions left to right, once each',
 "Piping a value through any number of functions equals nesting the calls: each function is called exactly once, left to right, with the previous result (also None or a tuple), and the last result is returned; zero functions return the value itself. Composing any number of functions is the function that pipes, composition is associative with identity as unit, and the two-value, three-value and starred pipes, the pipe method on values, and flip/fst/snd agree with direct application. An exception from one function stops the chain and reaches the caller unchanged.",
 ['programs','inputs'],"all lists of functions (0-20) over arbitrary values, all groupings of a composition",
 "arity-indexed overloads and unusual intermediate values (None, tuples) are not covered by a few fixed chains",
 [K+'pipe.py',K+'compose.py',K+'misc.py'],[('pipes',K+'pipe.py: pipe, pipe2, pipe3, starpipe, PipeMixin'),('composition',K+'compose.py: compose, starcompose')])
p('F02','Curried functions equal the original for every way of passing arguments',
 "For every arity 0-4, a curried function applied one argument at a time, with the remaining positional and keyword arguments in the last call, returns what the original returns for all arguments in order; the flipped variant takes the trailing arguments first and the leading ones afterwards, one at a time. The original is called exactly once, only when the last argument arrives, and a partial application can be reused any number of times without the uses influencing each other.",
 ['programs','inputs'],"all arities, splits of positional/keyword arguments, defaults, and reuse patterns of partial applications",
 "state shared between partial applications only shows when one is reused; argument order only shows with distinguishable arguments at every arity",
 [K+'curry.py'],[('currying',K+'curry.py: _curry, curry, curry_flip, pipeable')])
p('F03','Tail-recursive functions compute the recursion at any depth',
 "A function decorated as tail recursive (plain or async) returns what the ordinary recursion returns, for any number of tail calls (instances of TailCall or of a class derived from it) including hundreds of thousands, passing positional and keyword arguments of each tail call through exactly. Results may be any value, mutually nested tail-recursive functions do not disturb each other, and exceptions reach the caller unchanged.",
 ['inputs','programs'],"all small tail-recursive programs over several parameters (positional and keyword), depths up to 10^5",
 "stack depth and argument passing across bounces need deep and varied recursion",
 [K+'fn.py'],[('trampolines',K+'fn.py: tailrec, tailrec_async')])
p('E01','Effect expressions (option, result, try, seq) run exactly as their programs read',
 "For every program of plain statements, yields, yield-froms, nested expressions and returns, the expression evaluates statements in order, hands each yield/yield-from the payload it asked for, and gives the wrapped return value (the last yielded value, or the builder's empty value, when nothing is returned). The first Nothing/Error ends the expression with exactly that value and no later statement runs; ordinary exceptions propagate unchanged. A seq expression produces all yielded values followed by the returned one, of any number and each time it is iterated; decorated functions can be called repeatedly and take arguments, each call being independent, and a builder's own operations (bind, combine, return, zero, delay, run) called directly, or overridden in a derived builder, mean the same.",
 ['programs','fault_sequences'],"all programs of up to a dozen statements with arbitrary payloads (None and falsy included), effects at every position, nested expressions and exceptions at any point",
 "the guarantee is about every program; each test is one program",
 [K+'builder.py',E+'option.py',E+'result.py',E+'seq.py'],[('interpreter',K+'builder.py: Builder.__call__, _send'),('builders',E+'option.py, result.py, seq.py')])
p('E02','Async effect expressions run as their programs read, under any suspension',
 "For every async program of plain statements, awaits, yields, awaited options/results and nested expressions, the async option/result/try expression evaluates statements in order, hands back each unwrapped payload, and gives the last yielded value wrapped (or the builder's empty value); a body without yields gives its wrapped return value. The first Nothing/Error ends the expression with exactly that value and no later statement runs, ordinary exceptions and cancellation propagate unchanged through the body's handlers, decorated functions take the arguments of the function, and concurrently running expressions do not influence each other.",
 ['programs','schedules','fault_sequences'],"all programs of up to a dozen statements with suspension points anywhere, run alone or interleaved with others",
 "interleavings of several running expressions and effects after a suspension are not reachable by single-task tests",
 [K+'async_builder.py',E+'async_option.py',E+'async_result.py'],[('interpreter',K+'async_builder.py: AsyncBuilder.__call__, _send'),('unwrapping',K+'option.py, '+K+'result.py: __await__')])
p('X01','Pipelines and traversals compose fallible functions with first-error semantics',
 "A pipeline of option- or result-returning functions equals binding them one after the other: functions run left to right, once each, up to and including the first Nothing/Error, which is returned unchanged; the empty pipeline wraps its argument. Traversing a block with a fallible function gives the block of all results in order when all succeed and otherwise the error of the leftmost failing element; sequencing is traversal with the identity.",
 ['inputs','programs'],"all pipelines of 0-12 functions and all blocks (up to thousands of elements), with failures at any set of positions",
 "first-error semantics needs several failures at once in all positions",
 [X+'result/pipeline.py',X+'option/pipeline.py',X+'result/traversable.py'],[('Kleisli composition','pipeline.py: pipeline'),('traversal',X+'result/traversable.py: traverse, sequence')])
p('X02','Catching turns exactly the named exceptions into errors',
 "A function wrapped to catch an exception class returns Ok of its value (or its own result value unchanged), returns Error holding the very exception object when the class or a subclass is raised, and lets every other exception propagate unchanged. Arguments are passed through, the function runs exactly once per call, and stacked wrappers each handle their own class.",
 ['inputs','fault_sequences'],"all exception hierarchies, call signatures, return values (None, falsy, results) and stackings of wrappers",
 "which exceptions are caught is a relation over all class pairs; tests try two",
 [X+'result/catch.py'],[('wrapper',X+'result/catch.py: catch')])
p('P01','Parsers implement ordered-choice grammar semantics with exact positions',
 "For every grammar built from the combinators, and every input, a parser succeeds, with the same value and the same position in the input, exactly when the reference ordered-choice (PEG) recogniser does: sequencing threads the position, alternatives are tried in order from the same position, repetition is greedy and never fails, optional parts backtrack, and nothing beyond what a parser accepts is consumed. Parsing is a pure function of the input, method and function forms agree, literal and character-class parsers accept exactly the characters they name, the number parsers return the numeric value of the longest matching prefix of ASCII digits, and repetition works for input of any length.",
 ['programs','inputs'],"all grammars up to depth 5 over a small alphabet and all inputs (random and derived from the grammar), inputs up to thousands of repetitions",
 "backtracking position errors need particular grammar/input pairs; tests cover a handful of grammars",
 [X+'parser.py'],[('combinators',X+'parser.py: and_then, or_else, many, sep_by, opt, between, bind, sequence'),('number parsers',X+'parser.py: pint, pfloat')])
p('C01','A mailbox delivers every message once, in order, and every reply to its poster',
 "However posting, receiving, suspension and posting from other threads interleave, the messages received are exactly those posted, each once, in posting order (per poster, and overall when posted from one task), no message is lost while a receiver waits, and any value including None is delivered. Every reply channel completes its own poster's wait with exactly the (first) replied value, whether the reply is sent immediately, later, out of order, from another thread, or is None. After cancellation of its token a mailbox body stops: it receives no further message and its pending receive ends; a receive that is itself cancelled or times out loses no message - the next receive gets it - and a receive while another is pending is refused without disturbing it.",
 ['schedules','histories'],"all scripts of posts, ask-reply requests, receives, delays and cancellation over several tasks and threads",
 "ordering and exactly-once are statements about all interleavings; tests run one task posting then sleeping once",
 [K+'mailbox.py',K+'aiotools.py'],[('queue and continuation',K+'mailbox.py: post, receive, __process_events'),('reply rendezvous',K+'mailbox.py: post_and_async_reply')])
p('C02','Cancellation notifies every live registration exactly once',
 "Cancelling a token source (by cancel, dispose or leaving its with-block, any number of times, from any thread) calls every callback that is registered and not yet unregistered exactly once, in registration order, even when other callbacks raise; callbacks unregistered before are never called. All tokens of the source then report cancellation and raise on request, and registering or entering afterwards raises an object-disposed error - so under every interleaving a registration either raises or its callback is called. A token that can never be cancelled accepts registrations and never calls them.",
 ['histories','schedules'],"all histories of register/unregister/cancel (re-entrant ones included) and all thread interleavings of them",
 "lost registrations need a context switch between two statements; re-entrant and failing callbacks are not tested",
 [S+'cancellation.py'],[('listener table and lock',S+'cancellation.py: CancellationTokenSource.dispose, register_internal')])
p('C03','A disposable runs its action exactly once, however and wherever it is disposed',
 "A disposable made from an action runs it exactly once over its life, no matter how often, re-entrantly, or from how many threads it is disposed, and whether disposal comes from a call or from leaving a with-block normally or by an exception, which is never swallowed; entering a disposed one raises an object-disposed error. The same holds for async disposables, and a composite disposes each of its members exactly once, in order.",
 ['histories','schedules','fault_sequences'],"all histories of enter/exit/dispose with failing bodies or actions, nesting, tasks and threads",
 "exactly-once under races and re-entrancy cannot be sampled by sequential tests",
 [S+'disposable.py'],[('once guard',S+'disposable.py: AnonymousDisposable.dispose, AsyncAnonymousDisposable.dispose_async'),('composite',S+'disposable.py: AsyncCompositeDisposable')])
p('C04','Started and continuation-based computations complete exactly as signalled',
 "An awaitable made from continuations completes with the first continuation called (value, exception, or cancellation), whether called at once, later, or from another thread, and ignores all further calls, also those made after the wait was given up. Starting a computation runs it to completion without awaiting it, delivers its side effects exactly once, and cancels it - also from another thread - when the given token is cancelled first; running synchronously returns its value (None and falsy included) or raises its exception unchanged, the lifted constants give back their value, and sleeping suspends for the given number of milliseconds.",
 ['schedules','inputs','fault_sequences'],"all orders and delays of continuation calls, all interleavings of start, completion and cancellation",
 "first-wins and cancellation races are about orderings; there are no tests of this module",
 [K+'aiotools.py'],[('continuations',K+'aiotools.py: from_continuations'),('starting',K+'aiotools.py: start, start_immediate, run_synchronously')])
p('D01','Casts never change a value and succeed exactly for instances',
 "Upcasting returns the value itself; downcasting returns the value itself when it is an instance of the requested class and raises AssertionError otherwise; the trying variant returns the value itself when it is an instance of the class (or of the generic's origin class) and None otherwise.",
 ['inputs'],"all class hierarchies (multiple inheritance, builtins, generics) and values, including falsy ones",
 "instance relations range over all class pairs; falsy instances are easily mistaken for failure",
 [K+'typing.py'],[('casts',K+'typing.py: upcast, downcast, try_downcast')])
p('T01','Textual and dictionary forms describe the value completely',
 "The text of an option, result or try is its case name followed by the text of its payload (Nothing alone when empty), the representation of these and of every union is the type name with the case and the representation of its payload, and blocks, arrays, sequences and maps list the text of all their elements in order (a sequence its first hundred, then an ellipsis), however deeply values are nested. The dictionary form of Nothing is null, of Some the form of its payload, of a result an object with its tag and the form of its payload, of a block or sequence the forms of all elements, and any other payload is given as it is. Asking for a form changes nothing and gives the same every time.",
 ['inputs'],"all nestings of options, results, tries, unions, blocks, maps, sequences and arrays over arbitrary payloads, up to hundreds of elements",
 "faults show for particular payloads (quotes, None, nested values, more than a hundred elements) only",
 [K+'option.py',K+'result.py',K+'tagged_union.py',C+'block.py',C+'map.py',C+'seq.py'],[('text','__str__ and __repr__ of each type'),('dictionary form','dict() of Option, Result, Block, Seq')])
p('H01','Values and functions of the library can be shared without influencing each other',
 "Options, results, unions, blocks, maps, re-iterable sequences, composed, curried, tail-recursive, effect-decorated and exception-catching functions, pipelines and parsers can be used from several threads at the same time, and again from inside their own callbacks: every use returns exactly what it returns alone, under every interleaving, and leaves nothing behind. A callback that raises ends only the use it belongs to.",
 ['schedules','histories'],"all interleavings of uses of shared objects by two or three threads, and all nestings of one use inside a callback of another",
 "state kept between steps of one use shows only when another use runs in between; every test runs one use at a time",
 [K+'builder.py',K+'fn.py',K+'curry.py',K+'tagged_union.py',C+'map.py',C+'seq.py',X+'parser.py'],[('effect interpreter',K+'builder.py: Builder.__call__'),('trampoline',K+'fn.py: tailrec'),('sequence generators',C+'seq.py: SeqGen'),('parsers',X+'parser.py')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
