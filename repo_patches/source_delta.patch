From 92e09792963190fd21114862ae3b64d0939f3e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:19 +0000
Subject: [PATCH 01/31] fix: map.pick raises KeyError when no binding is chosen

Iterating a Nothing raises EffectError, so the KeyError branch was unreachable.
---
 expression/collections/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/map.py b/expression/collections/map.py
index 6dd0b32..4e7ee9c 100644
--- a/expression/collections/map.py
+++ b/expression/collections/map.py
@@ -364,7 +364,7 @@ def try_pick(table: Map[_Key, _Value], chooser: Callable[[_Key, _Value], Option[
 
 @curry_flip(1)
 def pick(table: Map[_Key, _Value], chooser: Callable[[_Key, _Value], Option[_Result]]) -> _Result:
-    for res in table.try_pick(chooser):
+    for res in table.try_pick(chooser).to_list():
         return res
     else:
         raise KeyError()
-- 
2.43.0


From 24e4b0938f5c0b230f55630c6158df6defef26d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:19 +0000
Subject: [PATCH 02/31] fix: Map.change may decline to add an absent key

When the change function returned Nothing for a key whose search ended in an
empty subtree, EffectError leaked to the caller.
---
 expression/collections/maptree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/maptree.py b/expression/collections/maptree.py
index 7f8a54c..710866f 100644
--- a/expression/collections/maptree.py
+++ b/expression/collections/maptree.py
@@ -325,7 +325,7 @@ def change(k: Key, u: Callable[[Option[Value]], Option[Value]], m: MapTree[Key,
                     return m
 
         case _:
-            for v in u(Nothing):
+            for v in u(Nothing).to_list():
                 return Some(MapTreeLeaf(k, v))
             else:
                 return m
-- 
2.43.0


From 57d85123b6392735d103b4cc068cdcdd2ce50088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:19 +0000
Subject: [PATCH 03/31] fix: build maps from iterables of any length

mk_from_iterator recursed once per element, so Map.of_seq, Map.create and
Map.of raised RecursionError for about a thousand bindings.
---
 expression/collections/maptree.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/expression/collections/maptree.py b/expression/collections/maptree.py
index 710866f..a658ca5 100644
--- a/expression/collections/maptree.py
+++ b/expression/collections/maptree.py
@@ -454,12 +454,9 @@ def of_list(xs: Block[tuple[Key, Value]]) -> MapTree[Key, Value]:
 
 
 def mk_from_iterator(acc: MapTree[Key, Value], e: Iterator[tuple[Key, Value]]) -> MapTree[Key, Value]:
-    try:
-        (x, y) = next(e)
-    except StopIteration:
-        return acc
-    else:
-        return mk_from_iterator(add(x, y, acc), e)
+    for x, y in e:
+        acc = add(x, y, acc)
+    return acc
 
 
 def of_seq(xs: Iterable[tuple[Key, Value]]) -> MapTree[Key, Value]:
-- 
2.43.0


From 5b5e85cea76d2b2e870acc0731f3e337c2d9d132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:19 +0000
Subject: [PATCH 04/31] fix: a map is not equal to a map with additional
 bindings

Map.__eq__ returned True when self was a strict prefix of the other map.
---
 expression/collections/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/map.py b/expression/collections/map.py
index 4e7ee9c..0b0d0f0 100644
--- a/expression/collections/map.py
+++ b/expression/collections/map.py
@@ -237,7 +237,7 @@ class Map(Mapping[_Key, _Value], PipeMixin):
             else:
                 if kv != kv_other:
                     return False
-        return True
+        return next(iterator, None) is None
 
     def __bool__(self) -> bool:
         return not maptree.is_empty(self._tree)
-- 
2.43.0


From 3ba6e29f8fdd7b697da95e589ee0373648048735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:09 +0000
Subject: [PATCH 05/31] fix: validate a Result from JSON

The JSON schema passed the validated data as a positional argument, which the
tagged union constructor does not take, so every model_validate_json of a
Result raised TypeError. The tag is now also required to name the case.
---
 expression/core/result.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/expression/core/result.py b/expression/core/result.py
index 384df1a..bd3c300 100644
--- a/expression/core/result.py
+++ b/expression/core/result.py
@@ -333,13 +333,13 @@ class Result(
                     [
                         core_schema.typed_dict_schema(
                             {
-                                "tag": core_schema.typed_dict_field(core_schema.str_schema()),
+                                "tag": core_schema.typed_dict_field(core_schema.literal_schema(["ok"])),
                                 "ok": core_schema.typed_dict_field(ok_schema),
                             }
                         ),
                         core_schema.typed_dict_schema(
                             {
-                                "tag": core_schema.typed_dict_field(core_schema.str_schema()),
+                                "tag": core_schema.typed_dict_field(core_schema.literal_schema(["error"])),
                                 "error": core_schema.typed_dict_field(error_schema),
                             }
                         ),
@@ -347,7 +347,7 @@ class Result(
                 ),
                 # after validating the json data convert it to python
                 core_schema.no_info_before_validator_function(
-                    lambda data: cls(data),
+                    lambda data: cls(**data),
                     python_schema,
                 ),
             ]
-- 
2.43.0


From a8b1e37b1b54611dcb11e5ce2e956b88cb05a7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:14 +0000
Subject: [PATCH 06/31] fix: validate the payload of an Option read from JSON

The JSON schema wrapped the raw data in Some before validation, so the payload
was neither validated nor converted to the declared type.
---
 expression/core/option.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/expression/core/option.py b/expression/core/option.py
index 76d627d..f7077f7 100644
--- a/expression/core/option.py
+++ b/expression/core/option.py
@@ -366,11 +366,8 @@ class Option(
             json_schema=core_schema.chain_schema(
                 [
                     core_schema.any_schema(),
-                    # after validating the json data convert it to python
-                    core_schema.no_info_before_validator_function(
-                        lambda data: cls(some=data) if data is not None else cls(none=data),
-                        python_schema,
-                    ),
+                    # the parsed json data is validated like any other python data
+                    python_schema,
                 ]
             ),
             python_schema=python_schema,
-- 
2.43.0


From a7448ba684c7174590588028c44ba58a4d6ca75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:04 +0000
Subject: [PATCH 07/31] fix: Block.indexed counts from the given start

---
 expression/collections/block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/block.py b/expression/collections/block.py
index 76e305f..351d7d9 100644
--- a/expression/collections/block.py
+++ b/expression/collections/block.py
@@ -219,7 +219,7 @@ class Block(
         Returns:
             The list of indexed elements.
         """
-        return of_seq(enumerate(self))
+        return of_seq(enumerate(self, start))
 
     def item(self, index: int) -> _TSource:
         """Indexes into the list. The first element has index 0.
-- 
2.43.0


From ed93acf335977c2e3cff8872b48f06c483651172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:04 +0000
Subject: [PATCH 08/31] fix: TypedArray.indexed counts from the given start

---
 expression/collections/array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expression/collections/array.py b/expression/collections/array.py
index 3b54c9b..03937e3 100644
--- a/expression/collections/array.py
+++ b/expression/collections/array.py
@@ -305,7 +305,7 @@ class TypedArray(MutableSequence[_TSource], PipeMixin):
         Returns:
             The list of indexed elements.
         """
-        return of_seq(enumerate(self))
+        return of_seq(enumerate(self, start))
 
     def item(self, index: int) -> _TSource:
         """Indexes into the list. The first element has index 0.
@@ -545,7 +545,7 @@ def indexed(
     source: TypedArray[_TSource],
     start: int = 0,
 ) -> TypedArray[tuple[int, _TSource]]:
-    return source.indexed()
+    return source.indexed(start)
 
 
 def is_empty(source: TypedArray[Any]) -> bool:
-- 
2.43.0


From 63f7c5e12ace14d977222c3821f6f614f021a502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:04 +0000
Subject: [PATCH 09/31] fix: seq.mapi is lazy

It consumed the whole source when called, so it never returned for an infinite
sequence.
---
 expression/collections/seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/seq.py b/expression/collections/seq.py
index 76be2b3..2966aac 100644
--- a/expression/collections/seq.py
+++ b/expression/collections/seq.py
@@ -756,7 +756,7 @@ def mapi(source: Iterable[_TSource], mapping: Callable[[int, _TSource], _TResult
     Returns:
         The list of transformed elements.
     """
-    return (*itertools.starmap(mapping, builtins.enumerate(source)),)
+    return SeqGen(lambda: itertools.starmap(mapping, builtins.enumerate(source)))
 
 
 def max(source: Iterable[_TSupportsGreaterThan]) -> _TSupportsGreaterThan:
-- 
2.43.0


From b54cea05a39827132340ecf6877a172e5ef099ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:04 +0000
Subject: [PATCH 10/31] fix: every seq transformation can be iterated more than
 once

filter, scan, zip and unfold returned one-shot iterators, so a second iteration
of e.g. Seq([1, 2]).filter(f) silently produced nothing, unlike map, choose,
collect, skip and take.
---
 expression/collections/seq.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/expression/collections/seq.py b/expression/collections/seq.py
index 2966aac..f56f1e2 100644
--- a/expression/collections/seq.py
+++ b/expression/collections/seq.py
@@ -279,7 +279,7 @@ class Seq(Iterable[_TSource], PipeMixin):
         Returns:
             The resulting sequence of computed states.
         """
-        return Seq(itertools.accumulate(self._value, scanner, initial=state))
+        return Seq(pipe(self, scan(scanner, state)))
 
     def skip(self, count: int) -> Seq[_TSource]:
         """Skip elements from sequence.
@@ -380,7 +380,7 @@ class Seq(Iterable[_TSource], PipeMixin):
         Returns:
             The result sequence.
         """
-        return builtins.zip(self, other)
+        return SeqGen(lambda: builtins.zip(self, other))
 
     def __iter__(self) -> Iterator[_TSource]:
         """Return iterator for sequence."""
@@ -542,7 +542,7 @@ def filter(source: Iterable[_TSource], predicate: Callable[[_TSource], bool]) ->
     Returns:
         A partially applied filter function.
     """
-    return builtins.filter(predicate, source)
+    return SeqGen(lambda: builtins.filter(predicate, source))
 
 
 @curry_flip(1)
@@ -861,7 +861,7 @@ def scan(
         scanner: A function that updates the state with each element
         state: The initial state.
     """
-    return itertools.accumulate(source, scanner, initial=state)
+    return SeqGen(lambda: itertools.accumulate(source, scanner, initial=state))
 
 
 def singleton(item: _TSource) -> Seq[_TSource]:
@@ -1023,13 +1023,17 @@ def unfold(state: _TState, generator: Callable[[_TState], Option[tuple[_TSource,
         A partially applied unfold function that takes the state and
         returns the result list.
     """
-    while True:
-        result = generator(state)
-        if result.is_none():
-            break
+    def gen() -> Iterator[_TSource]:
+        current = state
+        while True:
+            result = generator(current)
+            if result.is_none():
+                break
 
-        item, state = result.value
-        yield item
+            item, current = result.value
+            yield item
+
+    return SeqGen(gen)
 
 
 def zip(
@@ -1063,7 +1067,7 @@ def zip(
         Returns:
             The result sequence.
         """
-        return builtins.zip(source1, source2)
+        return SeqGen(lambda: builtins.zip(source1, source2))
 
     return _zip
 
-- 
2.43.0


From eef32813f59592a91d255e232e24fbd8df990d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:04 +0000
Subject: [PATCH 11/31] fix: AsyncSeq.take does not await an element beyond the
 last one taken

---
 expression/collections/asyncseq.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/expression/collections/asyncseq.py b/expression/collections/asyncseq.py
index 7576da8..87acb8d 100644
--- a/expression/collections/asyncseq.py
+++ b/expression/collections/asyncseq.py
@@ -167,12 +167,14 @@ class AsyncSeq(AsyncIterable[TSource]):
         """Returns the first N elements of the sequence."""
 
         async def _take(source: AsyncIterable[TSource]) -> AsyncIterable[TSource]:
+            if count <= 0:
+                return
             i = 0
             async for value in source:
-                if i >= count:
-                    break
                 yield value
                 i += 1
+                if i >= count:
+                    break
 
         return pipe(self, _take)
 
-- 
2.43.0


From 715de5415a61098a61d8bc7662666f7c1081a957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:04 +0000
Subject: [PATCH 12/31] fix: asyncseq.repeat without a count repeats forever

---
 expression/collections/asyncseq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/asyncseq.py b/expression/collections/asyncseq.py
index 87acb8d..c871546 100644
--- a/expression/collections/asyncseq.py
+++ b/expression/collections/asyncseq.py
@@ -260,7 +260,7 @@ async def empty() -> AsyncIterable[Any]:
 
 
 async def repeat(value: TSource, times: int | None = None) -> AsyncIterable[TSource]:
-    for v in itertools.repeat(value, times or 0):
+    for v in itertools.repeat(value) if times is None else itertools.repeat(value, times):
         yield v
 
 
-- 
2.43.0


From dc214cec9906d0de956b540c0149d576ea4584bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:04 +0000
Subject: [PATCH 13/31] fix: seq expressions may yield any number of values

Every yield wrapped the previous result in another lazy concat, so iterating a
seq expression with more than a few hundred yields raised RecursionError.
---
 expression/effect/seq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expression/effect/seq.py b/expression/effect/seq.py
index 7bf3105..9e00095 100644
--- a/expression/effect/seq.py
+++ b/expression/effect/seq.py
@@ -58,7 +58,8 @@ class SeqBuilder(Builder[_TSource, Iterable[Any]]):
         Returns:
             The concatenated sequences
         """
-        return seq.concat(xs, ys)
+        # Eagerly as in bind; nesting lazy sequences exhausts the stack when iterated
+        return seq.of_iterable([*xs, *ys])
 
     def zero(self) -> Iterable[_TSource]:
         """Return the zero value for sequences.
-- 
2.43.0


From 489444d021ea6261a7cf33a2ea7a81233815148d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:01 +0000
Subject: [PATCH 14/31] fix: repetition parsers accept input of any length

parse_zero_or_more recursed once per repetition, so many, many1, sep_by, pint
and friends raised RecursionError on about a thousand repetitions, and for a
parser that succeeds without consuming input.
---
 expression/extra/parser.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/expression/extra/parser.py b/expression/extra/parser.py
index 1ac1192..5cf2798 100644
--- a/expression/extra/parser.py
+++ b/expression/extra/parser.py
@@ -278,19 +278,20 @@ def pstring(string_input: str) -> Parser[str]:
 
 
 def parse_zero_or_more(parser: Parser[_A], input: Remaining) -> tuple[Block[_A], Remaining]:
-    # run parser with the input
-    first_result = parser.run(input)
-
-    # test the result for Failure/Success
-    match first_result:
-        case Result(tag="ok", ok=(first_value, input_after_first_parse)):
-            # if parse succeeds, call recursively
-            # to get the subsequent values
-            subsequent_values, remaining_input = parse_zero_or_more(parser, input_after_first_parse)
-            values = subsequent_values.cons(first_value)
-            return values, remaining_input
-        case _:
-            return (block.empty, input)
+    values: list[_A] = []
+    while True:
+        # run parser with the input
+        result = parser.run(input)
+
+        # test the result for Failure/Success
+        match result:
+            case Result(tag="ok", ok=(value, remaining)) if remaining != input:
+                # if parse succeeds, go on to get the subsequent values
+                values.append(value)
+                input = remaining
+            case _:
+                # failed, or succeeded without consuming and would do so forever
+                return Block(values), input
 
 
 def many(parser: Parser[_A]) -> Parser[Block[_A]]:
-- 
2.43.0


From cd472f6040ac6dafc430c6f1fa514b4b95e02fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:01 +0000
Subject: [PATCH 15/31] fix: copying a tagged union keeps its class

Copies of an instance of a subclass, e.g. a Try, were instances of the base
union.
---
 expression/core/tagged_union.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expression/core/tagged_union.py b/expression/core/tagged_union.py
index fdd17f2..a746d38 100644
--- a/expression/core/tagged_union.py
+++ b/expression/core/tagged_union.py
@@ -168,11 +168,11 @@ def tagged_union(
         # Copy helpers (required by Pydantic)
         # ------------------------------------------------------------------
         def __copy__(self: Any) -> Any:
-            return cls(**{self.tag: getattr(self, self.tag)})
+            return type(self)(**{self.tag: getattr(self, self.tag)})
 
         def __deepcopy__(self: Any, memo: dict[int, Any]) -> Any:
             value = deepcopy(getattr(self, self.tag), memo)
-            return cls(**{self.tag: value})
+            return type(self)(**{self.tag: value})
 
         cls.__copy__ = __copy__
         cls.__deepcopy__ = __deepcopy__
-- 
2.43.0


From 8157b545653e5471994799088b365ec20e0214e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:01 +0000
Subject: [PATCH 16/31] fix: registering with a token that can never be
 cancelled is a no-op

CancellationToken.none() raised ObjectDisposedException on register, so it could
not be passed to e.g. aiotools.start or MailboxProcessor.start.
---
 expression/system/cancellation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/expression/system/cancellation.py b/expression/system/cancellation.py
index 0044e34..71b90d7 100644
--- a/expression/system/cancellation.py
+++ b/expression/system/cancellation.py
@@ -46,6 +46,9 @@ class CancellationToken:
             raise ObjectDisposedException()
 
     def register(self, callback: Callable[[], None]) -> Disposable:
+        if not self.can_be_canceled:
+            # The callback will never be called
+            return Disposable.create(lambda: None)
         return self._source.register_internal(callback)
 
     @staticmethod
-- 
2.43.0


From c57cfc5c714f6ed8e31a37cbc3b8eca1cf74520d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:01 +0000
Subject: [PATCH 17/31] fix: never lose a callback registered while another
 thread cancels

The disposed check was made outside the lock, so a callback could be added
after cancel had collected the listeners and would then never be called.
---
 expression/system/cancellation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/expression/system/cancellation.py b/expression/system/cancellation.py
index 71b90d7..ea0889e 100644
--- a/expression/system/cancellation.py
+++ b/expression/system/cancellation.py
@@ -89,10 +89,10 @@ class CancellationTokenSource(Disposable):
                 pass
 
     def register_internal(self, callback: Callable[[], None]) -> Disposable:
-        if self._is_disposed:
-            raise ObjectDisposedException()
-
         with self._lock:
+            if self._is_disposed:
+                raise ObjectDisposedException()
+
             current = self._id
             self._listeners[current] = callback
             self._id += 1
-- 
2.43.0


From 323900cad4cc79c0acad74ced78386f4ff5b5a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:12 +0000
Subject: [PATCH 18/31] fix: a mailbox may reply None

post_and_async_reply took a None reply for no reply, so the poster waited
forever.
---
 expression/core/mailbox.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/expression/core/mailbox.py b/expression/core/mailbox.py
index 17e05ac..56dbd9f 100644
--- a/expression/core/mailbox.py
+++ b/expression/core/mailbox.py
@@ -21,6 +21,7 @@ from typing import Any, Generic, TypeVar
 from expression.system import CancellationToken, OperationCanceledError
 
 from .aiotools import Continuation, from_continuations, start_immediate
+from .option import Nothing, Option, Some
 
 
 _Msg = TypeVar("_Msg")
@@ -78,17 +79,17 @@ class MailboxProcessor(Generic[_Msg]):
         Returns:
             The reply from mailbox processor.
         """
-        result: _Reply | None = None
+        result: Option[_Reply] = Nothing
         # This is the continuation for the `done` callback of the awaiting poster.
         continuation: Continuation[_Reply] | None = None
 
         def check_completion() -> None:
-            if result is not None and continuation is not None:
-                continuation(result)
+            if result.is_some() and continuation is not None:
+                continuation(result.value)
 
         def reply_callback(res: _Reply):
             nonlocal result
-            result = res
+            result = Some(res)
             check_completion()
 
         reply_channel = AsyncReplyChannel(reply_callback)
-- 
2.43.0


From 681796fea623355191a35b82eee56fe0f03c1996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:13 +0000
Subject: [PATCH 19/31] fix: Seq.concat and Seq.collect are lazy

Unpacking the sequence of sequences read all of it (and called every mapping)
before the first element was asked for, and never returned for an infinite one.
---
 expression/collections/seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/seq.py b/expression/collections/seq.py
index f56f1e2..1f30357 100644
--- a/expression/collections/seq.py
+++ b/expression/collections/seq.py
@@ -117,7 +117,7 @@ class Seq(Iterable[_TSource], PipeMixin):
         Combines the given variable number of enumerations and/or
         enumeration-of-enumerations as a single concatenated enumeration.
         """
-        return Seq(concat(*self))
+        return Seq(pipe(self, collect(identity)))
 
     def collect(self, mapping: Callable[[_TSource], Seq[_TResult]]) -> Seq[_TResult]:
         """Collect items from the sequence.
-- 
2.43.0


From 343a87501083b31767e04c6a6abee10438ede068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:54 +0000
Subject: [PATCH 20/31] fix: seq.scan accepts None as its initial state

itertools.accumulate takes initial=None for "no initial value", so the state was
dropped and the scanner was never called for the first element.
---
 expression/collections/seq.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/expression/collections/seq.py b/expression/collections/seq.py
index 1f30357..877b992 100644
--- a/expression/collections/seq.py
+++ b/expression/collections/seq.py
@@ -861,7 +861,15 @@ def scan(
         scanner: A function that updates the state with each element
         state: The initial state.
     """
-    return SeqGen(lambda: itertools.accumulate(source, scanner, initial=state))
+
+    def gen() -> Iterator[_TState]:
+        current = state
+        yield current
+        for x in source:
+            current = scanner(current, x)
+            yield current
+
+    return SeqGen(gen)
 
 
 def singleton(item: _TSource) -> Seq[_TSource]:
-- 
2.43.0


From ca50985f631f4a994e09477208597a756849ff15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:20 +0000
Subject: [PATCH 21/31] fix: reject Result data that is not an object

---
 expression/core/result.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expression/core/result.py b/expression/core/result.py
index bd3c300..bf16697 100644
--- a/expression/core/result.py
+++ b/expression/core/result.py
@@ -308,13 +308,13 @@ class Result(
         error_schema = handler.generate_schema(type_vars[1])
 
         def validate_ok(v: Any, handler: ValidatorFunctionWrapHandler) -> Result[_TSourceOut, _TErrorOut]:
-            if "ok" not in v:
+            if not isinstance(v, builtins.dict) or "ok" not in v:
                 raise ValueError("Missing ok field")
             value = handler(v["ok"])
             return cls(ok=value)
 
         def validate_error(v: Any, handler: ValidatorFunctionWrapHandler) -> Result[_TSourceOut, _TErrorOut]:
-            if "error" not in v:
+            if not isinstance(v, builtins.dict) or "error" not in v:
                 raise ValueError("Missing error field")
 
             value = handler(v["error"])
-- 
2.43.0


From f8571234156f09923d0fd9309b42f9028b294c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:52 +0000
Subject: [PATCH 22/31] fix: TailCall passes a keyword argument named self

---
 expression/core/fn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/core/fn.py b/expression/core/fn.py
index 0f0038e..1085d7a 100644
--- a/expression/core/fn.py
+++ b/expression/core/fn.py
@@ -18,7 +18,7 @@ class TailCall(Generic[_P]):
     function will be called again with the new arguments provided.
     """
 
-    def __init__(self, *args: _P.args, **kw: _P.kwargs):
+    def __init__(self, /, *args: _P.args, **kw: _P.kwargs):
         self.args = args
         self.kw = kw
 
-- 
2.43.0


From ccb48586c58c7df88bf7912080644c170d23abda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:55 +0000
Subject: [PATCH 23/31] fix: awaiting Nothing or Error ends an async expression
 without yields

---
 expression/core/async_builder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/expression/core/async_builder.py b/expression/core/async_builder.py
index 5354d20..b05186b 100644
--- a/expression/core/async_builder.py
+++ b/expression/core/async_builder.py
@@ -116,7 +116,11 @@ class AsyncBuilder(Generic[_T, _M], ABC):  # Corrected Generic definition
                 # to zero().
                 result_value: _T | None
                 if inspect.iscoroutine(body):
-                    result_value = await cast("Awaitable[_T]", body)
+                    try:
+                        result_value = await cast("Awaitable[_T]", body)
+                    except EffectError as error:
+                        # Effect errors (Nothing, Error, etc) short circuits
+                        return await self.run(await self.return_from(cast("_M", error.args[0])))
                 else:
                     result_value = cast("_T | None", body)
                 if result_value is None:
-- 
2.43.0


From a8bf06e6ab18853d65479d559761c48f28c7e904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:26 +0000
Subject: [PATCH 24/31] fix: cancelling a token from another thread wakes up
 the event loop

---
 expression/core/aiotools.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/expression/core/aiotools.py b/expression/core/aiotools.py
index 2c157b1..f726ed0 100644
--- a/expression/core/aiotools.py
+++ b/expression/core/aiotools.py
@@ -68,6 +68,21 @@ def from_continuations(callback: Callbacks[_TSource]) -> Awaitable[_TSource]:
 __running_tasks: set[Task[Any]] = set()
 
 
+def __cancel_task(task: Task[Any]) -> None:
+    """Cancel a task from any thread."""
+    loop = task.get_loop()
+    try:
+        in_loop = asyncio.get_running_loop() is loop
+    except RuntimeError:
+        in_loop = False
+
+    if in_loop:
+        task.cancel()
+    else:
+        # Tasks are not thread safe, and the event loop needs to be woken up
+        loop.call_soon_threadsafe(task.cancel)
+
+
 def start(computation: Awaitable[Any], token: CancellationToken | None = None) -> None:
     """Start computation.
 
@@ -87,7 +102,7 @@ def start(computation: Awaitable[Any], token: CancellationToken | None = None) -
     __running_tasks.add(task)
 
     def cb():
-        task.cancel()
+        __cancel_task(task)
 
     if token:
         token.register(cb)
@@ -110,7 +125,7 @@ def start_immediate(computation: Awaitable[Any], token: CancellationToken | None
     __running_tasks.add(task)
 
     def cb() -> None:
-        task.cancel()
+        __cancel_task(task)
 
     if token:
         token.register(cb)
-- 
2.43.0


From 928110ba68f834f4515f8a76933add61a33c88f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:49 +0000
Subject: [PATCH 25/31] fix: a computation started with a cancelled token does
 not run

---
 expression/core/aiotools.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/expression/core/aiotools.py b/expression/core/aiotools.py
index f726ed0..7fdc717 100644
--- a/expression/core/aiotools.py
+++ b/expression/core/aiotools.py
@@ -13,7 +13,7 @@ from asyncio import Future, Task
 from collections.abc import Awaitable, Callable
 from typing import Any, TypeVar
 
-from expression.system import CancellationToken, OperationCanceledError
+from expression.system import CancellationToken, ObjectDisposedException, OperationCanceledError
 
 
 _TSource = TypeVar("_TSource")
@@ -105,7 +105,12 @@ def start(computation: Awaitable[Any], token: CancellationToken | None = None) -
         __cancel_task(task)
 
     if token:
-        token.register(cb)
+        try:
+            token.register(cb)
+        except ObjectDisposedException:
+            # Cancelled already, so the computation should not run
+            task.cancel()
+            raise
     return None
 
 
@@ -128,7 +133,12 @@ def start_immediate(computation: Awaitable[Any], token: CancellationToken | None
         __cancel_task(task)
 
     if token:
-        token.register(cb)
+        try:
+            token.register(cb)
+        except ObjectDisposedException:
+            # Cancelled already, so the computation should not run
+            task.cancel()
+            raise
     return None
 
 
-- 
2.43.0


From 8c32c5bba647ba46b9d5c8df1bc53d425eaea1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:10 +0000
Subject: [PATCH 26/31] fix: the first reply to a mailbox message wins

---
 expression/core/mailbox.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expression/core/mailbox.py b/expression/core/mailbox.py
index 56dbd9f..c3cabf3 100644
--- a/expression/core/mailbox.py
+++ b/expression/core/mailbox.py
@@ -89,7 +89,8 @@ class MailboxProcessor(Generic[_Msg]):
 
         def reply_callback(res: _Reply):
             nonlocal result
-            result = Some(res)
+            if result.is_none():
+                result = Some(res)
             check_completion()
 
         reply_channel = AsyncReplyChannel(reply_callback)
-- 
2.43.0


From 70d80c7bd0c6883ce3683c687e0636046aa97067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:20 +0000
Subject: [PATCH 27/31] fix: a cancelled or timed-out mailbox receive loses no
 message and does not block later receives

---
 expression/core/mailbox.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/expression/core/mailbox.py b/expression/core/mailbox.py
index c3cabf3..ad04cf8 100644
--- a/expression/core/mailbox.py
+++ b/expression/core/mailbox.py
@@ -45,7 +45,7 @@ class MailboxProcessor(Generic[_Msg]):
 
         # Holds the continuation i.e the `done` callback of Async.from_continuations
         # returned by `receive`.
-        self.continuation: Continuation[_Msg] | None = None
+        self.continuation: Continuation[None] | None = None
         self.cancel: Continuation[OperationCanceledError] | None = None
 
     def post(self, msg: _Msg) -> None:
@@ -118,20 +118,33 @@ class MailboxProcessor(Generic[_Msg]):
             the timeout is exceeded.
         """
 
+        continuation: Continuation[None] | None = None
+
         def callback(
-            done: Continuation[_Msg],
+            done: Continuation[None],
             error: Continuation[Exception],
             cancel: Continuation[OperationCanceledError],
         ):
+            nonlocal continuation
             if self.continuation:
                 raise Exception("Receive can only be called once!")
 
-            self.continuation = done
+            self.continuation = continuation = done
             self.cancel = cancel
 
             self.__process_events()
 
-        return await from_continuations(callback)
+        while True:
+            try:
+                await from_continuations(callback)
+            except asyncio.CancelledError:
+                # No longer waiting, e.g. after a timeout. The message is for the next receive.
+                if self.continuation is continuation:
+                    self.continuation = None
+                raise
+
+            if not self.messages.empty():
+                return self.messages.get()
 
     def __process_events(self):
         # Cancellation of async workflows is more tricky in Python than
@@ -148,11 +161,10 @@ class MailboxProcessor(Generic[_Msg]):
         with self.lock:
             if self.messages.empty():
                 return
-            msg = self.messages.get()
             self.continuation, cont = None, self.continuation
 
             if cont is not None:  # type: ignore
-                cont(msg)
+                cont(None)
 
     @staticmethod
     def start(
-- 
2.43.0


From fefdb647b40550ca54464f7bb69178a21bf4a042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:46 +0000
Subject: [PATCH 28/31] fix: comparing a TypedArray with something that is not
 a sequence is False

---
 expression/collections/array.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/expression/collections/array.py b/expression/collections/array.py
index 03937e3..bb060ac 100644
--- a/expression/collections/array.py
+++ b/expression/collections/array.py
@@ -12,7 +12,7 @@ from __future__ import annotations
 import array
 import builtins
 import functools
-from collections.abc import Callable, Iterable, Iterator, MutableSequence
+from collections.abc import Callable, Iterable, Iterator, MutableSequence, Sequence
 from enum import Enum
 from typing import Any, TypeVar, cast
 
@@ -442,6 +442,9 @@ class TypedArray(MutableSequence[_TSource], PipeMixin):
         return pipe(state, unfold(generator))
 
     def __eq__(self, o: Any) -> bool:
+        if not isinstance(o, Sequence):
+            return NotImplemented
+
         if len(self) != len(o):
             return False
 
-- 
2.43.0


From e61c3ca499aab84744b5878b8a7eb8b06e622a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:38 +0000
Subject: [PATCH 29/31] fix: the sequence of a map's bindings can be iterated
 more than once

---
 expression/collections/maptree.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/expression/collections/maptree.py b/expression/collections/maptree.py
index a658ca5..a7d94a4 100644
--- a/expression/collections/maptree.py
+++ b/expression/collections/maptree.py
@@ -27,7 +27,7 @@ from collections.abc import Callable, Iterable, Iterator
 from dataclasses import dataclass
 from typing import Any, Generic, TypeVar
 
-from expression.core import Nothing, Option, Some, failwith, pipe
+from expression.core import Nothing, Option, Some, failwith
 from expression.core.typing import SupportsLessThanAndHash
 
 from . import block, seq
@@ -516,14 +516,4 @@ def mk_iterator(m: MapTree[Key, Value]) -> Iterator[tuple[Key, Value]]:
 
 
 def to_seq(s: MapTree[Key, Value]) -> Iterable[tuple[Key, Value]]:
-    it = mk_iterator(s)
-
-    def folder(it: Iterator[tuple[Key, Value]]):
-        try:
-            current = next(it)
-        except StopIteration:
-            return Nothing
-        else:
-            return Some((current, it))
-
-    return pipe(it, seq.unfold(folder))
+    return seq.delay(lambda: mk_iterator(s))
-- 
2.43.0


From ba536134dbac2aaacae822b26c2481cd477defd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:58 +0000
Subject: [PATCH 30/31] fix: continuations and replies may be called from other
 threads

---
 expression/core/aiotools.py | 41 ++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/expression/core/aiotools.py b/expression/core/aiotools.py
index 7fdc717..c4d5f0e 100644
--- a/expression/core/aiotools.py
+++ b/expression/core/aiotools.py
@@ -9,8 +9,9 @@ by itself.
 """
 
 import asyncio
-from asyncio import Future, Task
+from asyncio import AbstractEventLoop, Future, Task
 from collections.abc import Awaitable, Callable
+from threading import Lock
 from typing import Any, TypeVar
 
 from expression.system import CancellationToken, ObjectDisposedException, OperationCanceledError
@@ -58,29 +59,37 @@ def from_continuations(callback: Callbacks[_TSource]) -> Awaitable[_TSource]:
         if not future.done():
             future.cancel()
 
-    callback(done, error, cancel)
-    return future
+    first = Lock()  # Taken by the first continuation called
 
+    def once(continuation: Continuation[Any]) -> Continuation[Any]:
+        def call(arg: Any) -> None:
+            if first.acquire(blocking=False):
+                __call_in_loop(future.get_loop(), continuation, arg)
 
-# Tasks that are scheduled on the main event loop. The main event loop keeps a
-# a weak reference to the tasks, so we need to keep a strong reference to them until
-# they are completed.
-__running_tasks: set[Task[Any]] = set()
+        return call
+
+    callback(once(done), once(error), once(cancel))
+    return future
 
 
-def __cancel_task(task: Task[Any]) -> None:
-    """Cancel a task from any thread."""
-    loop = task.get_loop()
+def __call_in_loop(loop: AbstractEventLoop, fn: Callable[..., Any], *args: Any) -> None:
+    """Call a function in the event loop, from any thread."""
     try:
         in_loop = asyncio.get_running_loop() is loop
     except RuntimeError:
         in_loop = False
 
-    if in_loop:
-        task.cancel()
+    if in_loop or not loop.is_running():
+        fn(*args)
     else:
-        # Tasks are not thread safe, and the event loop needs to be woken up
-        loop.call_soon_threadsafe(task.cancel)
+        # Futures and tasks are not thread safe, and the event loop needs to be woken up
+        loop.call_soon_threadsafe(fn, *args)
+
+
+# Tasks that are scheduled on the main event loop. The main event loop keeps a
+# a weak reference to the tasks, so we need to keep a strong reference to them until
+# they are completed.
+__running_tasks: set[Task[Any]] = set()
 
 
 def start(computation: Awaitable[Any], token: CancellationToken | None = None) -> None:
@@ -102,7 +111,7 @@ def start(computation: Awaitable[Any], token: CancellationToken | None = None) -
     __running_tasks.add(task)
 
     def cb():
-        __cancel_task(task)
+        __call_in_loop(task.get_loop(), task.cancel)
 
     if token:
         try:
@@ -130,7 +139,7 @@ def start_immediate(computation: Awaitable[Any], token: CancellationToken | None
     __running_tasks.add(task)
 
     def cb() -> None:
-        __cancel_task(task)
+        __call_in_loop(task.get_loop(), task.cancel)
 
     if token:
         try:
-- 
2.43.0


From 87f4b5740d2a21140b11244dcee74df6d0ac1f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:21 +0000
Subject: [PATCH 31/31] fix: long literals, character sets, sequences and
 choices overflowed the stack when parsed

---
 expression/extra/parser.py | 48 ++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/expression/extra/parser.py b/expression/extra/parser.py
index 5cf2798..665d254 100644
--- a/expression/extra/parser.py
+++ b/expression/extra/parser.py
@@ -157,7 +157,22 @@ def or_else(p1: Parser[_A], p2: Parser[_A]) -> Parser[_A]:
 
 
 def choice(list_of_parsers: Block[Parser[_A]]) -> Parser[_A]:
-    return list_of_parsers.reduce(lambda a, b: or_else(a)(b))
+    if list_of_parsers.is_empty():
+        raise ValueError("Collection was empty")
+
+    first, rest = list_of_parsers.head(), list_of_parsers.tail()
+
+    # try the parsers one after the other from the same position, without
+    # nesting them as any number of alternatives may be given
+    def run(input: Remaining) -> ParseResult[_A]:
+        result = first.run(input)
+        for parser in rest:
+            if result.is_ok():
+                break
+            result = parser.run(input)
+        return result
+
+    return Parser(run, f"choice({list_of_parsers})")
 
 
 def any_of(list_of_chars: str) -> Parser[str]:
@@ -248,23 +263,20 @@ def lift2(fn: Callable[[_A], Callable[[_B], _C]], xP: Parser[_A], yP: Parser[_B]
 
 
 def sequence(parser_list: Block[Parser[_A]]) -> Parser[Block[_A]]:
-    # define the "cons" function, which is a two parameter function
-    @curry(1)
-    def cons(head: _A, tail: Block[_A]) -> Block[_A]:
-        return tail.cons(head)
-
-    # lift it to Parser World
-    cons_p = lift2(cons)
-
-    # process the list of parsers recursively
-    match parser_list:
-        case block.empty:
-            return preturn(block.empty)
-        case Block([head, *tail]):
-            tail_ = sequence(Block(tail))
-            return cons_p(head)(tail_)
-        case _:
-            raise ValueError("invalid parser list")
+    # run the parsers one after the other, without nesting them as any
+    # number of parsers may be given
+    def run(input: Remaining) -> ParseResult[Block[_A]]:
+        values: list[_A] = []
+        for parser in parser_list:
+            match parser.run(input):
+                case Result(tag="ok", ok=(value, remaining)):
+                    values.append(value)
+                    input = remaining
+                case Result(error=error):
+                    return Error(error)
+        return Ok((Block(values), input))
+
+    return Parser(run, f"sequence({parser_list})")
 
 
 def pstring(string_input: str) -> Parser[str]:
-- 
2.43.0

