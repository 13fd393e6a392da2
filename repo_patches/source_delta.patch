From 285a4922b32bd5d9958c75ca2ffb7c37c5529794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 1/4] fix: do not reuse a location just because its pos equals
 the index

Ctx.update_loc compared an input index with Loc.pos. For token streams
Loc.pos is an offset into the source text, so layout combinators could
see the location of another token.
---
 src/reparsec/core/types.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/reparsec/core/types.py b/src/reparsec/core/types.py
index 9644324..f42c3a7 100644
--- a/src/reparsec/core/types.py
+++ b/src/reparsec/core/types.py
@@ -26,8 +26,6 @@ class Ctx(Generic[S_contra]):
         return self._get_loc(self.loc, stream, pos)
 
     def update_loc(self, stream: S_contra, pos: int) -> "Ctx[S_contra]":
-        if pos == self.loc.pos:
-            return self
         return Ctx(
             self.mark, self._get_loc(self.loc, stream, pos), self._get_loc
         )
-- 
2.43.0


From 3e405819b58dc3e07620e9e4129e9bdeeb8a6a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 2/4] fix: keep the expected list when recover_with repairs a
 failure

recover_with and recover_with_fn dropped the expectations of the repaired
failure, so errors reported after a preceding parser lost them.
---
 src/reparsec/core/combinators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reparsec/core/combinators.py b/src/reparsec/core/combinators.py
index 6b40856..cce3daa 100644
--- a/src/reparsec/core/combinators.py
+++ b/src/reparsec/core/combinators.py
@@ -484,7 +484,7 @@ def _recover_with(
             loc = ctx.get_loc(stream, pos)
             rep = make_user_insert(rem, x, pos, ctx, loc, vs, r.expected)
             if type(r) is Error:
-                return Recovered([rep], None, loc)
+                return Recovered([rep], None, loc, r.expected)
             return Recovered([rep, *r.repairs], r.min_prio, loc, r.expected)
         return r
 
@@ -527,7 +527,7 @@ def _recover_with_fn(
                 r.expected
             )
             if type(r) is Error:
-                return Recovered([rep], None, loc)
+                return Recovered([rep], None, loc, r.expected)
             return Recovered([rep, *r.repairs], r.min_prio, loc, r.expected)
         return r
 
-- 
2.43.0


From a5cfdb5b826230129765c31a96df3a9e450a66f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 3/4] fix: raise LexError instead of looping on an empty match

split_tokens never terminated if the specification matched the empty
string at some position.
---
 src/reparsec/lexer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reparsec/lexer.py b/src/reparsec/lexer.py
index 0d2de7f..c457efe 100644
--- a/src/reparsec/lexer.py
+++ b/src/reparsec/lexer.py
@@ -61,6 +61,9 @@ def iter_tokens(src: str, spec: Pattern[str]) -> Iterator[Token]:
             raise LexError(loc)
 
         end = match.end()
+        if end == pos:
+            raise LexError(loc)
+
         nl = src.count("\n", pos, end)
         if nl:
             line += nl
-- 
2.43.0


From 016492c312af5403f7af4603774249e3aeced9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:09 +0000
Subject: [PATCH 4/4] fix: attempt never fails as consumed with recovery
 enabled

When the inner parser consumed input and could not be repaired, attempt
returned its failure unchanged, so that recover_with had no effect on it.
---
 src/reparsec/core/combinators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reparsec/core/combinators.py b/src/reparsec/core/combinators.py
index cce3daa..522bc3e 100644
--- a/src/reparsec/core/combinators.py
+++ b/src/reparsec/core/combinators.py
@@ -396,7 +396,10 @@ def _attempt(parse_fns: ParseFns[S, A]) -> ParseFn[S, A]:
             stream: S, pos: int, ctx: Ctx[S], ins: int,
             rem: Optional[int]) -> Result[A, S]:
         if rem is not None:
-            return parse_fn(stream, pos, ctx, ins, rem)
+            r = parse_fn(stream, pos, ctx, ins, rem)
+            if type(r) is Error:
+                return Error(r.loc, r.expected)
+            return r
         r = parse_fast_fn(stream, pos, ctx)
         if type(r) is Error:
             return Error(r.loc, r.expected)
-- 
2.43.0

