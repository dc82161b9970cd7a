From 26dfd431c0e25ce50f578c24eeda97a4ed545f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 01/31] fix: count keeps its partial state when a parse is
 resumed

---
 src/parser/repeat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 27543c3..58caeb1 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -21,6 +21,7 @@ use crate::{
 
 parser! {
 pub struct Count;
+type PartialState = <CountMinMax<F, P> as Parser<Input>>::PartialState;
 
 /// Parses `parser` from zero up to `count` times.
 ///
-- 
2.43.0


From fd11ea6f102bdba8a531fb0cdc1219fa4d49409a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:42 +0000
Subject: [PATCH 02/31] fix: many, many1 and count_min_max remember across a
 resume that input was committed

---
 src/parser/repeat.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 58caeb1..6cb11e2 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -124,7 +124,7 @@ where
     F: Extend<P::Output> + Default,
 {
     type Output = F;
-    type PartialState = (usize, F, P::PartialState);
+    type PartialState = (usize, bool, F, P::PartialState);
 
     parse_mode!(Input);
     #[inline]
@@ -137,15 +137,17 @@ where
     where
         M: ParseMode,
     {
-        let (count, elements, child_state) = state;
+        let (count, committed, elements, child_state) = state;
 
         let mut iter = self.parser.by_ref().partial_iter(mode, input, child_state);
+        iter.committed = *committed;
         let remaining_min = self.min.saturating_sub(*count);
         let remaining_max = self.max - *count;
         elements.extend(suggest_size_hint(
             iter.by_ref().take(remaining_max).inspect(|_| *count += 1),
             (remaining_min, Some(remaining_max)),
         ));
+        *committed = iter.committed;
         if *count < self.min {
             let err = StreamError::message_format(format_args!(
                 "expected {} more elements",
@@ -155,6 +157,7 @@ where
         } else {
             iter.into_result_fast(elements).map(|x| {
                 *count = 0;
+                *committed = false;
                 x
             })
         }
@@ -385,7 +388,7 @@ where
     F: Extend<P::Output> + Default,
 {
     type Output = F;
-    type PartialState = (F, P::PartialState);
+    type PartialState = (bool, F, P::PartialState);
 
     parse_mode!(Input);
     #[inline]
@@ -399,11 +402,16 @@ where
         M: ParseMode,
     {
         // TODO
-        let (ref mut elements, ref mut child_state) = *state;
+        let (ref mut committed, ref mut elements, ref mut child_state) = *state;
 
         let mut iter = (&mut self.0).partial_iter(mode, input, child_state);
+        iter.committed = *committed;
         elements.extend(iter.by_ref());
-        iter.into_result_fast(elements)
+        *committed = iter.committed;
+        iter.into_result_fast(elements).map(|x| {
+            *committed = false;
+            x
+        })
     }
 
     fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
@@ -493,6 +501,7 @@ where
             mode,
         };
         elements.extend(iter.by_ref());
+        *committed_state = iter.committed;
 
         iter.into_result_fast(elements).map(|x| {
             *parsed_one = false;
-- 
2.43.0


From 8e57f9a686fd472d64aea5f976b1a25bc402528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:42 +0000
Subject: [PATCH 03/31] fix: sep_by1 remembers its first element when a parse
 is resumed

---
 src/parser/repeat.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 6cb11e2..8994f6a 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -734,6 +734,7 @@ where
                     ctry!(self
                         .parser
                         .parse_mode(mode, input, &mut child_state.B.state));
+                *parsed_one = Some(rest);
                 elements.extend(Some(first));
                 rest
             }
@@ -745,6 +746,10 @@ where
 
             elements.extend(iter.by_ref());
 
+            if iter.committed {
+                *parsed_one = Some(Commit::Commit(()));
+            }
+
             iter.into_result_fast(elements).map(|x| {
                 *parsed_one = None;
                 x
-- 
2.43.0


From 2406c9477aeb5820cb4fe8951e6add22ccbf1521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 04/31] fix: sequences remember across a resume which parsers
 committed

---
 src/parser/sequence.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/parser/sequence.rs b/src/parser/sequence.rs
index 8e0ecc9..18b8c4f 100644
--- a/src/parser/sequence.rs
+++ b/src/parser/sequence.rs
@@ -94,6 +94,7 @@ macro_rules! tuple_parser {
             )*
             #[allow(dead_code)]
             offset: u8,
+            first_empty_parser: usize,
             _marker: PhantomData <( $h, $( $id),* )>,
         }
 
@@ -164,7 +165,12 @@ macro_rules! tuple_parser {
                 MODE: ParseMode,
             {
                 let (ref mut $h, $(ref mut $id),*) = *self;
-                let mut first_empty_parser = 0;
+                // Resumed parses must remember that an earlier call committed
+                let mut first_empty_parser = if mode.is_first() {
+                    0
+                } else {
+                    state.first_empty_parser
+                };
                 #[allow(unused_mut)]
                 let mut current_parser = 0;
 
@@ -199,8 +205,8 @@ macro_rules! tuple_parser {
                 }
 
                 $(
+                    current_parser += 1;
                     if mode.is_first() || state.$id.value.is_none() {
-                        current_parser += 1;
                         let before = input.checkpoint();
                         let temp = match $id.parse_mode(mode, input, &mut state.$id.state) {
                             CommitOk(x) => {
@@ -217,7 +223,10 @@ macro_rules! tuple_parser {
                                 }
                                 return add_errors!(err, state.offset)
                             }
-                            CommitErr(err) => return CommitErr(err),
+                            CommitErr(err) => {
+                                state.first_empty_parser = first_empty_parser;
+                                return CommitErr(err);
+                            }
                             PeekOk(x) => {
                                 x
                             }
@@ -234,6 +243,7 @@ macro_rules! tuple_parser {
 
                 // SAFETY: requires both $h and $id to be set, see previous SAFETY comments
                 let value = unsafe { (state.$h.unwrap_value(), $(state.$id.unwrap_value()),*) };
+                state.first_empty_parser = 0;
                 if first_empty_parser != 0 {
                     CommitOk(value)
                 } else {
-- 
2.43.0


From 115cef5150cd58f30cf41caa7a567fda37768fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 05/31] fix: a failed sequence does not leave parsed values in
 its partial state

---
 src/parser/sequence.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/sequence.rs b/src/parser/sequence.rs
index 18b8c4f..f2350a3 100644
--- a/src/parser/sequence.rs
+++ b/src/parser/sequence.rs
@@ -221,7 +221,12 @@ macro_rules! tuple_parser {
                                         PeekErr(err.into())
                                     };
                                 }
-                                return add_errors!(err, state.offset)
+                                let result = add_errors!(err, state.offset);
+                                if let PeekErr(_) = result {
+                                    // The values parsed so far must not be seen by the next parse
+                                    *state = Default::default();
+                                }
+                                return result;
                             }
                             CommitErr(err) => {
                                 state.first_empty_parser = first_empty_parser;
-- 
2.43.0


From 6bb872ed06eff915561359fff7a88a7158574b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 06/31] fix: attempt starts over with a clean state after a
 failure or at the end of partial input

---
 src/parser/combinator.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 97bae9a..30787ad 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -8,7 +8,7 @@ use crate::{
     },
     lib::{fmt, marker::PhantomData, mem, str},
     parser::ParseMode,
-    stream::{input_at_eof, span::Span, ResetStream, Stream, StreamErrorFor, StreamOnce},
+    stream::{input_at_eof, span::Span, uncons, ResetStream, Stream, StreamErrorFor, StreamOnce},
     Parser,
 };
 
@@ -94,7 +94,7 @@ where
     P: Parser<Input, Output = O>,
 {
     type Output = O;
-    type PartialState = P::PartialState;
+    type PartialState = (usize, P::PartialState);
 
     #[inline]
     fn parse_stream(&mut self, input: &mut Input) -> ParseResult<O, <Input as StreamOnce>::Error> {
@@ -125,12 +125,32 @@ where
     where
         M: ParseMode,
     {
-        match self.0.parse_committed_mode(mode, input, state) {
+        let (ref mut consumed, ref mut child_state) = *state;
+
+        let before = input.checkpoint();
+        if !mode.is_first() {
+            // Return to where the attempt ran out of input
+            for _ in 0..mem::take(consumed) {
+                ctry!(uncons(input));
+            }
+        }
+        match self.0.parse_committed_mode(mode, input, child_state) {
             v @ CommitOk(_) | v @ PeekOk(_) | v @ PeekErr(_) => v,
             CommitErr(err) => {
                 if input.is_partial() && err.is_unexpected_end_of_input() {
+                    // If the attempt fails once there is more input it must not have consumed
+                    // anything, so the input it has seen so far has to be kept
+                    let last_position = input.position();
+                    ctry!(input.reset(before.clone()).committed());
+                    while input.position() != last_position {
+                        ctry!(uncons(input));
+                        *consumed += 1;
+                    }
+                    ctry!(input.reset(before).committed());
                     CommitErr(err)
                 } else {
+                    // The next attempt must not resume this one
+                    *state = Default::default();
                     PeekErr(err.into())
                 }
             }
-- 
2.43.0


From 9dc643bbf4f65aedc1ac92ac2311435e40cd1fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 07/31] fix: not_followed_by waits for more input at the end of
 partial input

---
 src/parser/combinator.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 30787ad..70f6bd6 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -44,7 +44,16 @@ where
         ctry!(input.reset(checkpoint).committed());
         match result {
             CommitOk(_) | PeekOk(_) => PeekErr(Input::Error::empty(input.position()).into()),
-            CommitErr(_) | PeekErr(_) => PeekOk(()),
+            CommitErr(err) => {
+                *state = Default::default();
+                if input.is_partial() && err.is_unexpected_end_of_input() {
+                    // More input is needed to know what follows
+                    CommitErr(err)
+                } else {
+                    PeekOk(())
+                }
+            }
+            PeekErr(_) => PeekOk(()),
         }
     }
 
-- 
2.43.0


From 0165c842bd4c518c315b9323409e878a8d53a008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 08/31] fix: lazy adds the errors of the wrapped parser in
 committed mode

---
 src/parser/combinator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 70f6bd6..94d09d9 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -1106,7 +1106,7 @@ where
     where
         M: ParseMode,
     {
-        (self.0)().parse_mode(mode, input, state)
+        (self.0)().parse_committed_mode(mode, input, state)
     }
 
     fn parse_mode_impl<M>(
-- 
2.43.0


From ad717ed6ba4ab46e5de2aeb45265f1ce662a525b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 09/31] fix: choice over slices tries every alternative again
 when no input was consumed

---
 src/parser/choice.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parser/choice.rs b/src/parser/choice.rs
index ad976a7..bef3e21 100644
--- a/src/parser/choice.rs
+++ b/src/parser/choice.rs
@@ -395,6 +395,7 @@ where
 {
     let mut prev_err = None;
     let mut last_parser_having_non_1_offset = 0;
+    let before_position = input.position();
     let before = input.checkpoint();
 
     let (ref mut index_state, ref mut child_state) = *state;
@@ -410,12 +411,19 @@ where
     for i in 0..self_.len() {
         ctry!(input.reset(before.clone()).committed());
 
-        match self_[i].parse_mode(mode, input, child_state) {
+        match self_[i].parse_mode(crate::parser::FirstMode, input, child_state) {
             committed_err @ CommitErr(_) => {
-                *index_state = i + 1;
+                if input.position() != before_position {
+                    *index_state = i + 1;
+                } else {
+                    // Nothing was consumed so every alternative is still possible
+                    *child_state = Default::default();
+                }
                 return committed_err;
             }
             PeekErr(err) => {
+                // The alternatives share this state
+                *child_state = Default::default();
                 prev_err = match prev_err {
                     None => Some(err),
                     Some(mut prev_err) => {
-- 
2.43.0


From 08150b638c7d1ece271d580846432957e8b90489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 10/31] fix: parsers without partial state are started over at
 the end of partial input

---
 src/parser/combinator.rs | 14 --------------
 src/parser/mod.rs        | 12 +++++++++++-
 2 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 94d09d9..021cba7 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -676,20 +676,6 @@ where
         self.0.parse_lazy(input)
     }
 
-    parse_mode!(Input);
-    #[inline]
-    fn parse_mode_impl<M>(
-        &mut self,
-        _mode: M,
-        input: &mut Input,
-        _state: &mut Self::PartialState,
-    ) -> ParseResult<Self::Output, <Input as StreamOnce>::Error>
-    where
-        M: ParseMode,
-    {
-        self.0.parse_lazy(input)
-    }
-
     forward_parser!(Input, add_error add_committed_expected_error parser_count, 0);
 }
 
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 24e880b..5437a17 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -258,7 +258,17 @@ pub trait Parser<Input: Stream> {
         state: &mut Self::PartialState,
     ) -> ParseResult<Self::Output, <Input as StreamOnce>::Error> {
         let _ = state;
-        self.parse_lazy(input)
+        if input.is_partial() {
+            // Without any state to resume from the parser is started over
+            let before = input.checkpoint();
+            let result = self.parse_lazy(input);
+            if let CommitErr(_) = result {
+                ctry!(input.reset(before).committed());
+            }
+            result
+        } else {
+            self.parse_lazy(input)
+        }
     }
 
     /// Internal API. May break without a semver bump
-- 
2.43.0


From 9809ba073624727efb8839546c28c6bac586d633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 11/31] fix: chainl1 starts its first operand in the mode it
 was called with

---
 src/parser/repeat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 8994f6a..d37f066 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1023,7 +1023,7 @@ where
         let (mut l, mut committed) = match l_state.take() {
             Some(x) => x,
             None => {
-                let x = ctry!(self.0.parse_partial(input, &mut child_state.B.state));
+                let x = ctry!(self.0.parse_mode(mode, input, &mut child_state.B.state));
                 mode.set_first();
                 x
             }
-- 
2.43.0


From dcf7a4409574fe458f69cc7ab85ea217415d52fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 12/31] fix: chainr1 does not swallow an operator which lacks
 its right operand

---
 src/parser/repeat.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index d37f066..8162c03 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1099,25 +1099,24 @@ where
         let (mut l, mut committed) = ctry!(self.0.parse_lazy(input));
         loop {
             let before = input.checkpoint();
-            let op = match self.1.parse_lazy(input).into() {
-                Ok((x, rest)) => {
-                    committed = committed.merge(rest);
-                    x
-                }
+            let (op, op_committed) = match self.1.parse_lazy(input).into() {
+                Ok((x, rest)) => (x, rest),
                 Err(Commit::Commit(err)) => return CommitErr(err.error),
                 Err(Commit::Peek(_)) => {
                     ctry!(input.reset(before).committed());
                     break;
                 }
             };
-            let before = input.checkpoint();
-            match self.parse_lazy(input).into() {
+            match self.parse_stream(input).into() {
                 Ok((r, rest)) => {
                     l = op(l, r);
-                    committed = committed.merge(rest);
+                    committed = committed.merge(op_committed).merge(rest);
                 }
                 Err(Commit::Commit(err)) => return CommitErr(err.error),
-                Err(Commit::Peek(_)) => {
+                Err(Commit::Peek(err)) => {
+                    if !op_committed.is_peek() {
+                        return CommitErr(err.error);
+                    }
                     ctry!(input.reset(before).committed());
                     break;
                 }
-- 
2.43.0


From d57841f8d902962f659e0a4b9126dc7ecc3ed821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 13/31] fix: take_until and repeat_until resume from a clean
 end parser and stay committed

---
 src/parser/repeat.rs | 63 +++++++++++++++++++++++++++++++-------------
 1 file changed, 44 insertions(+), 19 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 8162c03..c5459a2 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1165,39 +1165,48 @@ where
     P: Parser<Input>,
 {
     type Output = F;
-    type PartialState = (F, P::PartialState);
+    type PartialState = (bool, F, P::PartialState);
 
     parse_mode!(Input);
     #[inline]
     fn parse_mode_impl<M>(
         &mut self,
-        mode: M,
+        mut mode: M,
         input: &mut Input,
         state: &mut Self::PartialState,
     ) -> ParseResult<Self::Output, Input::Error>
     where
         M: ParseMode,
     {
-        let (ref mut output, ref mut end_state) = *state;
+        let (ref mut committed, ref mut output, ref mut end_state) = *state;
 
-        let mut committed = Commit::Peek(());
         loop {
+            let before_position = input.position();
             let before = input.checkpoint();
             match self.end.parse_mode(mode, input, end_state).into() {
                 Ok((_, rest)) => {
                     ctry!(input.reset(before).committed());
-                    return match committed.merge(rest) {
-                        Commit::Commit(()) => CommitOk(mem::take(output)),
-                        Commit::Peek(()) => PeekOk(mem::take(output)),
+                    return if mem::take(committed) || !rest.is_peek() {
+                        CommitOk(mem::take(output))
+                    } else {
+                        PeekOk(mem::take(output))
                     };
                 }
                 Err(Commit::Peek(_)) => {
                     ctry!(input.reset(before).committed());
-                    output.extend(Some(ctry!(uncons(input)).0));
-                    committed = Commit::Commit(());
+                    mode.set_first();
+                    match uncons(input) {
+                        PeekErr(err) if *committed => return CommitErr(err.error),
+                        result => output.extend(Some(ctry!(result).0)),
+                    }
+                    *committed = true;
                 }
                 Err(Commit::Commit(e)) => {
-                    ctry!(input.reset(before).committed());
+                    if input.position() != before_position {
+                        // `end` is parsed again from where it started
+                        ctry!(input.reset(before).committed());
+                        *end_state = Default::default();
+                    }
                     return CommitErr(e.error);
                 }
             };
@@ -1289,7 +1298,7 @@ where
     E: Parser<Input>,
 {
     type Output = F;
-    type PartialState = (F, bool, P::PartialState, E::PartialState);
+    type PartialState = (bool, F, bool, P::PartialState, E::PartialState);
 
     parse_mode!(Input);
     #[inline]
@@ -1302,23 +1311,35 @@ where
     where
         M: ParseMode,
     {
-        let (output, is_parse, parse_state, end_state) = state;
+        let (committed, output, is_parse, parse_state, end_state) = state;
 
-        let mut committed = Commit::Peek(());
         loop {
             if *is_parse {
-                let (token, c) = ctry!(self.parser.parse_mode(mode, input, parse_state));
+                let (token, rest) = match self.parser.parse_mode(mode, input, parse_state) {
+                    PeekErr(err) => {
+                        if *committed {
+                            return CommitErr(err.error);
+                        }
+                        mem::take(output);
+                        *is_parse = false;
+                        return PeekErr(err);
+                    }
+                    result => ctry!(result),
+                };
+                mode.set_first();
                 output.extend(Some(token));
-                committed = committed.merge(c);
+                *committed |= !rest.is_peek();
                 *is_parse = false;
             } else {
+                let before_position = input.position();
                 let before = input.checkpoint();
                 match self.end.parse_mode(mode, input, end_state).into() {
                     Ok((_, rest)) => {
                         ctry!(input.reset(before).committed());
-                        return match committed.merge(rest) {
-                            Commit::Commit(()) => CommitOk(mem::take(output)),
-                            Commit::Peek(()) => PeekOk(mem::take(output)),
+                        return if mem::take(committed) || !rest.is_peek() {
+                            CommitOk(mem::take(output))
+                        } else {
+                            PeekOk(mem::take(output))
                         };
                     }
                     Err(Commit::Peek(_)) => {
@@ -1327,7 +1348,11 @@ where
                         *is_parse = true;
                     }
                     Err(Commit::Commit(e)) => {
-                        ctry!(input.reset(before).committed());
+                        if input.position() != before_position {
+                            // `end` is parsed again from where it started
+                            ctry!(input.reset(before).committed());
+                            *end_state = Default::default();
+                        }
                         return CommitErr(e.error);
                     }
                 }
-- 
2.43.0


From 5a498a581c4f1addc4b0398a9feb202af683a5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 14/31] fix: escaped is committed once it has consumed the
 escape token

---
 src/parser/repeat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index c5459a2..5f414ea 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1447,8 +1447,8 @@ where
                                 input,
                                 &mut Default::default(),
                             ) {
-                                PeekOk(_) => {}
-                                CommitOk(_) => {
+                                PeekOk(_) | CommitOk(_) => {
+                                    // The escape token has been consumed
                                     committed = Commit::Commit(());
                                 }
                                 CommitErr(err) => return CommitErr(err),
-- 
2.43.0


From 6e8894f9067d17c8c550dcda00b0e6a0e6541d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 15/31] fix: a failed iterate does not leave elements in its
 partial state

---
 src/parser/repeat.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 5f414ea..a51c43c 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1617,7 +1617,13 @@ where
         })();
 
         if let Err((item, err)) = result {
-            *next_item = Some(item);
+            if let PeekErr(_) = err {
+                // Nothing was consumed so there is nothing to resume
+                *opt_iter = None;
+                mem::take(buf);
+            } else {
+                *next_item = Some(item);
+            }
             return err;
         }
 
-- 
2.43.0


From 59b783296009db47175867810c58b2a916566f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 16/31] fix: factory asks for a new parser for every parse
 which is not a resumption

---
 src/parser/combinator.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 021cba7..5592168 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -1156,7 +1156,7 @@ where
     R: Parser<Input, Output = O>,
 {
     type Output = O;
-    type PartialState = R::PartialState;
+    type PartialState = (bool, R::PartialState);
 
     parse_mode!(Input);
 
@@ -1169,12 +1169,16 @@ where
     where
         M: ParseMode,
     {
+        let (ref mut resumable, ref mut child_state) = *state;
+
         // Always ask for a new parser except if we are in a partial call being resumed as we want
         // to resume the same parser then
-        if mode.is_first() {
+        if mode.is_first() || !*resumable {
             self.1 = None;
         }
-        self.parser(input).parse_mode_impl(mode, input, state)
+        let result = self.parser(input).parse_mode_impl(mode, input, child_state);
+        *resumable = matches!(result, CommitErr(_));
+        result
     }
 
     fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
-- 
2.43.0


From c844fdf9586bd27aa3bba0150aa3344cdc5e032f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 17/31] fix: take_fn adds the newly searched part to what it
 has already searched

---
 src/parser/range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/range.rs b/src/parser/range.rs
index 46353eb..b2055e8 100644
--- a/src/parser/range.rs
+++ b/src/parser/range.rs
@@ -592,7 +592,7 @@ where
                 result
             }
             TakeRange::NotFound(next_offset) => {
-                *offset = next_offset;
+                *offset += next_offset;
 
                 let range = input.range();
                 let _ = input.uncons_range(range.len());
-- 
2.43.0


From 94073bc57ddc75e6ae555bf0041097cab0f9c0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:27 +0000
Subject: [PATCH 18/31] fix: converting an easy message error keeps it a
 message

---
 src/stream/easy.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/stream/easy.rs b/src/stream/easy.rs
index 0a54182..596f461 100644
--- a/src/stream/easy.rs
+++ b/src/stream/easy.rs
@@ -302,10 +302,10 @@ where
                 Info::Owned(x) => T::expected_format(x),
             },
             Error::Message(info) => match info {
-                Info::Token(x) => T::expected_token(x),
-                Info::Range(x) => T::expected_range(x),
-                Info::Static(x) => T::expected_static_message(x),
-                Info::Owned(x) => T::expected_format(x),
+                Info::Token(x) => T::message_token(x),
+                Info::Range(x) => T::message_range(x),
+                Info::Static(x) => T::message_static_message(x),
+                Info::Owned(x) => T::message_format(x),
             },
             Error::Other(err) => T::message_format(err),
         }
@@ -402,10 +402,10 @@ impl<Item, Range> crate::error::StreamErrorInto<Item, Range> for Error<Item, Ran
                 Info::Owned(x) => T::expected_format(x),
             },
             Error::Message(info) => match info {
-                Info::Token(x) => T::expected_token(x.into()),
-                Info::Range(x) => T::expected_range(x.into()),
-                Info::Static(x) => T::expected_static_message(x),
-                Info::Owned(x) => T::expected_format(x),
+                Info::Token(x) => T::message_token(x.into()),
+                Info::Range(x) => T::message_range(x.into()),
+                Info::Static(x) => T::message_static_message(x),
+                Info::Owned(x) => T::message_format(x),
             },
             Error::Other(err) => T::message_format(err),
         }
-- 
2.43.0


From 4c81f050911305fca835ec0b056fe9d77a32745c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 19/31] fix: parser! without partial state is started over at
 the end of partial input

---
 src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 04faeda..8733b52 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -405,7 +405,19 @@ macro_rules! combine_parse_partial {
         let _ = $state;
         let mut state = Default::default();
         let state = &mut state;
-        $parser.parse_mode($mode, $input, state)
+        // The state is lost so the parser is started over when more input is available
+        let before = if $crate::stream::StreamOnce::is_partial($input) {
+            Some($crate::stream::ResetStream::checkpoint($input))
+        } else {
+            None
+        };
+        let result = $parser.parse_mode($mode, $input, state);
+        if let ($crate::error::ParseResult::CommitErr(_), Some(before)) = (&result, before) {
+            if let Err(err) = $crate::stream::ResetStream::reset($input, before) {
+                return $crate::error::ParseResult::CommitErr(err.into());
+            }
+        }
+        result
     }};
     (($ignored:ty) $mode:ident $input:ident $state:ident $parser:block) => {
         $parser.parse_mode($mode, $input, $state)
-- 
2.43.0


From 0680a29ea154e632801cf302b025b4aa70c59d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 20/31] fix: then and sequences stay where they are if their
 next parser fails at the end of partial input

---
 src/parser/sequence.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser/sequence.rs b/src/parser/sequence.rs
index f2350a3..3910ee0 100644
--- a/src/parser/sequence.rs
+++ b/src/parser/sequence.rs
@@ -221,6 +221,7 @@ macro_rules! tuple_parser {
                                         PeekErr(err.into())
                                     };
                                 }
+                                state.first_empty_parser = first_empty_parser;
                                 let result = add_errors!(err, state.offset);
                                 if let PeekErr(_) = result {
                                     // The values parsed so far must not be seen by the next parse
@@ -699,10 +700,10 @@ where
             }
             PeekErr(x) => {
                 let (committed, _) = *n_parser_cache.as_ref().unwrap();
-                *n_parser_cache = None;
                 if committed {
                     CommitErr(x.error)
                 } else {
+                    *n_parser_cache = None;
                     PeekErr(x)
                 }
             }
@@ -785,10 +786,11 @@ where
                 CommitOk(x)
             }
             PeekErr(x) => {
-                let (committed, _) = n_parser_cache.take().unwrap();
+                let (committed, _) = *n_parser_cache.as_ref().unwrap();
                 if committed {
                     CommitErr(x.error)
                 } else {
+                    *n_parser_cache = None;
                     PeekErr(x)
                 }
             }
@@ -891,11 +893,11 @@ where
                 CommitOk((in_value, x))
             }
             PeekErr(x) => {
-                let (committed, _, _) = n_parser_cache.take().unwrap();
-                *n_parser_cache = None;
+                let (committed, _, _) = *n_parser_cache.as_ref().unwrap();
                 if committed {
                     CommitErr(x.error)
                 } else {
+                    *n_parser_cache = None;
                     PeekErr(x)
                 }
             }
-- 
2.43.0


From 98f50075055063d05acff6765cbbec1708ccb0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 21/31] fix: take_while clears its partial state when the input
 became complete

---
 src/parser/range.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/range.rs b/src/parser/range.rs
index b2055e8..c132e6d 100644
--- a/src/parser/range.rs
+++ b/src/parser/range.rs
@@ -114,6 +114,7 @@ where
     let before = input.checkpoint();
 
     if !input.is_partial() {
+        *distance_state = 0;
         first(input, state)
     } else if mode.is_first() || *distance_state == 0 {
         let result = first(input, state);
-- 
2.43.0


From 0942a2fe07f419f66007f616938dd39b0122f2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 22/31] fix: only a missing end of input may be fixed by more
 partial input

---
 src/parser/range.rs | 6 +++++-
 src/stream/mod.rs   | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser/range.rs b/src/parser/range.rs
index c132e6d..b1f4045 100644
--- a/src/parser/range.rs
+++ b/src/parser/range.rs
@@ -481,7 +481,11 @@ where
                     // fail as only one `:` is present at this parse attempt. But when we later resume
                     // with more input we must start parsing again at the first time we errored so we
                     // can see the entire `::`
-                    if first_stream_error.is_none() {
+                    // (an error which is not due to missing input will not go away when we resume)
+                    if first_stream_error.as_ref().map_or(
+                        true,
+                        |(err, _): &(StreamErrorFor<Input>, usize)| !err.is_unexpected_end_of_input(),
+                    ) {
                         first_stream_error = Some((first_error, input.distance(&before)));
                     }
 
diff --git a/src/stream/mod.rs b/src/stream/mod.rs
index a395612..42f5de4 100644
--- a/src/stream/mod.rs
+++ b/src/stream/mod.rs
@@ -250,8 +250,9 @@ pub fn wrap_stream_error<T, Input>(
 where
     Input: ?Sized + StreamOnce + Positioned,
 {
+    let is_end_of_input = err.is_unexpected_end_of_input();
     let err = Input::Error::from_error(input.position(), err);
-    if input.is_partial() {
+    if input.is_partial() && is_end_of_input {
         CommitErr(err)
     } else {
         PeekErr(err.into())
-- 
2.43.0


From d23563a926085fe088c920007968f24483354ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 23/31] fix: take_fn searches from the start if it can not skip
 what it has searched

---
 src/parser/range.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/range.rs b/src/parser/range.rs
index b1f4045..f258a28 100644
--- a/src/parser/range.rs
+++ b/src/parser/range.rs
@@ -584,7 +584,9 @@ where
         if mode.is_first() {
             *offset = 0;
         } else {
-            let _ = input.uncons_range(*offset);
+            if input.uncons_range(*offset).is_err() {
+                *offset = 0;
+            }
         }
 
         match (self.searcher)(input.range()).into() {
-- 
2.43.0


From db49c1d05cbb8e7824498bef41eed53f1accc722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:41 +0000
Subject: [PATCH 24/31] fix: escaped does not skip the token which its parser
 did not accept

---
 src/parser/repeat.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index a51c43c..837a688 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1433,13 +1433,14 @@ where
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<Self::Output, Input::Error> {
         let mut committed = Commit::Peek(());
         loop {
+            let checkpoint = input.checkpoint();
             match self.parser.parse_lazy(input) {
                 PeekOk(_) => {}
                 CommitOk(_) => {
                     committed = Commit::Commit(());
                 }
                 PeekErr(_) => {
-                    let checkpoint = input.checkpoint();
+                    ctry!(input.reset(checkpoint.clone()).committed());
                     match uncons(input) {
                         CommitOk(ref c) | PeekOk(ref c) if *c == self.escape => {
                             match self.escape_parser.parse_committed_mode(
-- 
2.43.0


From d4c31f90de81b74717d9424083ca56e8b9ba1c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 25/31] fix: take_fn commits to what it has already searched
 when the input became complete

---
 src/parser/range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/range.rs b/src/parser/range.rs
index f258a28..c259821 100644
--- a/src/parser/range.rs
+++ b/src/parser/range.rs
@@ -607,7 +607,7 @@ where
                 ctry!(input.reset(checkpoint).committed());
 
                 let err = Input::Error::from_error(position, StreamError::end_of_input());
-                if !input.is_partial() && range.is_empty() {
+                if !input.is_partial() && input.range().is_empty() {
                     PeekErr(err.into())
                 } else {
                     CommitErr(err)
-- 
2.43.0


From d80a3cbd1e93647e4f984ff80a961ec95c827f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:44 +0000
Subject: [PATCH 26/31] fix: a sequence of more than 255 parsers does not
 overflow its parser count

---
 src/parser/sequence.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/sequence.rs b/src/parser/sequence.rs
index 3910ee0..d26ea80 100644
--- a/src/parser/sequence.rs
+++ b/src/parser/sequence.rs
@@ -260,7 +260,7 @@ macro_rules! tuple_parser {
             #[inline]
             fn parser_count(&self) -> ErrorOffset {
                 let (ref $h, $(ref $id),*) = *self;
-                ErrorOffset($h.parser_count().0 $( + $id.parser_count().0)*)
+                ErrorOffset($h.parser_count().0 $( .saturating_add($id.parser_count().0))*)
             }
 
             #[inline]
-- 
2.43.0


From 96f9279268cb75fba7156182a1c049604df68151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 27/31] fix: decode_futures_03 without an input stream compiles

---
 src/stream/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/stream/mod.rs b/src/stream/mod.rs
index 42f5de4..3eea3b4 100644
--- a/src/stream/mod.rs
+++ b/src/stream/mod.rs
@@ -1505,11 +1505,10 @@ macro_rules! decode {
 #[cfg_attr(docsrs, doc(cfg(feature = "futures-io-03")))]
 #[macro_export]
 macro_rules! decode_futures_03 {
-    ($decoder: expr, $read: expr, $parser: expr) => {
-        $crate::decode_futures_03!($decoder, $read, $parser, |x| x $(,)?)
+    ($decoder: expr, $read: expr, $parser: expr $(,)?) => {
+        $crate::decode_futures_03!($decoder, $read, $parser, |input, _position| input, |x| x)
     };
 
-
     ($decoder: expr, $read: expr, $parser: expr, $input_stream: expr $(,)?) => {
         $crate::decode_futures_03!($decoder, $read, $parser, $input_stream, |x| x)
     };
-- 
2.43.0


From 11c3bc09b398a13389dcebf09b087bb0cc5d18b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:03 +0000
Subject: [PATCH 28/31] fix: converting an easy error keeps the end of input
 recognisable

---
 src/stream/easy.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/stream/easy.rs b/src/stream/easy.rs
index 596f461..bb1b900 100644
--- a/src/stream/easy.rs
+++ b/src/stream/easy.rs
@@ -193,6 +193,8 @@ impl<R> From<u8> for Info<u8, R> {
     }
 }
 
+const END_OF_INPUT: &str = "end of input";
+
 /// Enum used to store information about an error that has occurred during parsing.
 #[derive(Debug)]
 pub enum Error<T, R> {
@@ -292,6 +294,7 @@ where
             Error::Unexpected(info) => match info {
                 Info::Token(x) => T::unexpected_token(x),
                 Info::Range(x) => T::unexpected_range(x),
+                Info::Static(END_OF_INPUT) => T::end_of_input(),
                 Info::Static(x) => T::unexpected_static_message(x),
                 Info::Owned(x) => T::unexpected_format(x),
             },
@@ -392,6 +395,7 @@ impl<Item, Range> crate::error::StreamErrorInto<Item, Range> for Error<Item, Ran
             Error::Unexpected(info) => match info {
                 Info::Token(x) => T::unexpected_token(x.into()),
                 Info::Range(x) => T::unexpected_range(x.into()),
+                Info::Static(END_OF_INPUT) => T::end_of_input(),
                 Info::Static(x) => T::unexpected_static_message(x),
                 Info::Owned(x) => T::unexpected_format(x),
             },
@@ -551,7 +555,7 @@ where
 impl<T, R> Error<T, R> {
     /// Returns the `end_of_input` error.
     pub fn end_of_input() -> Error<T, R> {
-        Error::Unexpected("end of input".into())
+        Error::Unexpected(Info::Static(END_OF_INPUT))
     }
 
     /// Formats a slice of errors in a human readable way.
-- 
2.43.0


From 8dc8c151cd4a60aaf3d4ff09fb9238551708d5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:49 +0000
Subject: [PATCH 29/31] fix: labels do not hide the end of input from errors
 without details

---
 src/error.rs       | 4 ++--
 src/stream/read.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 5670b25..3ed01fb 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -685,7 +685,7 @@ where
         F: FnOnce(&mut Tracked<Self>),
     {
         f(self_);
-        self_.error = info;
+        ParseError::<Item, Range, Position>::add(&mut self_.error, info);
     }
 
     fn is_unexpected_end_of_input(&self) -> bool {
@@ -873,7 +873,7 @@ where
         F: FnOnce(&mut Tracked<Self>),
     {
         f(self_);
-        self_.error = info;
+        ParseError::<Item, Range, Position>::add(&mut self_.error, info);
     }
 
     fn is_unexpected_end_of_input(&self) -> bool {
diff --git a/src/stream/read.rs b/src/stream/read.rs
index 6fa13b0..d1f4e45 100644
--- a/src/stream/read.rs
+++ b/src/stream/read.rs
@@ -138,7 +138,7 @@ where
         F: FnOnce(&mut Tracked<Self>),
     {
         f(self_);
-        self_.error = info;
+        ParseError::<Item, Range, Position>::add(&mut self_.error, info);
     }
 
     fn is_unexpected_end_of_input(&self) -> bool {
-- 
2.43.0


From a5114d027182f94aa4363cf7f52ea0bc6e51f05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 30/31] fix: repeat_until lost the errors of a parser failing
 without committing after earlier elements had committed

---
 src/parser/repeat.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 837a688..94a7b9a 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1315,7 +1315,13 @@ where
 
         loop {
             if *is_parse {
-                let (token, rest) = match self.parser.parse_mode(mode, input, parse_state) {
+                let result = if *committed {
+                    // The error is returned as committed so it must be complete
+                    self.parser.parse_committed_mode(mode, input, parse_state)
+                } else {
+                    self.parser.parse_mode(mode, input, parse_state)
+                };
+                let (token, rest) = match result {
                     PeekErr(err) => {
                         if *committed {
                             return CommitErr(err.error);
-- 
2.43.0


From 71bc6e06840d6c9089f40ce07c73627a0f5c66df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 31/31] fix: iterate lost the errors of a parser failing
 without committing after earlier elements had committed

---
 src/parser/repeat.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 94a7b9a..278f3c7 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1577,7 +1577,13 @@ where
         let mut consume = |item: J::Item| {
             let mut parser = (self.parser)(&item, input);
             let before = input.checkpoint();
-            match parser.parse_mode(mode, input, next) {
+            let result = if *committed {
+                // The error is returned as committed so it must be complete
+                parser.parse_committed_mode(mode, input, next)
+            } else {
+                parser.parse_mode(mode, input, next)
+            };
+            match result {
                 PeekOk(v) => {
                     mode.set_first();
                     Ok(v)
-- 
2.43.0

