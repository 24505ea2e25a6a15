--------------------------------- MODULE Parse ---------------------------------
(***************************************************************************)
(* The meaning of a reference string.                                      *)
(*                                                                         *)
(* A sentence is a sequence of items [sep, a, dual, b]: sep is "", "maj"   *)
(* or "min" (the list separator before the item), a and b are single       *)
(* references [bk, ns] - a book (0 = none written) followed by 0..2        *)
(* numbers - and dual says whether the item is a range "a - b" or just "a".*)
(*                                                                         *)
(* Parsing is a left-to-right state machine over a context [book, chap,    *)
(* at]: the book and chapter that bare numbers refer to, and whether a     *)
(* bare number is a verse.  A major separator returns to chapter level.    *)
(***************************************************************************)
EXTENDS Ranges

NoCtx == [book |-> 0, chap |-> 0, at |-> FALSE]

ParseErr(ctx) == [ok |-> FALSE, r |-> <<>>, ctx |-> ctx]

\* One reference: its range (if it exists) and the context after it.
RefStep(B, z, ctx, ref) ==
  LET b   == IF ref.bk # 0 THEN ref.bk ELSE ctx.book
      n   == Len(ref.ns)
      one == NChap(B, b) = 1
      verse(c, v, ctx2) == IF IsVerse(B, z, <<b, c, v>>)
                           THEN [ok |-> TRUE, r |-> <<<<b, c, v>>, <<b, c, v>>>>, ctx |-> ctx2]
                           ELSE ParseErr(ctx2)
      chapter(c, ctx2)  == IF IsChap(B, b, c)
                           THEN [ok |-> TRUE, r |-> <<FirstOf(B, z, b, c), LastOf(B, b, c)>>, ctx |-> ctx2]
                           ELSE ParseErr(ctx2)
  IN IF ~IsBook(B, b) THEN ParseErr(ctx)
     ELSE IF n = 0 THEN [ok |-> TRUE, r |-> <<BookFirst(B, z, b), BookLast(B, b)>>,
                         ctx |-> [book |-> b, chap |-> ctx.chap, at |-> FALSE]]
     ELSE IF n = 2 THEN verse(ref.ns[1], ref.ns[2], [book |-> b, chap |-> ref.ns[1], at |-> TRUE])
     ELSE IF one   THEN verse(1, ref.ns[1], [book |-> b, chap |-> 1, at |-> IF ref.bk # 0 THEN TRUE ELSE ctx.at])
     ELSE IF ref.bk # 0 THEN chapter(ref.ns[1], [book |-> b, chap |-> ref.ns[1], at |-> FALSE])
     ELSE IF ctx.at THEN verse(ctx.chap, ref.ns[1], ctx)
     ELSE chapter(ref.ns[1], ctx)

\* The range from the first to the second reference, whichever way round they are written.
DualRange(B, r1, r2) == IF VerseLT(B, r2[2], r1[1]) THEN <<r2[1], r1[2]>> ELSE <<r1[1], r2[2]>>

\* bad: 0 = fine, 1 = first reference, 2 = second reference, 3 = the range as a whole.
ItemStep(B, f, ctx0, item) ==
  LET z   == Z(f)
      ctx == IF item.sep = "maj" THEN [ctx0 EXCEPT !.at = FALSE] ELSE ctx0
      p   == RefStep(B, z, ctx, item.a)
      q   == RefStep(B, z, p.ctx, item.b)
  IN IF ~p.ok THEN [bad |-> 1, r |-> <<>>, ctx |-> p.ctx]
     ELSE IF ~item.dual THEN [bad |-> 0, r |-> p.r, ctx |-> p.ctx]
     ELSE IF ~q.ok THEN [bad |-> 2, r |-> <<>>, ctx |-> q.ctx]
     ELSE IF p.r[1][1] # q.r[2][1] /\ ~Multi(f) THEN [bad |-> 3, r |-> <<>>, ctx |-> q.ctx]
     ELSE [bad |-> 0, r |-> DualRange(B, p.r, q.r), ctx |-> q.ctx]

ParseInit == [ctx |-> NoCtx, groups |-> <<>>, bad |-> 0, at |-> 0, n |-> 0]

\* st.at is the index of the first item in error, st.bad which part of it.
ParseStep(B, f, st, item) ==
  IF st.bad # 0 THEN st
  ELSE LET s == ItemStep(B, f, st.ctx, item)
           gs == IF st.n = 0 \/ item.sep = "maj" THEN Append(st.groups, <<s.r>>)
                 ELSE [st.groups EXCEPT ![Len(st.groups)] = Append(@, s.r)]
       IN IF s.bad # 0 THEN [st EXCEPT !.bad = s.bad, !.at = st.n + 1]
          ELSE [ctx |-> s.ctx, groups |-> gs, bad |-> 0, at |-> 0, n |-> st.n + 1]

Meaning(B, f, sentence) == FoldLeft(LAMBDA st, item : ParseStep(B, f, st, item), ParseInit, sentence)
================================================================================
