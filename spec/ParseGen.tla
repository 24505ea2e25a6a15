------------------------------- MODULE ParseGen --------------------------------
(***************************************************************************)
(* The parser as a state machine, explored on a miniature Bible: every     *)
(* parse context that some string can lead to, under every flag setting.   *)
(* For each, a sentence that leads to it is printed; the conformance run   *)
(* continues each of them with the references of the vocabulary (Refs) and *)
(* checks the real parser against Meaning.                                 *)
(***************************************************************************)
EXTENDS Render, Parse, Configs, Json

CONSTANT BI, Top

VARIABLES f, ps, hist
vars == <<f, ps, hist>>

B == Bible(BI)
Nums == 0..Top
Refs == {[bk |-> b, ns |-> ns] : b \in {0} \cup {B.order[i] : i \in 1..B.n},
                                 ns \in {<<>>} \cup {<<n>> : n \in Nums} \cup {<<n, m>> : n \in Nums, m \in Nums}}
        \ {[bk |-> 0, ns |-> <<>>]}
None == [bk |-> 0, ns |-> <<>>]
Items == {[sep |-> s, a |-> r, dual |-> FALSE, b |-> None] : s \in {"maj", "min"}, r \in Refs}

Init == f \in 0..3 /\ ps = ParseInit /\ hist = <<>>
Next == /\ Len(hist) < 4
        /\ \E it \in Items : LET q == ParseStep(B, f, ps, it) IN
             /\ q.bad = 0
             /\ ps' = q
             /\ hist' = Append(hist, it)
             /\ f' = f
Spec == Init /\ [][Next]_vars
View == <<f, ps.ctx, ps.n = 0>>

Emit == PrintT("@@" \o ToJson([cfg |-> BI, f |-> f, h |-> hist, refs |-> IF hist = <<>> /\ f = 0 THEN SetToSeq(Refs) ELSE <<>>]))

-----------------------------------------------------------------------------
\* Everything parsed exists and is in order, and the context is meaningful.
Valid == /\ \A i \in 1..Len(Flat(ps.groups)) : IsRange(B, Z(f), Flat(ps.groups)[i])
         /\ WellGrouped(ps.groups)
         /\ ps.n = Len(Flat(ps.groups))
         /\ ps.ctx.at => IsChap(B, ps.ctx.book, ps.ctx.chap)
         /\ ps.n > 0 => IsBook(B, ps.ctx.book)
\* The meaning of a sentence is the fold of its items: the incremental state is the meaning so far.
Incremental == Meaning(B, f, hist) = ps
================================================================================
