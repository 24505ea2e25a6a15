-------------------------------- MODULE LawSets --------------------------------
(***************************************************************************)
(* Laws of the set operations: for all operands there is one and only one  *)
(* list of ranges that the contract (SetOpBad) accepts, and it obeys the   *)
(* algebra of sets; the predicates agree with it.  Operands are lists of   *)
(* intervals of positions of Bible 4 (books end at positions 4, 6, 7).     *)
(***************************************************************************)
EXTENDS RangeSets, Configs
CONSTANTS Lo, Hi, MaxA, MaxB, Candidates
VARIABLES a, b, f
vars == <<a, b, f>>
BB == Bible(4)
z == 1
Intervals == {p \in (Lo..Hi) \X (Lo..Hi) : p[1] <= p[2]}
Lists(n) == UNION {[1..k -> Intervals] : k \in 0..n}
Init == a = <<>> /\ b = <<>> /\ f = 0
Pick == a = <<>> /\ b = <<>> /\ f = 0 /\ a' \in Lists(MaxA) /\ b' \in Lists(MaxB) /\ f' \in {0, 1}
Next == Pick \/ UNCHANGED vars

\* The one result: maximal runs of members, cut where neighbours are kept apart.
Result(op, x, y) ==
  LET members == {n \in Lo..Hi : Member(op, n, x, y)}
      joined(n) == n \in members /\ n + 1 \in members /\ JoinedAt(BB, z, f, op, n, x, y)
      starts == {n \in members : ~joined(n - 1)}
      ends == {n \in members : ~joined(n)}
      ss == SetToSortSeq(starts, LAMBDA i, j : i < j)
      es == SetToSortSeq(ends, LAMBDA i, j : i < j)
  IN [i \in 1..Len(ss) |-> <<ss[i], es[i]>>]
VersesOf(x) == {n \in Lo..Hi : In(n, x)}
Ops4 == {"or", "and", "sub", "xor"}
Good(op, x, y, res) == SetOpBad(BB, z, f, op, x, y, res) = {}

Exists == \A op \in Ops4 : Good(op, a, b, Result(op, a, b))
\* Every sorted sequence of disjoint intervals.
AllResults == {s \in UNION {[1..k -> Intervals] : k \in 0..(Hi - Lo + 1)} : Sorted(s)}
Unique == Candidates => \A op \in Ops4 : \A s \in AllResults : Good(op, a, b, s) => s = Result(op, a, b)

Algebra ==
  LET or == Result("or", a, b) and == Result("and", a, b) sub == Result("sub", a, b) bus == Result("sub", b, a) xor == Result("xor", a, b)
  IN /\ VersesOf(or) = VersesOf(a) \cup VersesOf(b)
     /\ VersesOf(and) = VersesOf(a) \cap VersesOf(b)
     /\ VersesOf(sub) = VersesOf(a) \ VersesOf(b)
     /\ VersesOf(xor) = (VersesOf(a) \ VersesOf(b)) \cup (VersesOf(b) \ VersesOf(a))
     /\ or = Result("or", b, a) /\ and = Result("and", b, a) /\ xor = Result("xor", b, a)
     /\ VersesOf(xor) = VersesOf(Result("or", sub, bus))
     /\ VersesOf(a) = VersesOf(Result("or", and, sub))
     /\ Result("or", or, <<>>) = or /\ Result("or", or, or) = or      \* results are in normal form
     /\ Result("and", and, and) = and /\ Result("sub", sub, <<>>) = sub
\* Without the multi-book flag no operation invents a range across books.
Honest == f = 0 => \A op \in Ops4 : \A i \in 1..Len(Result(op, a, b)) :
            LET p == Result(op, a, b)[i] IN \A n \in Boundaries(BB, z, p) : Bridged(n, a) \/ Bridged(n, b)
Predicates ==
  /\ Disjoint(a, b) <=> Result("and", a, b) = <<>>
  /\ Includes(a, b) <=> Result("sub", b, a) = <<>>
  /\ Len(a) = 1 /\ Len(b) >= 1 /\ Surrounds(a[1], b) => Includes(a, b) /\ ~Includes(b, a)
  /\ Len(a) = 1 /\ Len(b) = 1 => (Adjacent1(BB, z, f, a[1], b[1]) <=> Disjoint(a, b) /\ Len(Result("or", a, b)) = 1)
================================================================================
