------------------------------ MODULE RangeSets --------------------------------
(***************************************************************************)
(* Lists of ranges as sets of verses.  Operands and results are sequences  *)
(* of position pairs.  The result of every set operation is determined     *)
(* completely: which verses it has, and where it is cut.                   *)
(***************************************************************************)
EXTENDS Ranges

In(n, s) == \E i \in 1..Len(s) : s[i][1] <= n /\ n <= s[i][2]
\* Both n and n + 1 lie in one range of s.
Bridged(n, s) == \E i \in 1..Len(s) : s[i][1] <= n /\ n + 1 <= s[i][2]

\* Every position at which membership in s can change, on both sides.
Edges(s) == UNION {{s[i][1] - 1, s[i][1], s[i][2], s[i][2] + 1} : i \in 1..Len(s)}

IsLastInBook(B, z, n) == \E i \in 2..(B.n + 1) : B.base[z][i] = n

Member(op, n, a, b) == CASE op = "or"  -> In(n, a) \/ In(n, b)
                         [] op = "and" -> In(n, a) /\ In(n, b)
                         [] op = "sub" -> In(n, a) /\ ~In(n, b)
                         [] op = "xor" -> In(n, a) # In(n, b)

\* Without the multi-book flag, two neighbouring verses of different books share a range of the result only
\* if the operation has an existing multi-book range to honour there.
Bridge(op, n, a, b) == CASE op = "or"  -> Bridged(n, a) \/ Bridged(n, b)
                         [] op = "and" -> Bridged(n, a) /\ Bridged(n, b)
                         [] op = "sub" -> Bridged(n, a)
                         [] op = "xor" -> Bridged(n, a) \/ Bridged(n, b)

JoinedAt(B, z, f, op, n, a, b) == Multi(f) \/ ~IsLastInBook(B, z, n) \/ Bridge(op, n, a, b)

\* The interior book boundaries of a range of positions.
Boundaries(B, z, p) == {B.base[z][i] : i \in {j \in 2..B.n : p[1] <= B.base[z][j] /\ B.base[z][j] < p[2]}}

SameVerses(op, a, b, res) == \A n \in (Edges(a) \cup Edges(b) \cup Edges(res)) : In(n, res) <=> Member(op, n, a, b)

Sorted(res) == \A i \in 1..(Len(res) - 1) : res[i][2] < res[i + 1][1]

\* Nothing that should be one range is cut in two, ...
NotCut(B, z, f, op, a, b, res) ==
  \A i \in 1..(Len(res) - 1) : res[i][2] + 1 = res[i + 1][1] => ~JoinedAt(B, z, f, op, res[i][2], a, b)
\* ... and nothing is joined that the flags keep apart.
NotJoined(B, z, f, op, a, b, res) ==
  \A i \in 1..Len(res) : \A n \in Boundaries(B, z, res[i]) : JoinedAt(B, z, f, op, n, a, b)

SetOpBad(B, z, f, op, a, b, res) ==
  (IF SameVerses(op, a, b, res) THEN {} ELSE {"verses"})
    \cup (IF Sorted(res) THEN {} ELSE {"sorted-disjoint"})
    \cup (IF NotCut(B, z, f, op, a, b, res) THEN {} ELSE {"adjacent-not-merged"})
    \cup (IF NotJoined(B, z, f, op, a, b, res) THEN {} ELSE {"joined-across-books"})

-----------------------------------------------------------------------------
(* Predicates, on position pairs *)
Disjoint(a, b) == \A i \in 1..Len(a), j \in 1..Len(b) : a[i][2] < b[j][1] \/ b[j][2] < a[i][1]
Includes(a, b) == \A n \in (Edges(a) \cup Edges(b)) : In(n, b) => In(n, a)
Surrounds(p, b) == \A i \in 1..Len(b) : p[1] < b[i][1] /\ b[i][2] < p[2]
Adjacent1(B, z, f, p, q) ==
  \/ p[2] + 1 = q[1] /\ (Multi(f) \/ ~IsLastInBook(B, z, p[2]))
  \/ q[2] + 1 = p[1] /\ (Multi(f) \/ ~IsLastInBook(B, z, q[2]))
AdjacentTo(B, z, f, p, b) == Disjoint(<<p>>, b) /\ \E i \in 1..Len(b) : Adjacent1(B, z, f, p, b[i])
================================================================================
