------------------------------- MODULE LawVerses -------------------------------
(***************************************************************************)
(* Laws of verses: the reading order is a bijection with 1..Total, and     *)
(* verse arithmetic is arithmetic on it.  Checked for every pair of verses *)
(* of the miniature Bibles (and every distance), with and without verse 0. *)
(***************************************************************************)
EXTENDS Ranges, Configs
CONSTANT Bibles
VARIABLES bi, f, x, y
vars == <<bi, f, x, y>>
B == Bible(bi)
Triples(i) == {<<b, c, v>> : b \in {Orders[i][k] : k \in 1..Len(Orders[i])}, c \in 1..3, v \in 0..4}
Verses(i, z) == {t \in Triples(i) : IsVerse(Bible(i), z, t)}
Init == \E i \in Bibles : \E g \in 0..3 : /\ bi = i /\ f = g /\ x \in Verses(i, Z(g)) /\ y \in Verses(i, Z(g))
Next == UNCHANGED vars
z == Z(f)

OrdBijection == /\ Ord(B, z, x) \in 1..Total(B, z)
             /\ FromOrd(B, z, Ord(B, z, x)) = x
             /\ Ord(B, z, x) = Ord(B, z, y) <=> x = y
             /\ Cardinality(Verses(bi, z)) = Total(B, z)
OrderIso == VerseLT(B, x, y) <=> Ord(B, z, x) < Ord(B, z, y)
Trichotomy == Cardinality({k \in 1..3 : CASE k = 1 -> VerseLT(B, x, y) [] k = 2 -> x = y [] k = 3 -> VerseLT(B, y, x)}) = 1
\* Adding the difference leads from one verse to the other - unless that leaves the book and may not.
Difference == LET d == Ord(B, z, y) - Ord(B, z, x) IN
              AddV(B, f, x, d) = IF Multi(f) \/ x[1] = y[1] THEN y ELSE <<>>
\* One step at a time.
Steps == LET n == AddV(B, f, x, 1) IN
         IF n = <<>> THEN (IF Multi(f) THEN x = WholeBible(B, z)[2] ELSE x = BookLast(B, x[1]))
         ELSE /\ VerseLT(B, x, n) /\ AddV(B, f, n, -1) = x
              /\ ~(VerseLT(B, x, y) /\ VerseLT(B, y, n))
Units == /\ ChapLo(B, z, x[1], x[2]) = Ord(B, z, FirstOf(B, z, x[1], x[2])) /\ ChapHi(B, z, x[1], x[2]) = Ord(B, z, LastOf(B, x[1], x[2]))
         /\ BookLo(B, z, x[1]) = Ord(B, z, BookFirst(B, z, x[1])) /\ BookHi(B, z, x[1]) = Ord(B, z, BookLast(B, x[1]))
         /\ (y[1] = x[1] /\ y[2] = x[2]) <=> (ChapLo(B, z, x[1], x[2]) <= Ord(B, z, y) /\ Ord(B, z, y) <= ChapHi(B, z, x[1], x[2]))
\* Without verse 0 the same verses except the 0s, in the same order.
ZeroEmbeds == x[3] # 0 /\ y[3] # 0 => (Ord(B, 1, x) < Ord(B, 1, y) <=> Ord(B, 2, x) < Ord(B, 2, y))
To1(v) == IF v[3] = 0 THEN <<v[1], v[2], 1>> ELSE v
To0(v) == IF v[3] = 1 /\ v[2] \in B.v0[v[1]] THEN <<v[1], v[2], 0>> ELSE v
\* The conversions keep the order (weakly) and undo each other where they change something.
Conversions == /\ To1(x) # x => To0(To1(x)) = x
               /\ To0(x) # x => To1(To0(x)) = x
               /\ To1(To1(x)) = To1(x) /\ To0(To0(x)) = To0(x)
               /\ VerseLE(B, x, y) => VerseLE(B, To1(x), To1(y))
               /\ IsVerse(B, 1, To1(x)) /\ IsVerse(B, 2, To0(x))
\* The conventional Bible.
Canon == LET C == Bible(1) IN C.n = 66 /\ C.cbase[67] = 1189 /\ Cardinality(C.v0[19]) = 116 /\ Total(C, 2) = Total(C, 1) + 116
================================================================================
