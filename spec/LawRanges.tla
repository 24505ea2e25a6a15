------------------------------- MODULE LawRanges -------------------------------
(***************************************************************************)
(* Laws of ranges: the definitions by first and last verse agree with what *)
(* they mean for the set of verses that a range spans, for every range of  *)
(* the miniature Bibles.                                                   *)
(***************************************************************************)
EXTENDS Ranges, Configs
CONSTANTS Bibles, MaxInner
VARIABLES bi, zz, r
vars == <<bi, zz, r>>
B == Bible(bi)
Triples(i) == {<<b, c, v>> : b \in {Orders[i][k] : k \in 1..Len(Orders[i])}, c \in 1..3, v \in 0..4}
Verses(i, z) == {t \in Triples(i) : IsVerse(Bible(i), z, t)}
Init == \E i \in Bibles, z \in {1, 2} :
          /\ bi = i /\ zz = z
          /\ r \in {p \in Verses(i, z) \X Verses(i, z) : VerseLE(Bible(i), p[1], p[2])}
Next == UNCHANGED vars

\* The verses of a range, a chapter, a book, as sets of positions.
Set(p) == Ord(B, zz, p[1])..Ord(B, zz, p[2])
ChapSet(b, c) == ChapLo(B, zz, b, c)..ChapHi(B, zz, b, c)
BookSet(b) == BookLo(B, zz, b)..BookHi(B, zz, b)
BooksOf == [i \in {2, 3, 4} |-> {Orders[i][k] : k \in 1..Len(Orders[i])}]
ChapsOf == [i \in {2, 3, 4} |-> {bcp \in BooksOf[i] \X (1..3) : IsChap(Bible(i), bcp[1], bcp[2])}]
Books == BooksOf[bi]
Chaps == ChapsOf[bi]

Counts == /\ VerseCount(B, zz, r) = Cardinality(Set(r))
          /\ ChapCount(B, r) = Cardinality({k \in Chaps : ChapSet(k[1], k[2]) \cap Set(r) # {}})
          /\ BookCount(B, r) = Cardinality({b \in Books : BookSet(b) \cap Set(r) # {}})
          /\ WholeChaps(B, zz, r) = Cardinality({k \in Chaps : ChapSet(k[1], k[2]) \subseteq Set(r)})
          /\ WholeBooks(B, zz, r) = Cardinality({b \in Books : BookSet(b) \subseteq Set(r)})
Shapes == /\ IsWholeChap(B, zz, r) <=> \E k \in Chaps : Set(r) = ChapSet(k[1], k[2])
          /\ IsWholeBook(B, zz, r) <=> \E b \in Books : Set(r) = BookSet(b)
          /\ SpansStartChap(B, zz, r) <=> ChapSet(r[1][1], r[1][2]) \subseteq Set(r)
          /\ SpansEndChap(B, zz, r) <=> ChapSet(r[2][1], r[2][2]) \subseteq Set(r)
          /\ SpansStartBook(B, zz, r) <=> BookSet(r[1][1]) \subseteq Set(r)
          /\ SpansEndBook(B, zz, r) <=> BookSet(r[2][1]) \subseteq Set(r)
\* The expansion is the union of the chapters (books) that the range touches: the smallest range of whole ones around it.
Expansion == /\ Set(ChapExpand(B, zz, r[1], r[2])) = UNION {ChapSet(k[1], k[2]) : k \in {k \in Chaps : ChapSet(k[1], k[2]) \cap Set(r) # {}}}
             /\ Set(BookExpand(B, zz, r[1], r[2])) = UNION {BookSet(b) : b \in {b \in Books : BookSet(b) \cap Set(r) # {}}}
             /\ Set(r) \subseteq Set(WholeBible(B, zz)) /\ Set(WholeBible(B, zz)) = 1..Total(B, zz)

\* Construction from parts: naming all six parts gives the range back, whichever way round.
AllFlags == IF zz = 2 THEN 3 ELSE 1
Parts == /\ FromParts(B, AllFlags, r[1] \o r[2]) = [k |-> "range", v |-> r]
         /\ FromParts(B, AllFlags, r[2] \o r[1]) = [k |-> "range", v |-> r]
         /\ IsMultibook(r) => FromParts(B, AllFlags - 1, r[1] \o r[2]) = [k |-> "err", v |-> {"mb"}]
         /\ FromVerses(B, AllFlags, r[1], r[2]) = FromVerses(B, AllFlags, r[2], r[1])
         /\ FromParts(B, AllFlags, <<r[1][1], -1, -1, r[2][1], -1, -1>>) = [k |-> "range", v |-> BookExpand(B, zz, r[1], r[2])]
         /\ FromParts(B, AllFlags, <<r[1][1], r[1][2], -1, r[2][1], r[2][2], -1>>) = [k |-> "range", v |-> ChapExpand(B, zz, r[1], r[2])]

\* Splitting: among all ways to cut the range there is exactly one that the contract accepts, and it is the greedy one.
Cut(S) == LET lo == Ord(B, zz, r[1]) hi == Ord(B, zz, r[2])
              ends == SetToSortSeq(S \cup {hi}, LAMBDA a, b : a < b)
          IN [i \in 1..Len(ends) |-> <<FromOrd(B, zz, IF i = 1 THEN lo ELSE ends[i - 1] + 1), FromOrd(B, zz, ends[i])>>]
Inner == Ord(B, zz, r[1])..(Ord(B, zz, r[2]) - 1)
Must(how, n, from) == LET v == FromOrd(B, zz, n) IN
  \/ (how.bb /\ v = BookLast(B, v[1]))
  \/ (how.bc /\ v = LastOf(B, v[1], v[2]))
  \/ (how.lim # -1 /\ n - from + 1 = how.lim)
Greedy(how) == LET step(acc, n) == IF Must(how, n, acc.from) THEN [from |-> n + 1, cuts |-> acc.cuts \cup {n}] ELSE acc
               IN FoldLeft(step, [from |-> Ord(B, zz, r[1]), cuts |-> {}], [i \in 1..Cardinality(Inner) |-> Ord(B, zz, r[1]) + i - 1]).cuts
Hows == {[bb |-> p, bc |-> q, lim |-> n] : p \in BOOLEAN, q \in BOOLEAN, n \in {-1, 1, 2, 3, 5}}
Accepted(how, S) == SplitOk(B, zz, r, how.bb, how.bc, how.lim, Cut(S))
SplitExists == \A how \in Hows : Accepted(how, Greedy(how))
SplitUnique == Cardinality(Inner) <= MaxInner => \A how \in Hows : LET g == Greedy(how) IN \A S \in SUBSET Inner : Accepted(how, S) => S = g
================================================================================
