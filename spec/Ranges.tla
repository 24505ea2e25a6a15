-------------------------------- MODULE Ranges ---------------------------------
(***************************************************************************)
(* Ranges <<start, end>> of verses: construction, expansion, shape         *)
(* predicates, counting and splitting.                                     *)
(***************************************************************************)
EXTENDS Versification

\* A well-formed range: two verses that exist, in order.
IsRange(B, z, r) == /\ Len(r) = 2
                    /\ IsVerse(B, z, r[1]) /\ IsVerse(B, z, r[2])
                    /\ VerseLE(B, r[1], r[2])
IsRangeSeq(B, z, s) == \A i \in 1..Len(s) : IsRange(B, z, s[i])

\* The same range as a pair of positions.
RO(B, z, r) == <<Ord(B, z, r[1]), Ord(B, z, r[2])>>
ROs(B, z, s) == [i \in 1..Len(s) |-> RO(B, z, s[i])]

IsMultibook(r) == r[1][1] # r[2][1]
HasZero(r)     == r[1][3] = 0 \/ r[2][3] = 0

\* Existing multi-book ranges and existing verse 0s are honoured whatever the flags say.
Honour(f, r) == LET g == IF IsMultibook(r) THEN WithMulti(f) ELSE f
                IN IF HasZero(r) THEN WithZero(g) ELSE g

-----------------------------------------------------------------------------
(* Construction from two verses: swapped if necessary; different books only with the flag. *)
FromVerses(B, f, x, y) ==
  IF x[1] # y[1] /\ ~Multi(f) THEN [k |-> "err", v |-> {"mb"}]
  ELSE [k |-> "range", v |-> IF VerseLE(B, x, y) THEN <<x, y>> ELSE <<y, x>>]

(* Construction from positions <<start book, chapter, verse, end book, chapter, verse>>, -1 = omitted. *)
Normalised(B, a) ==
  LET sb == a[1] sc == a[2] sv == a[3] eb == a[4] ec == a[5] ev == a[6]
      sameBook == eb = -1 \/ eb = sb
      sameChap == ec = -1 \/ ec = sc
  IN IF eb # -1 /\ B.bpos[sb] > B.bpos[eb] THEN <<eb, ec, ev, sb, sc, sv>>
     ELSE IF sameBook /\ sc # -1 /\ ec # -1 /\ sc > ec THEN <<sb, ec, ev, eb, sc, sv>>
     ELSE IF sameBook /\ sc # -1 /\ sameChap /\ sv # -1 /\ ev # -1 /\ sv > ev
          THEN <<sb, sc, ev, eb, ec, sv>>
     ELSE a

FromParts(B, f, a0) ==
  LET z  == Z(f)
      a  == Normalised(B, a0)
      sb == a[1] sc == a[2] sv == a[3]
      eb == IF a[4] = -1 THEN sb ELSE a[4]
      ec == a[5] ev == a[6]
      haveEnd == a[4] # -1 \/ ec # -1 \/ ev # -1
      sChapOk == sc = -1 \/ IsChap(B, sb, sc)
      sOk == /\ (sc = -1 => sv = -1)
             /\ sChapOk
             /\ (sv # -1 => IsVerse(B, z, <<sb, sc, sv>>))
      start == IF sc = -1 THEN BookFirst(B, z, sb)
               ELSE IF sv = -1 THEN FirstOf(B, z, sb, sc) ELSE <<sb, sc, sv>>
      eChap == IF ec = -1 THEN start[2] ELSE ec
      eOk == IF ~haveEnd THEN TRUE
             ELSE IF ec = -1 /\ ev = -1 THEN TRUE
             ELSE IF ev = -1 THEN IsChap(B, eb, ec)
             ELSE IF ec = -1 THEN eb = sb /\ IsVerse(B, z, <<eb, eChap, ev>>)
             ELSE IsVerse(B, z, <<eb, ec, ev>>)
      end == IF ~haveEnd
             THEN (IF sc = -1 THEN BookLast(B, sb) ELSE IF sv = -1 THEN LastOf(B, sb, sc) ELSE <<sb, sc, sv>>)
             ELSE IF ec = -1 /\ ev = -1 THEN BookLast(B, eb)
             ELSE IF ev = -1 THEN LastOf(B, eb, ec)
             ELSE <<eb, eChap, ev>>
      errs == (IF sOk THEN (IF eOk THEN {} ELSE {"inv"}) ELSE {"inv"})
                \cup (IF sb # eb /\ ~Multi(f) THEN {"mb"} ELSE {})
  IN IF errs # {} THEN [k |-> "err", v |-> errs] ELSE [k |-> "range", v |-> <<start, end>>]

-----------------------------------------------------------------------------
(* Whole chapters and books *)
ChapExpand(B, z, x, y) == <<FirstOf(B, z, x[1], x[2]), LastOf(B, y[1], y[2])>>
BookExpand(B, z, x, y) == <<BookFirst(B, z, x[1]), BookLast(B, y[1])>>
WholeBible(B, z)       == <<BookFirst(B, z, B.order[1]), BookLast(B, B.order[B.n])>>

IsWholeChap(B, z, r)    == r[1][1] = r[2][1] /\ r[1][2] = r[2][2] /\ r = ChapExpand(B, z, r[1], r[2])
IsWholeBook(B, z, r)    == r[1][1] = r[2][1] /\ r = BookExpand(B, z, r[1], r[2])
\* The whole chapter/book of the start (end) verse is inside the range, which begins (ends) with it.
SpansStartChap(B, z, r) == r[1] = FirstOf(B, z, r[1][1], r[1][2]) /\ VerseLE(B, LastOf(B, r[1][1], r[1][2]), r[2])
SpansEndChap(B, z, r)   == r[2] = LastOf(B, r[2][1], r[2][2]) /\ VerseLE(B, r[1], FirstOf(B, z, r[2][1], r[2][2]))
SpansStartBook(B, z, r) == r[1] = BookFirst(B, z, r[1][1]) /\ VerseLE(B, BookLast(B, r[1][1]), r[2])
SpansEndBook(B, z, r)   == r[2] = BookLast(B, r[2][1]) /\ VerseLE(B, r[1], BookFirst(B, z, r[2][1]))

-----------------------------------------------------------------------------
(* Counting *)
B2N(p) == IF p THEN 1 ELSE 0
VerseCount(B, z, r) == Ord(B, z, r[2]) - Ord(B, z, r[1]) + 1
ChapCount(B, r)     == ChapNo(B, r[2][1], r[2][2]) - ChapNo(B, r[1][1], r[1][2]) + 1
BookCount(B, r)     == B.bpos[r[2][1]] - B.bpos[r[1][1]] + 1
\* Only units wholly inside the range: drop an incomplete first and an incomplete last one.
WholeChaps(B, z, r) ==
  LET n == ChapCount(B, r) IN
  IF n = 1 THEN B2N(IsWholeChap(B, z, r))
  ELSE n - B2N(r[1] # FirstOf(B, z, r[1][1], r[1][2])) - B2N(r[2] # LastOf(B, r[2][1], r[2][2]))
WholeBooks(B, z, r) ==
  LET n == BookCount(B, r) IN
  IF n = 1 THEN B2N(IsWholeBook(B, z, r))
  ELSE n - B2N(r[1] # BookFirst(B, z, r[1][1])) - B2N(r[2] # BookLast(B, r[2][1]))

SumSeq(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)

-----------------------------------------------------------------------------
(* Splitting: ps is the right partition of r for these settings (n = -1: no limit).  The cuts are
   exactly the ones asked for: each piece is as long as the settings allow. *)
SplitOk(B, z, r, byBook, byChap, n, ps) ==
  LET k == Len(ps)
      o == ROs(B, z, ps)
      endOfChap(p) == p[2] = LastOf(B, p[2][1], p[2][2])
      endOfBook(p) == p[2] = BookLast(B, p[2][1])
      size(i) == o[i][2] - o[i][1] + 1
  IN /\ k >= 1 /\ IsRangeSeq(B, z, ps)
     /\ ps[1][1] = r[1] /\ ps[k][2] = r[2]
     /\ \A i \in 1..(k - 1) : o[i + 1][1] = o[i][2] + 1
     /\ \A i \in 1..k : /\ byBook => ps[i][1][1] = ps[i][2][1]
                        /\ byChap => ps[i][1][1] = ps[i][2][1] /\ ps[i][1][2] = ps[i][2][2]
                        /\ n # -1 => size(i) <= n
     /\ \A i \in 1..(k - 1) : \/ byBook /\ endOfBook(ps[i])
                              \/ byChap /\ endOfChap(ps[i])
                              \/ n # -1 /\ size(i) = n
================================================================================
