-------------------------------- MODULE Render ---------------------------------
(***************************************************************************)
(* The text form of verses, ranges and lists.                              *)
(* Options o: [ab, alt, ns, pg, fs : BOOLEAN] (abbreviated names, alternate *)
(* verse separator, no spaces, preserve groups, force start verses).       *)
(* T = the separators and names in force: [rs, maj, min, vs, va : STRING,  *)
(* abbrev, title, abbrevNS, titleNS : sequences of names by book].         *)
(***************************************************************************)
EXTENDS Grouping, TLC

Name(T, o, b) == IF o.ab THEN (IF o.ns THEN T.abbrevNS[b] ELSE T.abbrev[b])
                 ELSE (IF o.ns THEN T.titleNS[b] ELSE T.title[b])

\* A reference [bk, ns] as in Parse: a book (0 = not written) and numbers.
\* A verse showing only some parts (subset of {"B","C","V"}); the chapter of a one-chapter book is never shown.
VerseRef(B, x, parts0) ==
  LET parts == IF NChap(B, x[1]) = 1 THEN parts0 \ {"C"} ELSE parts0
  IN [bk |-> IF "B" \in parts THEN x[1] ELSE 0,
      ns |-> (IF "C" \in parts THEN <<x[2]>> ELSE <<>>) \o (IF "V" \in parts THEN <<x[3]>> ELSE <<>>)]

RefText(T, o, ref) ==
  LET bk  == IF ref.bk # 0 THEN Name(T, o, ref.bk) ELSE ""
      num == IF ref.ns = <<>> THEN "" ELSE IF Len(ref.ns) = 1 THEN ToString(ref.ns[1])
             ELSE ToString(ref.ns[1]) \o (IF o.alt THEN T.va ELSE T.vs) \o ToString(ref.ns[2])
  IN IF bk = "" THEN num ELSE IF num = "" THEN bk ELSE IF o.ns THEN bk \o num ELSE bk \o " " \o num

VerseText(B, T, o, x, parts) == RefText(T, o, VerseRef(B, x, parts))

NoRef == [bk |-> 0, ns |-> <<>>]
\* An item of a sentence [sep, a, dual, b] as in Parse.
Item(sep, a, dual, b) == [sep |-> sep, a |-> a, dual |-> dual, b |-> IF dual THEN b ELSE NoRef]
ItemText(T, o, it) == IF it.dual THEN RefText(T, o, it.a) \o T.rs \o RefText(T, o, it.b) ELSE RefText(T, o, it.a)

FullV == {"B", "C", "V"}

RangeItem(B, o, z, r) ==
  LET same == ~IsMultibook(r)
      forced == o.fs /\ ~SpansEndChap(B, z, r)
      sp == IF ~SpansStartChap(B, z, r) \/ forced THEN FullV
            ELSE IF SpansStartBook(B, z, r) THEN {"B"} ELSE {"B", "C"}
      atV == "V" \in sp /\ same
      ep0 == IF SpansEndBook(B, z, r) THEN {"B"}
             ELSE IF ~atV /\ SpansEndChap(B, z, r) THEN {"B", "C"} ELSE FullV
      ep == IF same THEN (IF r[1][2] = r[2][2] THEN ep0 \ {"B", "C"} ELSE ep0 \ {"B"}) ELSE ep0
  IN IF IsWholeBook(B, z, r) \/ IsWholeChap(B, z, r) \/ r[1] = r[2]
     THEN Item("", VerseRef(B, r[1], sp), FALSE, NoRef)
     ELSE Item("", VerseRef(B, r[1], sp), TRUE, VerseRef(B, r[2], ep))
RangeText(B, T, o, z, r) == ItemText(T, o, RangeItem(B, o, z, r))

(* Lists.  The context carried from one range to the next: the book and chapter last mentioned, whether a bare
   number would be a verse, and the separator due next. *)
ListStep(B, o, z, st, r) ==
  LET b == r[1][1]
      c == r[1][2]
      cont == st.book = b                        \* continuing the same book
      major == st.sep = "maj"
      ssb == SpansStartBook(B, z, r)
      ssc == SpansStartChap(B, z, r)
      sec == SpansEndChap(B, z, r)
      \* In a preserved group, a range of whole chapters after a verse (or a part-chapter range after
      \* chapters) cannot be written as chapters.
      asVerses == o.pg /\ cont /\ ~major /\ ssc /\ ~ssb /\ (st.at \/ ~sec)
      sep == IF o.pg THEN st.sep
             ELSE IF ssc THEN "maj"
             ELSE IF cont /\ st.at /\ st.chap = c /\ ChapCount(B, r) = 1 THEN st.sep ELSE "maj"
      sp0 == IF ssb THEN {"B"}
             ELSE IF ssc THEN (IF ~cont THEN {"B", "C"} ELSE IF asVerses THEN {"C", "V"} ELSE {"C"})
             ELSE IF ~cont THEN FullV
             ELSE IF st.at /\ st.chap = c /\ ChapCount(B, r) = 1 THEN {"V"} ELSE {"C", "V"}
      sp == IF o.fs /\ ~sec THEN (IF "V" \in sp0 THEN sp0 ELSE sp0 \cup {"C", "V"}) ELSE sp0
      at1 == "V" \in sp
      single == /\ ~asVerses
                /\ IsWholeBook(B, z, r) \/ IsWholeChap(B, z, r) \/ r[1] = r[2]
      at2 == at1 /\ ~IsMultibook(r)
      seb == SpansEndBook(B, z, r)
      chapEnd == ~at2 /\ sec
      chap1 == IF ssb THEN 0 ELSE c
      ep == IF seb THEN {"B"}
            ELSE IF chapEnd THEN (IF IsMultibook(r) THEN {"B", "C"} ELSE {"C"})
            ELSE IF IsMultibook(r) THEN FullV
            ELSE IF chap1 = r[2][2] THEN {"V"} ELSE {"C", "V"}
      item == Item(IF st.first THEN "" ELSE sep, VerseRef(B, r[1], sp), ~single, VerseRef(B, r[2], ep))
  IN [book |-> IF single THEN b ELSE r[2][1],
      chap |-> IF single THEN chap1 ELSE IF seb THEN 0 ELSE r[2][2],
      at |-> IF single THEN at1 ELSE IF seb \/ chapEnd THEN FALSE ELSE TRUE,
      sep |-> "min", first |-> FALSE, items |-> Append(st.items, item)]

\* The sentence that is written for a list of groups.
ListItems(B, o, z, gs) ==
  LET init == [book |-> 0, chap |-> 0, at |-> FALSE, sep |-> "", first |-> TRUE, items |-> <<>>]
      group(st, g) == LET st2 == FoldLeft(LAMBDA acc, r : ListStep(B, o, z, acc, r), st, g)
                      IN IF o.pg THEN [st2 EXCEPT !.sep = "maj", !.at = FALSE] ELSE st2
  IN FoldLeft(group, init, gs).items
SentenceText(T, o, items) ==
  FoldLeft(LAMBDA acc, it : acc \o (IF it.sep = "" THEN "" ELSE (IF it.sep = "maj" THEN T.maj ELSE T.min) \o (IF o.ns THEN "" ELSE " "))
                                \o ItemText(T, o, it), "", items)
ListText(B, T, o, z, gs) == SentenceText(T, o, ListItems(B, o, z, gs))
================================================================================
