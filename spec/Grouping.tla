------------------------------- MODULE Grouping --------------------------------
(***************************************************************************)
(* The conventional grouping of a list of ranges: a range stays in the     *)
(* group of its predecessor exactly if the two read as verses of one       *)
(* chapter ("Matt 2:3-5, 9"), and starts a new group otherwise.            *)
(***************************************************************************)
EXTENDS Ranges

\* After writing r, a bare number would be read as a verse number.
EndsAtVerse(B, z, r) ==
  IF IsWholeBook(B, z, r) \/ IsWholeChap(B, z, r) THEN FALSE
  ELSE IF r[1] = r[2] THEN TRUE
  ELSE IF IsMultibook(r) \/ SpansStartChap(B, z, r) THEN ~SpansEndChap(B, z, r)
  ELSE TRUE

Continues(B, z, prev, r) ==
  /\ EndsAtVerse(B, z, prev)
  /\ ~SpansStartChap(B, z, r)
  /\ ChapCount(B, r) = 1
  /\ prev[2][1] = r[1][1] /\ prev[2][2] = r[1][2]

\* Heads(s)[i] is TRUE if the i-th range starts a group.
Heads(B, z, s) == [i \in 1..Len(s) |-> i = 1 \/ ~Continues(B, z, s[i - 1], s[i])]

\* Flattening and the head vector of a sequence of groups.
Flat(gs) == FlattenSeq(gs)
HeadsOf(gs) == FlattenSeq([g \in 1..Len(gs) |-> [i \in 1..Len(gs[g]) |-> i = 1]])
WellGrouped(gs) == \A g \in 1..Len(gs) : Len(gs[g]) > 0

Regrouped(B, z, gs) == HeadsOf(gs) = Heads(B, z, Flat(gs))

\* Build groups from a sequence and its head vector.
GroupsFrom(s, h) ==
  FoldLeft(LAMBDA acc, i : IF h[i] THEN Append(acc, <<s[i]>>)
                           ELSE [acc EXCEPT ![Len(acc)] = Append(@, s[i])],
           <<>>, [i \in 1..Len(s) |-> i])
================================================================================
