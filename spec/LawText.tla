-------------------------------- MODULE LawText --------------------------------
(***************************************************************************)
(* Laws of text: the specified text of every reference, read by the        *)
(* specified parser, means that reference - the two halves of the          *)
(* specification that are written independently agree.  For lists this is  *)
(* also why regrouping must follow exactly its rule.                       *)
(***************************************************************************)
EXTENDS Render, Parse, Configs
CONSTANTS Bibles, MaxRanges, Fs
VARIABLES bi, f, o, gs
vars == <<bi, f, o, gs>>
Triples(i) == {<<b, c, v>> : b \in {Orders[i][k] : k \in 1..Len(Orders[i])}, c \in 1..3, v \in 0..4}
VersesOf == [i \in Bibles |-> [zz \in {1, 2} |-> {t \in Triples(i) : IsVerse(Bible(i), zz, t)}]]
RangesOf == [i \in Bibles |-> [g \in Fs |-> {p \in VersesOf[i][Z(g)] \X VersesOf[i][Z(g)] :
                                  VerseLE(Bible(i), p[1], p[2]) /\ (Multi(g) \/ ~IsMultibook(p))}]]
Opts == {[ab |-> FALSE, alt |-> FALSE, ns |-> FALSE, pg |-> p, fs |-> q] : p \in BOOLEAN, q \in BOOLEAN}
Init == bi \in Bibles /\ f \in Fs /\ o \in Opts /\ gs = <<>>
\* Another range, in the last group or in a new one.
Next == \E r \in RangesOf[bi][f] : /\ Len(Flat(gs)) < MaxRanges
          /\ \/ gs' = Append(gs, <<r>>)
             \/ gs # <<>> /\ gs' = [gs EXCEPT ![Len(gs)] = Append(@, r)]
          /\ UNCHANGED <<bi, f, o>>

B == Bible(bi)
Read == Meaning(B, f, ListItems(B, o, Z(f), gs))
RoundTrip == gs # <<>> => LET m == Read IN
               /\ m.bad = 0
               /\ IF o.pg THEN m.groups = gs
                  ELSE m.groups = GroupsFrom(Flat(gs), Heads(B, Z(f), Flat(gs))) \/ (o.fs /\ Flat(m.groups) = Flat(gs))
One == Len(gs) = 1 /\ Len(gs[1]) = 1 =>
         LET r == gs[1][1] m == Meaning(B, f, <<RangeItem(B, o, Z(f), r)>>)
             v == Meaning(B, f, <<Item("", VerseRef(B, r[1], FullV), FALSE, NoRef)>>)
         IN /\ m.bad = 0 /\ m.groups = gs
            /\ v.bad = 0 /\ v.groups = <<<<<<r[1], r[1]>>>>>>
            /\ RangeItem(B, o, Z(f), r) = ListItems(B, o, Z(f), gs)[1]
Regrouping == LET s == Flat(gs) g == GroupsFrom(s, Heads(B, Z(f), s)) IN
              Flat(g) = s /\ WellGrouped(g) /\ Regrouped(B, Z(f), g)
\* The shortest form: no item with fewer parts in the place of the last one (with the same separator) means the same.
Cost(ref) == (IF ref.bk = 0 THEN 0 ELSE 1) + Len(ref.ns)
ItemCost(it) == Cost(it.a) + (IF it.dual THEN Cost(it.b) ELSE 0)
RefsFor(x) == {[bk |-> k, ns |-> n] : k \in {0, x[1]}, n \in {<<>>, <<x[2]>>, <<x[3]>>, <<x[2], x[3]>>}} \ {NoRef}
Shorter(it, r) == LET n == ItemCost(it) IN
  {i \in {Item(it.sep, p, FALSE, NoRef) : p \in RefsFor(r[1])} \cup {Item(it.sep, p, TRUE, q) : p \in RefsFor(r[1]), q \in RefsFor(r[2])} : ItemCost(i) < n}
\* Conventional: each end of a range names something that lies wholly in the range.
Conventional(ctx0, it, r) ==
  LET ctx == IF it.sep = "maj" THEN [ctx0 EXCEPT !.at = FALSE] ELSE ctx0
      p == RefStep(B, Z(f), ctx, it.a)
      q == RefStep(B, Z(f), p.ctx, it.b)
      inside(x) == x.ok /\ VerseLE(B, r[1], x.r[1]) /\ VerseLE(B, x.r[2], r[2])
  IN inside(p) /\ (it.dual => inside(q))
Shortest == gs # <<>> /\ ~o.fs /\ ~o.pg =>
  LET items == ListItems(B, o, Z(f), gs)
      n == Len(items)
      before == Meaning(B, f, SubSeq(items, 1, n - 1))
      m == ParseStep(B, f, before, items[n])
      r == Flat(gs)[n]
  IN \A it \in Shorter(items[n], r) :
       IF n = 1 /\ it.a.bk = 0 THEN TRUE
       ELSE LET k == ParseStep(B, f, before, it) IN k.bad # 0 \/ k.groups # m.groups \/ ~Conventional(before.ctx, it, r)
================================================================================
