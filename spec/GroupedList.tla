------------------------------ MODULE GroupedList ------------------------------
(***************************************************************************)
(* The grouped list as a state machine.                                    *)
(*                                                                         *)
(* State: items, a sequence of [v, h] (value, starts-a-group), and views,  *)
(* a sequence giving for every group view handed out so far the position   *)
(* of the item it is anchored on (0 = that item has left the list).  A     *)
(* view is live while its item is in the list and starts a group; a live   *)
(* view shows exactly that group.                                          *)
(*                                                                         *)
(* Every operation is total: an operator Op(st, args) gives [st, ret],     *)
(* where ret is [k, v]; a failing operation leaves the state unchanged.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Empty == [items |-> <<>>, views |-> <<>>]

Ret(k, v) == [k |-> k, v |-> v]
RNone == Ret("none", 0)
RErr(e) == Ret("err", e)
Same(st, r) == [st |-> st, ret |-> r]
To(items, views, r) == [st |-> [items |-> items, views |-> views], ret |-> r]

N(st) == Len(st.items)
Values(st) == [i \in 1..N(st) |-> st.items[i].v]

\* Python index -> position, 0 if out of range.
PosOf(n, i) == IF i >= 0 THEN (IF i < n THEN i + 1 ELSE 0) ELSE (IF i + n >= 0 THEN i + n + 1 ELSE 0)

Item(v, h) == [v |-> v, h |-> h]

\* A value is a number 1000 * key + identity: values compare by their keys, identities only tell equal values apart.
Key(v) == v \div 1000

Shift(views, p, d) == [w \in 1..Len(views) |-> IF views[w] >= p /\ views[w] > 0 THEN views[w] + d ELSE views[w]]

\* End of the group that starts at position p.
GroupEnd(items, p) ==
  IF \E j \in (p + 1)..Len(items) : items[j].h
  THEN (CHOOSE j \in (p + 1)..Len(items) : items[j].h /\ \A k \in (p + 1)..(j - 1) : ~items[k].h) - 1
  ELSE Len(items)
Starts(items) == SelectSeq([i \in 1..Len(items) |-> i], LAMBDA i : items[i].h)
GroupAt(items, p) == [i \in 1..(GroupEnd(items, p) - p + 1) |-> items[p + i - 1].v]
Groups(items) == LET s == Starts(items) IN [g \in 1..Len(s) |-> GroupAt(items, s[g])]

-----------------------------------------------------------------------------
(* Insertion *)
AppendItem(items, v, ng) == Append(items, Item(v, ng \/ Len(items) = 0))

AppendOp(st, v, ng) == To(AppendItem(st.items, v, ng), st.views, RNone)

PrependOp(st, v, ng) ==
  LET n == N(st)
      rest == IF n = 0 \/ ng THEN st.items ELSE [st.items EXCEPT ![1].h = FALSE]
  IN To(<<Item(v, TRUE)>> \o rest, Shift(st.views, 1, 1), RNone)

\* Inserting before an item puts the value in that item's group; at the end, in the last group.
InsertOp(st, i, v) ==
  LET n == N(st)
      p == IF i = n THEN n + 1 ELSE PosOf(n, i)
  IN IF i = 0 THEN PrependOp(st, v, FALSE)
     ELSE IF p = 0 THEN Same(st, RErr("index"))
     ELSE IF p = n + 1 THEN AppendOp(st, v, FALSE)
     ELSE To(SubSeq(st.items, 1, p - 1) \o <<Item(v, st.items[p].h)>>
               \o <<Item(st.items[p].v, FALSE)>> \o SubSeq(st.items, p + 1, n),
             Shift(st.views, p, 1), RNone)

AppendAll(items, vs, ng) ==
  FoldLeft(LAMBDA acc, i : AppendItem(acc, vs[i], ng /\ i = 1), items, [i \in 1..Len(vs) |-> i])
ExtendOp(st, vs)      == To(AppendAll(st.items, vs, FALSE), st.views, RNone)
AppendGroupOp(st, vs) == To(AppendAll(st.items, vs, TRUE), st.views, RNone)

\* From nested groups (construction, copying).
FromGroups(gs) == FoldLeft(LAMBDA acc, g : AppendAll(acc, g, TRUE), <<>>, gs)

InsertGroupOp(st, i) ==
  LET p == PosOf(N(st), i) IN
  IF p = 0 THEN Same(st, RErr("index"))
  ELSE To([st.items EXCEPT ![p].h = TRUE], st.views, RNone)

-----------------------------------------------------------------------------
(* Removal: a group whose first item goes is taken over by its next item; views of it become stale. *)
Without(st, p) ==
  LET n == N(st)
      its == IF st.items[p].h /\ p < n THEN [st.items EXCEPT ![p + 1].h = TRUE] ELSE st.items
      vw  == [w \in 1..Len(st.views) |-> IF st.views[w] = p THEN 0 ELSE st.views[w]]
  IN [items |-> SubSeq(its, 1, p - 1) \o SubSeq(its, p + 1, n), views |-> Shift(vw, p, -1)]

PopOp(st, i) ==
  LET p == PosOf(N(st), i) IN
  IF p = 0 THEN Same(st, RErr("index"))
  ELSE [st |-> Without(st, p), ret |-> Ret("val", st.items[p].v)]

DelOp(st, i) == LET r == PopOp(st, i) IN IF r.ret.k = "err" THEN r ELSE [r EXCEPT !.ret = RNone]

FirstAt(st, v, lo, hi) ==   \* first position in lo..hi holding v, 0 if none
  IF \E i \in lo..hi : Key(st.items[i].v) = Key(v)
  THEN CHOOSE i \in lo..hi : Key(st.items[i].v) = Key(v) /\ \A j \in lo..(i - 1) : Key(st.items[j].v) # Key(v) ELSE 0

RemoveOp(st, v) ==
  LET p == FirstAt(st, v, 1, N(st)) IN
  IF p = 0 THEN Same(st, RErr("value")) ELSE [st |-> Without(st, p), ret |-> RNone]

ClearOp(st) == To(<<>>, [w \in 1..Len(st.views) |-> 0], RNone)

-----------------------------------------------------------------------------
(* Item access *)
GetOp(st, i) == LET p == PosOf(N(st), i) IN
  Same(st, IF p = 0 THEN RErr("index") ELSE Ret("val", st.items[p].v))
SetOp(st, i, v) == LET p == PosOf(N(st), i) IN
  IF p = 0 THEN Same(st, RErr("index")) ELSE To([st.items EXCEPT ![p].v = v], st.views, RNone)
CountOp(st, v) == Same(st, Ret("val", Cardinality({i \in 1..N(st) : Key(st.items[i].v) = Key(v)})))
ContainsOp(st, v) == Same(st, Ret("bool", \E i \in 1..N(st) : Key(st.items[i].v) = Key(v)))
\* index(v, lo, hi) with 0 <= lo < hi <= length, after negative ones are counted from the end
FromEnd(n, i) == IF i < 0 THEN i + n ELSE i
IndexOp(st, v, lo, hi) == LET p == FirstAt(st, v, FromEnd(N(st), lo) + 1, FromEnd(N(st), hi)) IN
  Same(st, IF p = 0 THEN RErr("value") ELSE Ret("val", p - 1))

-----------------------------------------------------------------------------
(* Whole-list operations: all of them leave one single group. *)
OneGroup(items) == [i \in 1..Len(items) |-> Item(items[i].v, i = 1)]
ClearGroupsOp(st) == To(OneGroup(st.items), st.views, RNone)
ReverseOp(st) ==
  LET n == N(st) IN
  To(OneGroup([i \in 1..n |-> st.items[n + 1 - i]]),
     [w \in 1..Len(st.views) |-> IF st.views[w] = 0 THEN 0 ELSE n + 1 - st.views[w]], RNone)
\* Stable ascending sort by key.
Rank(st, i) ==
  1 + Cardinality({j \in 1..N(st) : Key(st.items[j].v) < Key(st.items[i].v)
                                    \/ (Key(st.items[j].v) = Key(st.items[i].v) /\ j < i)})
SortOp(st) ==
  LET n == N(st)
      rk == [i \in 1..n |-> Rank(st, i)]
      inv == [p \in 1..n |-> CHOOSE i \in 1..n : rk[i] = p]
  IN To(OneGroup([p \in 1..n |-> st.items[inv[p]]]),
        [w \in 1..Len(st.views) |-> IF st.views[w] = 0 THEN 0 ELSE rk[st.views[w]]], RNone)

\* In a list of references that stand for the keys, the conversions between verse 0 and verse 1, for the only two keys
\* that they change.
ZeroKey == 4
ConvOp(st, from, to) ==
  To([i \in 1..N(st) |-> IF Key(st.items[i].v) = from THEN [st.items[i] EXCEPT !.v = 1000 * to] ELSE st.items[i]], st.views, RNone)

-----------------------------------------------------------------------------
(* Views *)
Live(st, w) == st.views[w] > 0 /\ st.items[st.views[w]].h
ViewItems(st, w) == GroupAt(st.items, st.views[w])

\* list.groups[g] (Python index); the new view becomes the last one.
ViewOp(st, g) ==
  LET s == Starts(st.items)
      p == PosOf(Len(s), g)
  IN IF p = 0 THEN Same(st, RErr("index"))
     ELSE To(st.items, Append(st.views, s[p]), RNone)

\* Position of item i of view w: -1 stale, 0 out of range.
ViewPos(st, w, i) ==
  IF ~Live(st, w) THEN -1
  ELSE IF i < 0 \/ i >= Len(ViewItems(st, w)) THEN 0 ELSE st.views[w] + i
ViewErr(p, i) == IF i < 0 THEN {"index", "view"} \cap (IF p = -1 THEN {"index", "view"} ELSE {"index"})
                 ELSE IF p = -1 THEN {"view"} ELSE {"index"}
VGetOp(st, w, i) == LET p == ViewPos(st, w, i) IN
  IF p <= 0 THEN Same(st, Ret("errs", ViewErr(p, i))) ELSE Same(st, Ret("val", st.items[p].v))
VSetOp(st, w, i, v) == LET p == ViewPos(st, w, i) IN
  IF p <= 0 THEN Same(st, Ret("errs", ViewErr(p, i))) ELSE To([st.items EXCEPT ![p].v = v], st.views, RNone)
VDelOp(st, w, i) == LET p == ViewPos(st, w, i) IN
  IF p <= 0 THEN Same(st, Ret("errs", ViewErr(p, i))) ELSE [st |-> Without(st, p), ret |-> RNone]

VItemsOp(st, w) == Same(st, IF Live(st, w) THEN Ret("vals", ViewItems(st, w)) ELSE RErr("view"))
VLenOp(st, w)   == Same(st, IF Live(st, w) THEN Ret("val", Len(ViewItems(st, w))) ELSE RErr("view"))
\* The items of a view as the source of new items.
FromViewOp(st, w, ng) == IF ~Live(st, w) THEN Same(st, RErr("view"))
                         ELSE IF ng THEN AppendGroupOp(st, ViewItems(st, w)) ELSE ExtendOp(st, ViewItems(st, w))

FromViewCopyOp(st, w) == IF ~Live(st, w) THEN Same(st, RErr("view"))
  ELSE To(AppendAll(<<>>, ViewItems(st, w), TRUE), [x \in 1..Len(st.views) |-> 0], RNone)

-----------------------------------------------------------------------------
(* All operations, by name.  a: indexes and switches, vs: values. *)
Apply(st, o, a, vs) ==
  CASE o = "app"  -> AppendOp(st, vs[1], a[1] = 1)
    [] o = "pre"  -> PrependOp(st, vs[1], a[1] = 1)
    [] o = "ins"  -> InsertOp(st, a[1], vs[1])
    [] o \in {"ext", "iadd"} -> ExtendOp(st, vs)
    [] o = "grp"  -> AppendGroupOp(st, vs)
    [] o \in {"exts", "iadds"} -> ExtendOp(st, Values(st))
    [] o = "grps" -> AppendGroupOp(st, Values(st))
    [] o = "extv" -> FromViewOp(st, a[1], FALSE)
    [] o = "grpv" -> FromViewOp(st, a[1], TRUE)
    [] o = "gat"  -> InsertGroupOp(st, a[1])
    [] o = "pop"  -> PopOp(st, a[1])
    [] o = "popn" -> PopOp(st, -1)
    [] o = "del"  -> DelOp(st, a[1])
    [] o = "rem"  -> RemoveOp(st, vs[1])
    [] o = "clr"  -> ClearOp(st)
    [] o = "clrg" -> ClearGroupsOp(st)
    [] o = "rev"  -> ReverseOp(st)
    [] o = "sort" -> SortOp(st)
    [] o = "zto1" -> ConvOp(st, ZeroKey, ZeroKey + 1)
    [] o = "oneto0" -> ConvOp(st, ZeroKey + 1, ZeroKey)
    [] o = "get"  -> GetOp(st, a[1])
    [] o = "set"  -> SetOp(st, a[1], vs[1])
    [] o = "cnt"  -> CountOp(st, vs[1])
    [] o = "has"  -> ContainsOp(st, vs[1])
    [] o = "idx"  -> IndexOp(st, vs[1], a[1], a[2])
    [] o = "idxn" -> IF N(st) = 0 THEN Same(st, Ret("errs", {"index", "value"})) ELSE IndexOp(st, vs[1], 0, N(st))
    [] o = "view" -> ViewOp(st, a[1])
    [] o = "vget" -> VGetOp(st, a[1], a[2])
    [] o = "vset" -> VSetOp(st, a[1], a[2], vs[1])
    [] o = "vdel" -> VDelOp(st, a[1], a[2])
    [] o = "vall" -> VItemsOp(st, a[1])
    [] o = "vlen" -> VLenOp(st, a[1])
    \* a value of the wrong type
    [] o = "type" -> Same(st, RErr("type"))
    \* comparing items raised in the middle of sorting, removing, counting or searching
    [] o \in {"xsort", "xrem", "xcnt", "xidx"} -> Same(st, RErr("other:Boom"))
    \* list(list), reversed, the nested form, and whether the list equals a rebuilt one with/without groups
    [] o = "flat" -> Same(st, Ret("vals", Values(st)))
    [] o = "back" -> Same(st, Ret("vals", Reverse(Values(st))))
    [] o = "nest" -> Same(st, Ret("groups", Groups(st.items)))
    [] o = "ngrp" -> Same(st, Ret("val", Len(Starts(st.items))))
    \* an independent copy, which the history then goes on with; views belong to the original
    [] o = "oclr" -> Same(st, RNone)          \* clearing the original of the last copy
    [] o = "copy" -> To(st.items, [w \in 1..Len(st.views) |-> 0], RNone)
    [] o = "flatcopy" -> To(OneGroup(st.items), [w \in 1..Len(st.views) |-> 0], RNone)
    \* a new list made from a view: one group, its items
    [] o = "vcopy" -> FromViewCopyOp(st, a[1])

\* Does a recorded result r (kind, value) fit the specified one?
Fits(ret, k, v) == IF ret.k = "errs" THEN k = "err" /\ v \in ret.v ELSE k = ret.k /\ v = ret.v

-----------------------------------------------------------------------------
(* What a user can see *)
Projection(st) ==
  [groups |-> Groups(st.items), flat |-> Values(st),
   views |-> [w \in 1..Len(st.views) |-> IF Live(st, w) THEN ViewItems(st, w) ELSE <<>>],
   stale |-> [w \in 1..Len(st.views) |-> ~Live(st, w)]]

\* The groups always partition the list, in order, and none is empty.
Wf(st) == /\ N(st) > 0 => st.items[1].h
          /\ FlattenSeq(Groups(st.items)) = Values(st)
          /\ \A g \in 1..Len(Groups(st.items)) : Len(Groups(st.items)[g]) > 0
          /\ \A w \in 1..Len(st.views) : st.views[w] \in 0..N(st)
================================================================================
