--------------------------------- MODULE GLGen ---------------------------------
(***************************************************************************)
(* All histories of a grouped list up to a bound.  TLC explores every      *)
(* distinct state (list shape and views) and, at each, every operation     *)
(* with every argument; it checks the design-level properties and prints   *)
(* for every state a history that leads to it and the operations that are  *)
(* to be tried there, which are then replayed into the real package.       *)
(***************************************************************************)
EXTENDS GroupedList, Json, TLC

CONSTANTS MaxLen, MaxViews, Keys

VARIABLES st, hist
vars == <<st, hist>>

Op(o, a, vs) == [o |-> o, a |-> a, vs |-> vs]
KV == {1000 * k : k \in Keys}
Ix(n) == (-(n + 1))..(n + 1)

\* Operations that change the list.
Changes(s) ==
  LET n == N(s) room(k) == n + k <= MaxLen IN
  (IF room(1) THEN {Op("app", <<g>>, <<v>>) : g \in {0, 1}, v \in KV} \cup {Op("pre", <<g>>, <<v>>) : g \in {0, 1}, v \in KV}
                   \cup {Op("ins", <<i>>, <<v>>) : i \in Ix(n), v \in KV}
                   \cup {Op(o, <<>>, <<v>>) : o \in {"ext", "iadd", "grp"}, v \in KV} ELSE {})
  \cup (IF room(2) THEN {Op(o, <<>>, <<v, w>>) : o \in {"ext", "grp"}, v \in KV, w \in KV} ELSE {})
  \cup {Op(o, <<>>, <<>>) : o \in {"ext", "grp"}}
  \cup (IF room(n) THEN {Op(o, <<>>, <<>>) : o \in {"exts", "iadds", "grps"}} ELSE {})
  \cup {Op(o, <<w>>, <<>>) : o \in {"extv", "grpv"}, w \in {x \in 1..Len(s.views) : Live(s, x) => room(Len(ViewItems(s, x)))}}
  \cup {Op("vcopy", <<w>>, <<>>) : w \in 1..Len(s.views)}
  \cup {Op(o, <<i>>, <<>>) : o \in {"gat", "pop", "del"}, i \in Ix(n)}
  \cup {Op(o, <<>>, <<>>) : o \in {"popn", "clr", "clrg", "rev", "sort", "copy", "flatcopy"}}
  \cup {Op("rem", <<>>, <<v>>) : v \in KV \cup {9000}}
  \cup {Op("set", <<i>>, <<v>>) : i \in Ix(n), v \in KV}
  \cup (IF Len(s.views) < MaxViews THEN {Op("view", <<g>>, <<>>) : g \in Ix(Len(Starts(s.items)))} ELSE {})
  \cup {Op("vset", <<w, i>>, <<v>>) : w \in 1..Len(s.views), i \in -1..n, v \in KV}
  \cup {Op("vdel", <<w, i>>, <<>>) : w \in 1..Len(s.views), i \in -1..n}

\* Operations that only look.
Looks(s) ==
  LET n == N(s) IN
  {Op("get", <<i>>, <<>>) : i \in Ix(n)}
  \cup {Op(o, <<>>, <<v>>) : o \in {"cnt", "has", "idxn"}, v \in KV \cup {9000}}
  \cup {Op("idx", <<x[1], x[2]>>, <<v>>) : v \in KV, x \in {y \in (-n..n) \X (-n..n) : 0 <= FromEnd(n, y[1]) /\ FromEnd(n, y[1]) < FromEnd(n, y[2])}}
  \cup {Op("vget", <<w, i>>, <<>>) : w \in 1..Len(s.views), i \in -1..n}
  \cup {Op(o, <<w>>, <<>>) : o \in {"vall", "vlen"}, w \in 1..Len(s.views)}
  \cup {Op(o, <<>>, <<>>) : o \in {"flat", "back", "nest", "ngrp"}}

Init == st = Empty /\ hist = <<>>

\* One line per state: a history leading to it, everything that can be tried there.
Emit(s, h) == PrintT("@@" \o ToJson([h |-> h, c |-> SetToSeq(Changes(s)), l |-> SetToSeq(Looks(s))]))

Next == \E op \in Changes(st) :
          LET r == Apply(st, op.o, op.a, op.vs) IN
          /\ st' = r.st
          /\ hist' = Append(hist, op)

Spec == Init /\ [][Next]_vars
View == st

-----------------------------------------------------------------------------
(* Design-level properties, and the output. *)
Inv == Wf(st)
EmitInv == Emit(st, hist)

\* A failing operation changes nothing; looking changes nothing.
FailSafe == \A op \in Changes(st) \cup Looks(st) :
              LET r == Apply(st, op.o, op.a, op.vs) IN
              /\ r.ret.k \in {"err", "errs"} => r.st = st
              /\ op \in Looks(st) => r.st = st
              /\ Wf(r.st)
\* A view whose item has left the list never becomes live again.
Gone == [][\A w \in 1..Len(st.views) : st.views[w] = 0 => st'.views[w] = 0]_vars
\* Writing through a view is writing through the list.
ViewWrites == \A w \in 1..Len(st.views) : Live(st, w) =>
                \A i \in 0..(Len(ViewItems(st, w)) - 1) :
                  /\ VSetOp(st, w, i, 5000).st = SetOp(st, st.views[w] + i - 1, 5000).st
                  /\ VDelOp(st, w, i).st = DelOp(st, st.views[w] + i - 1).st
\* Sorting is a stable permutation.
SortLaw == LET r == SortOp(st).st.items IN
           /\ \A i \in 1..(N(st) - 1) : Key(r[i].v) <= Key(r[i + 1].v)
           /\ \A k \in Keys : SelectSeq(Values(st), LAMBDA v : Key(v) = k) =
                               SelectSeq(Values(SortOp(st).st), LAMBDA v : Key(v) = k)
           /\ SortOp(SortOp(st).st).st = SortOp(st).st
           /\ Values(ReverseOp(ReverseOp(st).st).st) = Values(st)
================================================================================
