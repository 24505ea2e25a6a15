-------------------------------- MODULE GLTrace --------------------------------
(***************************************************************************)
(* Trace validation for histories of one grouped list.  Every segment      *)
(* starts with an empty list ("@reset"); every other event is one          *)
(* operation, with what it returned or raised (k, v) and what could be     *)
(* seen afterwards: the groups (g), every view handed out so far (w: its   *)
(* items, empty if it fails as stale), and whether length, iteration both  *)
(* ways, indexing and groups described one and the same sequence (c).      *)
(* Where e.z is false nobody looked, so that only (k, v) is judged; what   *)
(* the operation did shows later.                                          *)
(* e.orig: the groups of the original of the last copy, which nothing may  *)
(* change any more.                                                        *)
(***************************************************************************)
EXTENDS GroupedList, Json, IOUtils, TLC

Events == ndJsonDeserialize(IOEnv.TRACE)
NEvents == Len(Events)

VARIABLES pos, st, orig
vars == <<pos, st, orig>>

Init == \E p \in {q \in 1..NEvents : Events[q].o = "@reset"} : pos = p /\ st = Empty /\ orig = <<>>

Clause(name, p) == IF p THEN {} ELSE {name}

Seen(s) == [w \in 1..Len(s.views) |-> IF Live(s, w) THEN ViewItems(s, w) ELSE <<>>]

Step == /\ pos < NEvents /\ Events[pos + 1].o # "@reset"
        /\ LET e == Events[pos + 1]
               r == Apply(st, e.o, e.a, e.vs)
               o2 == IF e.o \in {"copy", "flatcopy"} \/ (e.o = "vcopy" /\ r.ret.k = "none") THEN Groups(st.items)
                     ELSE IF e.o = "oclr" THEN <<>> ELSE orig
               bad == Clause("result", Fits(r.ret, e.k, e.v))
                      \cup (IF e.z THEN Clause("groups", e.g = Groups(r.st.items))
                                        \cup Clause("inconsistent", e.c)
                                        \cup Clause("views", e.w = Seen(r.st))
                                        \cup Clause("original of a copy changed", e.orig = o2)
                            ELSE {})
           IN /\ IF bad = {} THEN TRUE ELSE PrintT("BAD " \o ToString(e.i) \o " " \o ToString(bad))
              /\ st' = r.st
              /\ orig' = o2
        /\ pos' = pos + 1

Spec == Init /\ [][Step]_vars
Inv == Wf(st)
================================================================================
