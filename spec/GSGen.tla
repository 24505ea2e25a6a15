--------------------------------- MODULE GSGen ---------------------------------
(***************************************************************************)
(* The package's global state: the global flags, the four parts of the     *)
(* Bible data and the five separators, each of which the user can set at   *)
(* any time.  Setting one changes that one only.  Random behaviours of     *)
(* this machine (TLC -simulate) are replayed into the real package, with   *)
(* calls in between wherever the settings go together (Usable).            *)
(***************************************************************************)
EXTENDS Configs, Json, TLC, IOUtils

CONSTANT Depth

Chars == <<"-", ";", ",", ":", ".", "~", "|", "/", "=", "&", "+", "^", "]", "*", "<2013>", "<00b7>", "<3001>">>
Slots == <<"rs", "maj", "min", "vs", "va">>

VARIABLES flags, cfg, seps, hist
vars == <<flags, cfg, seps, hist>>

Init == /\ flags = 0
        /\ cfg = [o |-> 1, m |-> 1, z |-> 1, n |-> 1]
        /\ seps = [rs |-> "-", maj |-> ";", min |-> ",", vs |-> ":", va |-> "."]
        /\ hist = <<>>

Distinct(s) == Cardinality({s.rs, s.maj, s.min, s.vs, s.va}) = 5
\* The settings go together: all data is there, names exist for all books of the order, separators differ.
Usable == /\ Consistent(cfg.o, cfg.m)
          /\ cfg.n = 2 => cfg.o \in {2, 6, 7, 9}
          /\ cfg.n = 4 => cfg.o \in {2, 3, 4, 6, 7, 9}
          /\ Distinct(seps)

Step(k, w, v, u) == [k |-> k, w |-> w, v |-> v, ok |-> u]

\* RandomElement only thins out the choices of -simulate, which would otherwise pick separators most of the time.
SetFlags(n) == /\ flags' = n
               /\ UNCHANGED <<cfg, seps>>
               /\ hist' = Append(hist, Step("flags", "", ToString(n), Usable'))
PartChoices(w) == CASE w = "o" -> 1..Len(Orders) [] w = "m" -> 1..Len(Maxes) [] w = "z" -> 1..Len(Zeros) [] w = "n" -> {1, 2, 4, 5}
SetPart(w, n) == /\ cfg' = [cfg EXCEPT ![w] = n]
                 /\ UNCHANGED <<flags, seps>>
                 /\ hist' = Append(hist, Step("part", w, ToString(n), Usable'))
\* Several parts at once, as a user would who installs another Bible.
Presets == { <<1, 1, 1, 1>>, <<2, 2, 2, 1>>, <<2, 2, 2, 2>>, <<3, 3, 3, 1>>, <<4, 4, 4, 1>>, <<5, 1, 1, 1>>, <<6, 2, 2, 2>>, <<7, 5, 5, 1>>,
             <<6, 5, 6, 1>>, <<2, 5, 6, 2>>, <<8, 6, 7, 1>>, <<5, 6, 1, 1>>, <<9, 5, 6, 2>>, <<9, 7, 8, 1>>,
             <<2, 2, 2, 4>>, <<1, 1, 1, 5>>, <<8, 6, 7, 5>>, <<3, 3, 3, 4>>, <<7, 5, 5, 4>> }
SetAll(p) == /\ cfg' = [o |-> p[1], m |-> p[2], z |-> p[3], n |-> p[4]]
             /\ UNCHANGED <<flags, seps>>
             /\ hist' = hist \o << Step("part", "o", ToString(p[1]), FALSE), Step("part", "m", ToString(p[2]), FALSE),
                                   Step("part", "n", ToString(p[4]), FALSE), Step("part", "z", ToString(p[3]), Usable') >>
SetSep(w, c) == /\ seps' = [seps EXCEPT ![w] = c]
                /\ UNCHANGED <<flags, cfg>>
                /\ hist' = Append(hist, Step("sep", w, c, Usable'))
\* The history is printed in the one successor of its last state (TLC evaluates invariants in every successor it considers).
Done == TLCGet("level") = Depth /\ hist' = Append(hist, Step("end", "", "", FALSE)) /\ UNCHANGED <<flags, cfg, seps>>
Change == \E r \in {RandomElement(1..10)} :
          \/ r = 1 /\ \E n \in 0..3 : SetFlags(n)
          \/ r \in 2..4 /\ \E w \in {RandomElement({"o", "m", "z", "n"})} : \E n \in PartChoices(w) : SetPart(w, n)
          \/ r \in 5..7 /\ \E p \in Presets : SetAll(p)
          \/ r \in 8..10 /\ \E i \in 1..5 : \E j \in 1..Len(Chars) :
                              Distinct([seps EXCEPT ![Slots[i]] = Chars[j]]) /\ SetSep(Slots[i], Chars[j])
Next == Done \/ (TLCGet("level") < Depth /\ Change)
Spec == Init /\ [][Next]_vars

Emit == (hist # <<>> /\ hist[Len(hist)].k = "end") => PrintT("@@" \o ToJson(hist))

-----------------------------------------------------------------------------
\* A setting stays until it is set again: each part of the state is its last setting in the history.
LastOne(k, w, d) == IF \E i \in 1..Len(hist) : hist[i].k = k /\ hist[i].w = w
                 THEN hist[CHOOSE i \in 1..Len(hist) : hist[i].k = k /\ hist[i].w = w /\
                             \A j \in (i + 1)..Len(hist) : ~(hist[j].k = k /\ hist[j].w = w)].v ELSE d
LastSet == /\ ToString(flags) = LastOne("flags", "", "0")
           /\ \A w \in {"o", "m", "z", "n"} : ToString(cfg[w]) = LastOne("part", w, "1")
           /\ \A i \in 1..5 : seps[Slots[i]] = LastOne("sep", Slots[i], <<"-", ";", ",", ":", ".">>[i])
================================================================================
