--------------------------------- MODULE Trace ---------------------------------
(***************************************************************************)
(* Trace validation.  A trace is a sequence of recorded calls to the real  *)
(* package; segments that start with "@reset" are independent.  The state  *)
(* is the package's global state: the global flags and the installed       *)
(* configuration.  Every recorded call must satisfy its contract (Ops) in  *)
(* the state the specification is in.                                      *)
(***************************************************************************)
EXTENDS Ops, Configs, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)
NEvents == Len(Events)
SegStarts == {p \in 1..NEvents : Events[p].o = "@reset"}

VARIABLES pos, flags, cfg      \* cfg = [o, m, z, n, seps]

vars == <<pos, flags, cfg>>

ResetCfg(e) == [o |-> e.c[1], m |-> e.c[2], z |-> e.c[3], n |-> e.c[4],
                seps |-> [rs |-> e.seps[1], maj |-> e.seps[2], min |-> e.seps[3], vs |-> e.seps[4], va |-> e.seps[5]]]

TraceInit == \E p \in SegStarts : /\ pos = p
                                  /\ flags = Events[p].n
                                  /\ cfg = ResetCfg(Events[p])

More == pos < NEvents /\ Events[pos + 1].o # "@reset"

\* The user changes the global flags ...
SetFlags == /\ More /\ Events[pos + 1].o = "@flags"
            /\ flags' = Events[pos + 1].n
            /\ pos' = pos + 1 /\ UNCHANGED cfg
\* ... or one part of the Bible data ...
SetData == /\ More /\ Events[pos + 1].o = "@set"
           /\ cfg' = [cfg EXCEPT ![Events[pos + 1].w] = Events[pos + 1].n]
           /\ pos' = pos + 1 /\ UNCHANGED flags
\* ... or a separator.
SetSep == /\ More /\ Events[pos + 1].o = "@sep"
          /\ cfg' = [cfg EXCEPT !.seps[Events[pos + 1].w] = Events[pos + 1].s]
          /\ pos' = pos + 1 /\ UNCHANGED flags

\* What can be seen of the global state itself, at any time.
Observe == /\ More /\ Events[pos + 1].o = "@see"
           /\ LET e == Events[pos + 1]
                  bad == Clause("flags", e.n = flags)
                         \cup Clause("separators", e.seps = <<cfg.seps.rs, cfg.seps.maj, cfg.seps.min, cfg.seps.vs, cfg.seps.va>>)
                         \cup Clause("data", e.parts = <<cfg.o, cfg.m, cfg.z, cfg.n>>)
              IN IF bad = {} THEN TRUE ELSE PrintT("BAD " \o ToString(e.i) \o " " \o ToString(bad))
           /\ pos' = pos + 1 /\ UNCHANGED <<flags, cfg>>

Special == {"@flags", "@set", "@sep", "@see"}
\* A call of the package: leaves the global state alone and meets its contract.
Call == /\ More /\ Events[pos + 1].o \notin Special
        /\ LET e == Events[pos + 1]
               bad == Bad(BibleAt[cfg.o][cfg.m][cfg.z], TextOf(cfg.seps, cfg.n), Eff(e.f, flags), e)
           IN IF bad = {} THEN TRUE ELSE PrintT("BAD " \o ToString(e.i) \o " " \o ToString(bad))
        /\ pos' = pos + 1 /\ UNCHANGED <<flags, cfg>>

TraceNext == SetFlags \/ SetData \/ SetSep \/ Observe \/ Call
TraceSpec == TraceInit /\ [][TraceNext]_vars

\* Every event was consumed: one state per event (checked by the runner against NEvents).
AllConsumed == TLCGet("stats").distinct = NEvents
================================================================================
