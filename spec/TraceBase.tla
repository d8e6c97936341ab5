----------------------------- MODULE TraceBase ------------------------------
(* Checks traces recorded from the implementation against a module that      *)
(* defines a machine by Start (the initial state for a configuration),       *)
(* Fails (the clauses that an event breaks in a state; none if the event is  *)
(* a transition of the specification) and Apply (the next state).            *)
(*                                                                           *)
(* Every trace is a behaviour of its own.  It ends at the first event that   *)
(* breaks a clause of the property PROP (of any property, if PROP is         *)
(* empty), which is reported with these clauses.  Other traces are reported  *)
(* with the tags (kinds of situations) that they went through, and what      *)
(* they broke of other properties.                                           *)
EXTENDS Common
CONSTANTS Start(_), Fails(_, _), Apply(_, _), Tag(_, _)
VARIABLES ti, tl, ts, tt

Traces == JsonDeserialize(IOEnv.TRACES)
tvars == <<ti, tl, ts, tt>>
TView == <<ti, tl>>

TInit == /\ ti \in 1..Len(Traces)
         /\ tl = 1
         /\ ts = Start(Traces[ti].cfg)
         /\ tt = {}

TNext == /\ tl <= Len(Traces[ti].evs)
         /\ LET e == Traces[ti].evs[tl]
                g == Fails(ts, e)
                f == {c \in g : IOEnv.PROP \in {"", c[1]}}
                last == tl = Len(Traces[ti].evs)
                tags == tt \cup {Tag(ts, e)} \cup {"!" \o c[1] \o ": " \o c[2] : c \in g}
            IN IF f = {}
               THEN /\ tl' = tl + 1
                    /\ ts' = Apply(ts, e)
                    /\ tt' = tags
                    /\ ti' = ti
                    /\ (last => PrintT("DONE " \o ToJson([t |-> ti, tags |-> tags])))
               ELSE /\ PrintT("FAIL " \o ToJson([t |-> ti, l |-> tl, f |-> f, s |-> ts]))
                    /\ FALSE

TSpec == TInit /\ [][TNext]_tvars
=============================================================================
