------------------------------- MODULE MCBase -------------------------------
(* The machine of a module as a state machine for exhaustive exploration.    *)
(* Its transitions are exactly the events that break no clause, out of the   *)
(* candidates that Events gives (which include outputs that are not allowed  *)
(* by the specification, so clauses decide).  ev is the last event, hist a   *)
(* history variable on which properties are stated; neither influences the   *)
(* state.                                                                    *)
EXTENDS Common
CONSTANTS Start(_), Fails(_, _), Apply(_, _), Events(_), Cfgs, HStart(_), HNext(_, _, _), MaxDepth
VARIABLES st, ev, hist

mvars == <<st, ev, hist>>
NoEvent == [op |-> "none"]

MInit == \E c \in Cfgs : st = Start(c) /\ ev = NoEvent /\ hist = HStart(c)
MNext == \E e \in Events(st) :
            /\ Fails(st, e) = {}
            /\ st' = Apply(st, e)
            /\ ev' = e
            /\ hist' = HNext(hist, st, e)
MSpec == MInit /\ [][MNext]_mvars

(* For checking properties: states are distinguished by history.             *)
MView == <<st, hist>>
MDepth == TLCGet("level") <= MaxDepth
(* For generating tests: the graph of states, with one labelled edge for     *)
(* each transition.                                                          *)
GView == st
GLog == PrintT("EDGE " \o ToJson([lv |-> TLCGet("level"), f |-> st, e |-> ev', t |-> st']))
=============================================================================
