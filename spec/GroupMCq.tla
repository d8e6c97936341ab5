---- MODULE GroupMCq ----
EXTENDS GroupMC
Ob(c, set, run, stop) ==
  [attrs |-> [color |-> c, size |-> Absent], setting |-> [color |-> set, size |-> ""],
   meths |-> [run |-> run, stop |-> stop]]
MCObjs == {<<Ob("red", "", "", Absent), Ob(Absent, "", "", "ValueError")>>,
           <<Ob("red", "", "none", ""), Ob("red", "ValueError", "AttributeError", "")>>,
           <<Ob(Absent, "", Absent, "data"), Ob("blue", "", "", Absent)>>}
MCObjs1 == {<<Ob("red", "", "", Absent), Ob(Absent, "", "", "ValueError")>>}
MCOne == {"red"}
MCKey1 == {"k"}
MCNoArgs == {}
MCVals == {"red", "blue"}
MCKeys == {"k", "l"}
MCArgs == {-1, 0, 1}
MCBoth == {"list", "map"}
====
