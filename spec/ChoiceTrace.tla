---- MODULE ChoiceTrace ----
EXTENDS TraceBase, Choice
====
