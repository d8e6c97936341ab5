---- MODULE FreqTrace ----
EXTENDS TraceBase, Freq
====
