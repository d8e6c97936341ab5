---- MODULE MemoTrace ----
EXTENDS TraceBase, Memo
====
