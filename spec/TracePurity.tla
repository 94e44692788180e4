---------------------------- MODULE TracePurity ----------------------------
(* Events
   world  e.world contents (digests) of the objects of the caller
   call   e.name was called; e.world contents of the same objects afterwards, e.exc *)
EXTENDS TraceBase, Purity
TStart == [none |-> "0"]
TAfter(s, e) == IF e.ev = "world" THEN e.world ELSE s
TFailing(s, e) == IF e.ev = "world" THEN {}
                  ELSE If(e.exc = "", "answers") \cup If(Frame(s, e.world), "callers-objects-unchanged")
=============================================================================
