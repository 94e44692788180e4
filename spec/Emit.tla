------------------------------- MODULE Emit -------------------------------
(* EmitLine(s) appends the string s to the file named by -Dverif.emit and is TRUE
   (java/Emit.java).  Used to hand behaviours found by TLC to the replay drivers. *)
EmitLine(s) == TRUE
===========================================================================
