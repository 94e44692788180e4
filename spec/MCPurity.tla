------------------------------ MODULE MCPurity ------------------------------
(* All short sequences of calls on one world: call c of a list with NCalls entries on arrays stored in layout f.  A call with
   a template copies it (a new object) and trains the copy. *)
EXTENDS Purity, TLC, Json, Emit
CONSTANTS NCalls, Layouts, Depth
VARIABLES world, copies, hist
vars == <<world, copies, hist>>
Objects == {"array", "template"}
Init == world = [o \in Objects |-> "given"] /\ copies = <<>> /\ hist = <<>>
Call(c, f) == /\ copies' = Append(copies, IF c % 2 = 0 THEN "trained" ELSE world["template"])
              /\ UNCHANGED world
              /\ hist' = Append(hist, [call |-> c, layout |-> f])
Next == Len(hist) < Depth /\ \E c \in 0..(NCalls - 1), f \in Layouts : (IF hist = <<>> THEN TRUE ELSE f = hist[1].layout) /\ Call(c, f)
Spec == Init /\ [][Next]_vars
Untouched == [][Frame(world, world')]_vars
TemplatesUntrained == world["template"] = "given"
Export == Len(hist) = Depth => EmitLine(ToJson(hist))
=============================================================================
