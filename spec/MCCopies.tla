------------------------------ MODULE MCCopies ------------------------------
(* All histories of two objects that are set, fitted, cloned, copied and asked.
   The objects live in a store; with Careless copies the second object may point to the record of the first. *)
EXTENDS Copies, Json, Emit
CONSTANTS Names, Values, Data, Bags, Depth, Careful
VARIABLES ref, store, want, hist
vars == <<ref, store, want, hist>>
None == 0
Do(op) == hist' = Append(hist, op)
Op(n, o, p, v, d) == [op |-> n, o |-> o, p |-> p, v |-> v, d |-> d]
Default == [p \in Names |-> 1]
(* ref: where each object is stored; want: what it should be *)
Init == ref = <<1, None>> /\ store = <<Object(Default), Object(Default)>> /\ want = store /\ hist = <<>>
Alive(o) == ref[o] # None
Change(o, r(_), op) == /\ store' = [store EXCEPT ![ref[o]] = r(store[ref[o]])] /\ want' = [want EXCEPT ![o] = r(want[o])]
                    /\ UNCHANGED ref /\ Do(op)
Set(o, p, v) == Alive(o) /\ Change(o, LAMBDA x : Given(x, p, v), Op("set", o, p, v, 0))
Swap(o) == Alive(o) /\ Change(o, NewEstimator, Op("estimator", o, 0, 0, 0))
Fit(o, d) == Alive(o) /\ Change(o, LAMBDA x : Trained(x, d), Op("fit", o, 0, 0, d))
Second(o) == 3 - o
Clone(o) == LET n == Second(o) IN Alive(o) /\ ref' = [ref EXCEPT ![n] = 3 - ref[o]] /\ store' = [store EXCEPT ![3 - ref[o]] = CloneOf(store[ref[o]])]
            /\ want' = [want EXCEPT ![n] = CloneOf(want[o])] /\ Do(Op("clone", o, 0, 0, 0))
Copy(o, how) == LET n == Second(o) IN Alive(o) /\ want' = [want EXCEPT ![n] = CopyOf(want[o])] /\ Do(Op("copy", o, how, 0, 0)) /\
            \/ ref' = [ref EXCEPT ![n] = 3 - ref[o]] /\ store' = [store EXCEPT ![3 - ref[o]] = CopyOf(store[ref[o]])]
            \/ ~Careful /\ ref' = [ref EXCEPT ![n] = ref[o]] /\ UNCHANGED store
Ask(o, b) == Alive(o) /\ Determined(want[o]) /\ UNCHANGED <<ref, store, want>> /\ Do(Op("ask", o, 0, 0, b))
Next == Len(hist) < Depth /\ \E o \in 1..2 :
          \/ \E p \in Names, v \in Values : want[o].settings[p] # v /\ Set(o, p, v)
          \/ Swap(o) \/ Clone(o) \/ \E how \in 1..2 : Copy(o, how)
          \/ \E d \in Data : Fit(o, d) \/ \E b \in Bags : Ask(o, b)
Spec == Init /\ [][Next]_vars
Faithful == \A o \in 1..2 : Alive(o) => store[ref[o]] = want[o]
(* touching one object leaves the other, and asking leaves both *)
Independent == [][\A o \in 1..2 : Alive(o) /\ hist'[Len(hist')].o # o /\ hist'[Len(hist')].op \in {"set", "estimator", "fit", "ask"} => store'[ref'[o]] = store[ref[o]]]_vars
ClonesKnowNothing == hist # <<>> /\ hist[Len(hist)].op = "clone" => ~Fitted(store[ref[Second(hist[Len(hist)].o)]])
Useful == \E i \in 1..Len(hist) : hist[i].op = "ask"
Export == Len(hist) = Depth /\ Useful => EmitLine(ToJson(hist))
=============================================================================
