------------------------------ MODULE SeriesLog -----------------------------
(***************************************************************************)
(* The writer as its caller sees it: what has been accepted, how much of   *)
(* it can already be found in the file, and whether the file is finished.  *)
(* The model of the implementation (Writer) refines this.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANT Series

VARIABLES acc,     \* timestamps accepted, per series
          dur,     \* how many of them are in the file
          status   \* "open", "failed", "closed"
vars == << acc, dur, status >>

Init == acc = [s \in Series |-> <<>>] /\ dur = [s \in Series |-> 0] /\ status = "open"

(* A call: points of one or several series are accepted, each later than   *)
(* the one before it.                                                      *)
Grown(a, b) == /\ Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
               /\ \A k \in (Len(a) + 1)..Len(b) : b[k] >= 0 /\ (k = 1 \/ b[k-1] < b[k])
Accept == /\ status = "open"
          /\ acc' = [s \in Series |-> acc'[s]]
          /\ \A s \in Series : acc'[s] \in Seq(Int) /\ Grown(acc[s], acc'[s])
          /\ UNCHANGED << dur, status >>
(* All of a series that was buffered reaches the file as one chunk.        *)
Persist(s) == /\ status = "open" /\ dur[s] < Len(acc[s])
              /\ dur' = [dur EXCEPT ![s] = Len(acc[s])]
              /\ UNCHANGED << acc, status >>
Fail == status = "open" /\ status' = "failed" /\ UNCHANGED << acc, dur >>
Close == /\ status = "open" /\ \A s \in Series : dur[s] = Len(acc[s])
         /\ status' = "closed" /\ UNCHANGED << acc, dur >>

Next == Accept \/ (\E s \in Series : Persist(s)) \/ Fail \/ Close
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What follows, for any number of series, calls and points (proved in     *)
(* proofs/SeriesLogProof).                                                 *)
Increasing == \A s \in Series : \A j, k \in 1..Len(acc[s]) : j < k => acc[s][j] < acc[s][k]
NoNegative == \A s \in Series : \A k \in 1..Len(acc[s]) : acc[s][k] >= 0
DurableIsAccepted == \A s \in Series : dur[s] <= Len(acc[s])
ClosedIsComplete == status = "closed" => \A s \in Series : dur[s] = Len(acc[s])
OnlyGrows == [][\A s \in Series : dur[s] <= dur'[s] /\ Len(acc[s]) <= Len(acc'[s]) /\ SubSeq(acc'[s], 1, Len(acc[s])) = acc[s]]_vars
OverIsFinal == [][status # "open" => UNCHANGED vars]_vars
=============================================================================
