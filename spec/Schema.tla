------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* What a sequence of declarations declares.  Of several declarations of a *)
(* device the last counts, and in it the last of each measurement.  Names  *)
(* are numbers (positions in the list of names of a trace).                *)
(*                                                                         *)
(* A declaration is made by a builder of its own, or `again' by the one of *)
(* the previous declaration: it holds all that builder was given, also     *)
(* what it was given `late', after the previous declaration was made.      *)
(***************************************************************************)
EXTENDS Words

(* Where each of the values of a sequence is found last, in order.         *)
LastOnes(xs) ==
    LET is == Tup([i \in 1..Len(xs) |-> i], Len(xs))
        last == FoldLeft(LAMBDA a, i : [a EXCEPT ![xs[i]] = i], TLCEval([x \in { xs[i] : i \in 1..Len(xs) } |-> 0]), is)
    IN  SelectSeq(is, LAMBDA i : last[xs[i]] = i)
LastGroups(t) == LastOnes(Tup([i \in 1..Len(t.decl) |-> t.decl[i].d], Len(t.decl)))
LastMs(ms) == LastOnes(Tup([j \in 1..Len(ms) |-> ms[j][1]], Len(ms)))

RECURSIVE Given(_,_)
Given(t, i) == IF i > 1 /\ t.decl[i].again THEN Given(t, i - 1) \o t.decl[i-1].late \o t.decl[i].ms ELSE t.decl[i].ms

SeriesOf(t) ==
    FoldLeft(LAMBDA acc, i :
               LET d == t.decl[i].d
                   ms == Given(t, i)
               IN  acc \o FoldLeft(LAMBDA a, j : Append(a,
                            [d |-> d, m |-> ms[j][1], type |-> ms[j][2],
                             encoding |-> ms[j][3], compression |-> ms[j][4]]),
                          <<>>, LastMs(ms)),
             <<>>, LastGroups(t))

NameNo(t, bytes) ==
    LET is == { i \in 1..Len(t.names) : t.names[i] = bytes } IN IF is = {} THEN 0 ELSE CHOOSE i \in is : TRUE
=============================================================================
