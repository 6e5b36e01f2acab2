------------------------------ MODULE Contract ------------------------------
(***************************************************************************)
(* What a caller may rely on: which points are accepted, which refusals    *)
(* are legitimate, and what a batch does.  Pure operators, shared by the   *)
(* abstract state machine (SeriesLog), the model of the implementation     *)
(* (Writer) and the validation of recorded executions (Trace).             *)
(*                                                                         *)
(* A declaration is a record with fields type and encoding; a point is     *)
(* [t |-> timestamp, v |-> value, type |-> type of the value].             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

CONSTANTS Before(_,_),      \* the order of timestamps
          Negative(_)

Undeclared == [type |-> "undeclared", encoding |-> "undeclared"]

(* Encodings the format offers for a type.                                 *)
Available(type, encoding) == encoding = "PLAIN" \/ (encoding = "TS2DIFF" /\ type \in {"INT32", "INT64"})

(* The reasons for which a point may be refused, given the declaration of  *)
(* its series and the points accepted so far (a sequence of << t, v >>).   *)
(* Without a reason it has to be accepted, with one it has to be refused.  *)
Reasons(decl, accepted, p) ==
    IF decl.type = "undeclared" THEN {"IllegalState"}
    ELSE (IF p.type # decl.type THEN {"WrongTypeForSeries"} ELSE {})
         \cup (IF ~Available(decl.type, decl.encoding) THEN {"Encoding"} ELSE {})
         \cup (IF \/ Negative(p.t)
                  \/ accepted # <<>> /\ ~Before(accepted[Len(accepted)][1], p.t)
               THEN {"OutOfOrderData"} ELSE {})

Accept(accepted, p) == Append(accepted, << p.t, p.v >>)

(* A batch: points for series (numbers in acc, 0: undeclared), one after   *)
(* the other up to the first refused one.  Returns the new log, and the    *)
(* reasons for which that one is refused ({} if all are accepted).         *)
BatchStep(st, sp, decls) ==
    IF st.reasons # {} THEN st
    ELSE LET s == sp[1]
             p == sp[2]
             r == Reasons(IF s = 0 THEN Undeclared ELSE decls[s], IF s = 0 THEN <<>> ELSE st.acc[s], p)
         IN  IF r = {} THEN [st EXCEPT !.acc[s] = Accept(@, p), !.n = @ + 1]
             ELSE [st EXCEPT !.reasons = r]
Batch(decls, acc, sps) ==
    FoldLeft(LAMBDA st, sp : BatchStep(st, sp, decls), [acc |-> acc, reasons |-> {}, n |-> 0], sps)
=============================================================================
