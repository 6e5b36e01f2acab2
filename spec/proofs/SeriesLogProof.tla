--------------------------- MODULE SeriesLogProof ---------------------------
(***************************************************************************)
(* C01, C02, C03, C11 and C12, of the abstract writer: for any number of   *)
(* series and calls and batches of any size.  Writer refines it (checked   *)
(* by TLC within its bounds).                                              *)
(***************************************************************************)
EXTENDS SeriesLog, NaturalsInduction, TLAPS

TypeOK == /\ acc \in [Series -> Seq(Int)]
          /\ dur \in [Series -> Nat]
          /\ status \in {"open", "failed", "closed"}
Steps == \A s \in Series : \A k \in 2..Len(acc[s]) : acc[s][k-1] < acc[s][k]
Inv == TypeOK /\ Steps /\ NoNegative /\ DurableIsAccepted /\ ClosedIsComplete

LEMMA Start == Init => Inv
  BY DEF Init, Inv, TypeOK, Steps, NoNegative, DurableIsAccepted, ClosedIsComplete

LEMMA Prefix == ASSUME NEW a \in Seq(Int), NEW b \in Seq(Int), Grown(a, b), NEW k \in 1..Len(a)
                PROVE b[k] = a[k]
  <1>1. SubSeq(b, 1, Len(a)) = a /\ Len(a) <= Len(b)
    BY DEF Grown
  <1>2. SubSeq(b, 1, Len(a))[k] = b[k]
    BY <1>1
  <1> QED BY <1>1, <1>2

LEMMA Taken == Inv /\ Accept => Inv'
  <1> SUFFICES ASSUME Inv, Accept PROVE Inv'
    OBVIOUS
  <1>1. \A s \in Series : acc[s] \in Seq(Int) /\ acc'[s] \in Seq(Int) /\ Grown(acc[s], acc'[s])
    BY DEF Inv, TypeOK, Accept
  <1>2. TypeOK'
    BY DEF Inv, TypeOK, Accept
  <1>3. \A s \in Series : Len(acc[s]) <= Len(acc'[s]) /\ \A k \in 1..Len(acc[s]) : acc'[s][k] = acc[s][k]
    BY <1>1, Prefix DEF Grown
  <1>4. Steps'
    <2> SUFFICES ASSUME NEW s \in Series, NEW k \in 2..Len(acc'[s]) PROVE acc'[s][k-1] < acc'[s][k]
      BY DEF Steps
    <2>1. CASE k <= Len(acc[s])
      <3>1. k \in 2..Len(acc[s]) /\ k \in 1..Len(acc[s]) /\ k-1 \in 1..Len(acc[s])
        BY <2>1, <1>1
      <3> QED BY <3>1, <1>3 DEF Inv, Steps
    <2>2. CASE k > Len(acc[s])
      BY <2>2, <1>1 DEF Grown
    <2> QED BY <2>1, <2>2, <1>1
  <1>5. NoNegative'
    <2> SUFFICES ASSUME NEW s \in Series, NEW k \in 1..Len(acc'[s]) PROVE acc'[s][k] >= 0
      BY DEF NoNegative
    <2>1. CASE k <= Len(acc[s])
      <3>1. k \in 1..Len(acc[s])
        BY <2>1, <1>1
      <3> QED BY <3>1, <1>3 DEF Inv, NoNegative
    <2>2. CASE k > Len(acc[s])
      BY <2>2, <1>1 DEF Grown
    <2> QED BY <2>1, <2>2, <1>1
  <1>6. DurableIsAccepted'
    BY <1>1, <1>3, <1>2 DEF Inv, TypeOK, DurableIsAccepted, Accept
  <1>7. ClosedIsComplete'
    BY DEF Accept, ClosedIsComplete
  <1> QED BY <1>2, <1>4, <1>5, <1>6, <1>7 DEF Inv

LEMMA Step == Inv /\ [Next]_vars => Inv'
  <1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <1>1. CASE UNCHANGED vars
    BY <1>1 DEF vars, Inv, TypeOK, Steps, NoNegative, DurableIsAccepted, ClosedIsComplete
  <1>2. CASE Accept
    BY <1>2, Taken
  <1>3. ASSUME NEW s \in Series, Persist(s) PROVE Inv'
    BY <1>3 DEF Persist, Inv, TypeOK, Steps, NoNegative, DurableIsAccepted, ClosedIsComplete
  <1>4. CASE Fail
    BY <1>4 DEF Fail, Inv, TypeOK, Steps, NoNegative, DurableIsAccepted, ClosedIsComplete
  <1>5. CASE Close
    BY <1>5 DEF Close, Inv, TypeOK, Steps, NoNegative, DurableIsAccepted, ClosedIsComplete
  <1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5 DEF Next

LEMMA Ordered == ASSUME NEW q \in Seq(Int), \A k \in 2..Len(q) : q[k-1] < q[k]
                 PROVE \A j, k \in 1..Len(q) : j < k => q[j] < q[k]
  <1> DEFINE G(k) == k \in 1..Len(q) => \A j \in 1..Len(q) : j < k => q[j] < q[k]
  <1>1. G(0)
    OBVIOUS
  <1>2. ASSUME NEW k \in Nat, G(k) PROVE G(k+1)
    <2> SUFFICES ASSUME k+1 \in 1..Len(q), NEW j \in 1..Len(q), j < k+1 PROVE q[j] < q[k+1]
      OBVIOUS
    <2>1. CASE j = k
      <3>1. k+1 \in 2..Len(q) /\ (k+1)-1 = k
        BY <2>1
      <3> QED BY <3>1, <2>1
    <2>2. CASE j < k
      <3>1. k \in 1..Len(q) /\ k+1 \in 2..Len(q) /\ (k+1)-1 = k
        BY <2>2
      <3>2. q[j] < q[k] /\ q[k] < q[k+1]
        BY <3>1, <2>2, <1>2
      <3>3. q[j] \in Int /\ q[k] \in Int /\ q[k+1] \in Int
        BY <3>1
      <3> QED BY <3>2, <3>3
    <2> QED BY <2>1, <2>2
  <1>3. \A k \in Nat : G(k)
    <2> HIDE DEF G
    <2> QED BY <1>1, <1>2, NatInduction, Isa
  <1> QED BY <1>3

LEMMA Enough == Inv => Increasing /\ NoNegative /\ DurableIsAccepted /\ ClosedIsComplete
  BY Ordered DEF Inv, TypeOK, Steps, Increasing

LEMMA Grows == Inv /\ [Next]_vars =>
    [\A s \in Series : dur[s] <= dur'[s] /\ Len(acc[s]) <= Len(acc'[s]) /\ SubSeq(acc'[s], 1, Len(acc[s])) = acc[s]]_vars
  <1> SUFFICES ASSUME Inv, Next, NEW s \in Series
               PROVE dur[s] <= dur'[s] /\ Len(acc[s]) <= Len(acc'[s]) /\ SubSeq(acc'[s], 1, Len(acc[s])) = acc[s]
    BY DEF vars
  <1>1. acc[s] \in Seq(Int) /\ dur[s] \in Nat /\ dur[s] <= Len(acc[s]) /\ Len(acc[s]) \in Nat
    BY DEF Inv, TypeOK, DurableIsAccepted
  <1>2. SubSeq(acc[s], 1, Len(acc[s])) = acc[s]
    BY <1>1
  <1>3. CASE Accept
    BY <1>1, <1>3 DEF Accept, Grown
  <1>4. ASSUME NEW u \in Series, Persist(u)
        PROVE dur[s] <= dur'[s] /\ Len(acc[s]) <= Len(acc'[s]) /\ SubSeq(acc'[s], 1, Len(acc[s])) = acc[s]
    BY <1>1, <1>2, <1>4 DEF Persist, Inv, TypeOK
  <1>5. CASE Fail
    BY <1>1, <1>2, <1>5 DEF Fail
  <1>6. CASE Close
    BY <1>1, <1>2, <1>6 DEF Close
  <1> QED BY <1>3, <1>4, <1>5, <1>6 DEF Next

THEOREM Log == Spec => /\ [](Increasing /\ NoNegative /\ DurableIsAccepted /\ ClosedIsComplete)
                       /\ OnlyGrows /\ OverIsFinal
  <1>1. Spec => []Inv
    BY Start, Step, PTL DEF Spec
  <1>2. [Next]_vars => [status # "open" => UNCHANGED vars]_vars
    BY DEF Next, Accept, Persist, Fail, Close, vars
  <1>3. QED
    BY <1>1, <1>2, Enough, Grows, PTL DEF Spec, OnlyGrows, OverIsFinal
=============================================================================
