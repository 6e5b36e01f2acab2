----------------------------- MODULE HandlesProof ---------------------------
(***************************************************************************)
(* C21, of the model: for any number of objects and operations.            *)
(***************************************************************************)
EXTENDS Handles, TLAPS

ASSUME Careful == Careless = FALSE

Objs == Schemas \cup Writers
TypeOK == /\ obj \in [Objs -> {"none", "there", "forgotten"}]
          /\ holds \in [Objs -> BOOLEAN]
          /\ lib \in [Objs -> {"never", "alive", "gone"}]
Inv == /\ TypeOK /\ ~dangling
       /\ \A x \in Objs : /\ holds[x] <=> lib[x] = "alive"
                          /\ obj[x] = "none" <=> lib[x] = "never"

LEMMA Start == Init => Inv
  BY DEF Init, Inv, TypeOK, Objs, Objects

LEMMA Step == Inv /\ [Next]_vars => Inv'
  <1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <1> USE Careful DEF Inv, TypeOK, Objs, Objects
  <1>1. CASE UNCHANGED vars
    BY <1>1 DEF vars
  <1>2. ASSUME NEW s \in Schemas, NewSchema(s) PROVE Inv'
    BY <1>2 DEF NewSchema
  <1>3. ASSUME NEW w \in Writers, NEW s \in Schemas, NewWriter(w, s) PROVE Inv'
    BY <1>3 DEF NewWriter, Use
  <1>4. ASSUME NEW w \in Writers, NEW k \in {"fits", "wide"}, Write(w, k) PROVE Inv'
    BY <1>4 DEF Write, Use
  <1>5. ASSUME NEW x \in Objs, NEW o, NEW k, NEW well, NEW ill, LetGo(x, o, k, well, ill) PROVE Inv'
    BY <1>5 DEF LetGo, Use
  <1>6. ASSUME NEW s \in Schemas, Forget(s) PROVE Inv'
    BY <1>6 DEF Forget
  <1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6 DEF Next, Free, Close, Leave

LEMMA Enough == Inv => NothingDangles /\ HoldsWhatIsAlive /\ NothingLost
  BY DEF Inv, Objs, Objects, NothingDangles, HoldsWhatIsAlive, NothingLost

LEMMA Final == Inv /\ [Next]_vars => [\A x \in Objects : lib[x] = "gone" => lib'[x] = "gone"]_vars
  <1> SUFFICES ASSUME Inv, Next, NEW x \in Objects, lib[x] = "gone" PROVE lib'[x] = "gone"
    BY DEF vars
  <1> USE DEF Inv, TypeOK, Objs, Objects
  <1>2. ASSUME NEW s \in Schemas, NewSchema(s) PROVE lib'[x] = "gone"
    BY <1>2 DEF NewSchema
  <1>3. ASSUME NEW w \in Writers, NEW s \in Schemas, NewWriter(w, s) PROVE lib'[x] = "gone"
    BY <1>3 DEF NewWriter
  <1>4. ASSUME NEW w \in Writers, NEW k \in {"fits", "wide"}, Write(w, k) PROVE lib'[x] = "gone"
    BY <1>4 DEF Write
  <1>5. ASSUME NEW y \in Objs, NEW o, NEW k, NEW well, NEW ill, LetGo(y, o, k, well, ill) PROVE lib'[x] = "gone"
    BY <1>5 DEF LetGo
  <1>6. ASSUME NEW s \in Schemas, Forget(s) PROVE lib'[x] = "gone"
    BY <1>6 DEF Forget
  <1> QED BY <1>2, <1>3, <1>4, <1>5, <1>6 DEF Next, Free, Close, Leave

THEOREM Objects_ == Spec => [](NothingDangles /\ HoldsWhatIsAlive /\ NothingLost) /\ GoneForGood
  <1>1. Spec => []Inv
    BY Start, Step, PTL DEF Spec
  <1>2. QED
    BY <1>1, Enough, Final, PTL DEF Spec, GoneForGood
=============================================================================
