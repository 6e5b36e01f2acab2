-------------------------------- MODULE Writer ------------------------------
(***************************************************************************)
(* The writer as it is built: pages that are filled and sealed by adaptive *)
(* checks of their size, chunks of sealed pages, a count of records and an *)
(* adaptive check of the memory used that flushes all groups, the map of   *)
(* last timestamps that survives a flush, and the items a flush and a      *)
(* close hand to the file, each of which may fail.                         *)
(*                                                                         *)
(* Checked on it, exhaustively for the profiles below: the contract        *)
(* (Contract: results of calls), refinement of the abstract machine        *)
(* (SeriesLog), and the invariants at the end.                             *)
(*                                                                         *)
(* Every transition of it is also a test of the implementation: TLC prints *)
(* the calls that lead to it, with the result and the length of the file   *)
(* the model predicts for each; they are run against the real code and     *)
(* what happens is validated with Trace.  (Sizes are exact for             *)
(* uncompressed series and values of one byte.)                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Profile, Depth

C == INSTANCE Contract WITH Before <- LAMBDA a, b : a < b, Negative <- LAMBDA a : a < 0

S(d, m, type, encoding) == [d |-> d, m |-> m, type |-> type, encoding |-> encoding]
Big == 1000000
(* Series in the order of the file; limits; the calls explored.            *)
P == CASE Profile = "pages" ->       \* pages sealed by their number of points
            [series |-> << S("d", "s", "INT32", "PLAIN") >>,
             maxPoints |-> 2, firstPage |-> Big, minPage |-> Big, pageSize |-> Big, firstMem |-> Big, group |-> Big,
             steps |-> {1, 5}, batches |-> {<< 1 >>}, caps |-> {Big}]
       [] Profile = "adaptive" ->    \* by the adaptive check of their size
            [series |-> << S("d", "s", "INT64", "PLAIN") >>,
             maxPoints |-> Big, firstPage |-> 2, minPage |-> 2, pageSize |-> 72, firstMem |-> Big, group |-> Big,
             steps |-> {1, 9}, batches |-> {}, caps |-> {Big}]
       [] Profile = "groups" ->      \* groups flushed by the check of the memory used
            [series |-> << S("d", "s", "INT32", "TS2DIFF"), S("e", "s", "FLOAT", "PLAIN") >>,
             maxPoints |-> 1, firstPage |-> Big, minPage |-> Big, pageSize |-> Big, firstMem |-> 2, group |-> 330,
             steps |-> {1}, batches |-> {<< 1 >>}, caps |-> {Big}]
       [] Profile = "always" ->      \* a flush after nearly every call
            [series |-> << S("d", "s", "INT32", "PLAIN"), S("d", "u", "INT32", "PLAIN") >>,
             maxPoints |-> 1, firstPage |-> Big, minPage |-> Big, pageSize |-> Big, firstMem |-> 2, group |-> 1,
             steps |-> {1, 3}, batches |-> {<< 1, 2 >>, << 2, 1 >>, << 1, 1 >>, << 1, 0, 2 >>}, caps |-> {Big}]
       [] Profile = "batches" ->     \* batches with refused points, a series that cannot be encoded
            [series |-> << S("d", "s", "INT32", "PLAIN"), S("d", "u", "FLOAT", "TS2DIFF"), S("d", "v", "INT64", "TS2DIFF") >>,
             maxPoints |-> 1, firstPage |-> Big, minPage |-> Big, pageSize |-> Big, firstMem |-> 3, group |-> 250,
             steps |-> {1}, batches |-> {<<>>, << 1, 3 >>, << 3, 1 >>, << 1, 2, 3 >>, << 1, 0, 3 >>, << 3, 3 >>, << 1, 3, 1 >>}, caps |-> {Big}]
       [] Profile = "faults" ->      \* the file takes only so many bytes
            [series |-> << S("d", "s", "INT32", "PLAIN"), S("e", "s", "INT64", "PLAIN") >>,
             maxPoints |-> 1, firstPage |-> Big, minPage |-> Big, pageSize |-> Big, firstMem |-> 2, group |-> 200,
             steps |-> {1}, batches |-> {<< 1, 1 >>}, caps |-> {0, 3, 6, 7, 9, 10, 14, 20, 50, 51, 55, 70, 90, 120, 150, 200, 300, 400, 1000}]

N == Len(P.series)
Ser == 1..N
Devices == { P.series[s].d : s \in Ser }
DevSeq == SetToSortSeq(Devices, LAMBDA a, b : \E i, j \in Ser : P.series[i].d = a /\ P.series[j].d = b /\ i < j)
OfDevice(d) == SelectSeq([k \in Ser |-> k], LAMBDA s : P.series[s].d = d)

-----------------------------------------------------------------------------
(* Sizes.                                                                  *)
VarU(n) == IF n < 128 THEN 1 ELSE IF n < 16384 THEN 2 ELSE 3
RECURSIVE Width(_)
Width(x) == IF x = 0 THEN 0 ELSE 1 + Width(x \div 2)
MaxOf(q) == FoldLeft(LAMBDA a, b : IF b > a THEN b ELSE a, q[1], q)
MinOf(q) == FoldLeft(LAMBDA a, b : IF b < a THEN b ELSE a, q[1], q)
Value(s, t) == (7 * t + 3 * s) % 60
Packed(q) ==    \* differences of a sequence, without the smallest, bit-packed
    IF Len(q) < 2 THEN 0
    ELSE LET d == [k \in 1..(Len(q) - 1) |-> q[k+1] - q[k]]
         IN  (Len(d) * Width(MaxOf(d) - MinOf(d)) + 7) \div 8
PageBytes(s, pts) ==
    LET k == Len(pts)
        tb == 24 + Packed(pts)
        vs == [j \in 1..k |-> Value(s, pts[j])]
        vb == CASE P.series[s].encoding = "TS2DIFF" -> (IF P.series[s].type = "INT64" THEN 24 ELSE 16) + Packed(vs)
                [] P.series[s].type = "INT32" -> k
                [] P.series[s].type = "INT64" -> 8 * k
                [] OTHER -> 4 * k
    IN  VarU(tb) + tb + vb
StatBytes(s, n) == VarU(n) + 16 + (IF P.series[s].type = "INT64" THEN 40 ELSE 24)
Sum(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
Buffer(s, pages) ==       \* the buffer of sealed pages
    LET u(k) == PageBytes(s, pages[k])
        h(k) == 2 * VarU(u(k)) + u(k)
    IN  IF pages = <<>> THEN 0
        ELSE IF Len(pages) = 1 THEN h(1)
        ELSE Sum([k \in 1..Len(pages) |-> h(k) + StatBytes(s, Len(pages[k]))])
Less1(k) == IF k = 0 THEN 0 ELSE k - 1
PageEstimate(s, k) ==
    24 + 8 * Less1(k)
    + (CASE P.series[s].encoding = "TS2DIFF" -> 24 + (IF P.series[s].type = "INT64" THEN 8 ELSE 4) * Less1(k)
         [] P.series[s].type = "INT32" -> 24 + 2 * k
         [] P.series[s].type = "INT64" -> 8 * k
         [] OTHER -> 4 * k)
Memory(ser) == Sum([s \in Ser |-> IF ~ser[s].made THEN 0
                                  ELSE Buffer(s, ser[s].pages) + PageEstimate(s, Len(ser[s].page)) + 10 + StatBytes(s, Len(ser[s].page))])
NameBytes(n) == 1 + Len(n)
ItemBytes(it) ==
    CASE it.k = "group" -> 1 + NameBytes(it.d)
      [] it.k = "chunk" -> 1 + NameBytes(P.series[it.s].m) + VarU(Buffer(it.s, it.pages)) + 3 + Buffer(it.s, it.pages)
      [] it.k = "meta"  -> 100        \* not modelled further: more than nothing
      [] OTHER -> 0

-----------------------------------------------------------------------------
VARIABLES ser,      \* per series: page (its points), made (there is a page), pages (sealed), check (next check of the size)
          last,     \* last timestamps, per series (-1: none)
          kept,     \* what is kept of them for after a flush
          count,    \* records since the last flush
          next,     \* at this many the memory is checked
          failed, closed,
          queue,    \* items on their way to the file
          closing,  \* the flush belongs to a close
          len, cap, file,
          call,     \* the call that is executed: <<>> or << call >>
          result,   \* of its points
          acc,      \* history: what has been accepted
          word      \* history: the calls, with results and lengths
impl == << ser, last, kept, count, next, failed, closed, queue, closing, len, cap, file >>
vars == << impl, call, result, acc, word >>

Fresh(s) == [page |-> <<>>, made |-> FALSE, pages |-> <<>>, check |-> P.firstPage]

Init == /\ ser = [s \in Ser |-> Fresh(s)] /\ last = [s \in Ser |-> -1] /\ kept = [s \in Ser |-> -1]
        /\ count = 0 /\ next = P.firstMem /\ failed = FALSE /\ closed = FALSE /\ queue = <<>> /\ closing = FALSE
        /\ cap \in P.caps /\ len = IF cap < 7 THEN cap ELSE 7
        /\ file = <<>> /\ call = <<>> /\ result = "" /\ acc = [s \in Ser |-> <<>>] /\ word = <<>>

-----------------------------------------------------------------------------
(* One point into a page.                                                  *)
Seal(x) == [x EXCEPT !.pages = Append(@, x.page), !.page = <<>>]
Put(s, x, t) ==
    LET y == [x EXCEPT !.page = Append(@, t), !.made = TRUE]
        k == Len(y.page)
        sz == PageEstimate(s, k)
    IN  IF k > P.maxPoints THEN Seal(y)
        ELSE IF k >= y.check
        THEN IF sz > P.pageSize THEN [Seal(y) EXCEPT !.check = P.minPage]
             ELSE [y EXCEPT !.check = (P.pageSize * k) \div sz]
        ELSE y

(* What the code answers to a point; "ok" if it takes it.                  *)
Answer(x, s, t, right) ==
    IF s = 0 THEN "IllegalState"
    ELSE IF t <= x.last[s] THEN "OutOfOrderData"
    ELSE IF ~right THEN "WrongTypeForSeries"
    ELSE IF ~C!Available(P.series[s].type, P.series[s].encoding) THEN "Encoding"
    ELSE "ok"
Take(x, t, sp) ==    \* x: the state while a call is executed; sp = << series, value of the right type >>
    IF x.r # "ok" THEN x
    ELSE LET a == Answer(x, sp[1], t, sp[2])
             s == sp[1]
         IN  IF a # "ok" THEN [x EXCEPT !.r = a]
             ELSE [x EXCEPT !.ser[s] = Put(s, @, t), !.last[s] = t, !.count = @ + 1, !.acc[s] = Append(@, t)]

(* What the contract says of the same points.                              *)
Point(s, t, right) == [t |-> t, v |-> 0, type |-> IF s = 0 THEN "?" ELSE IF right THEN P.series[s].type ELSE "other"]
Judged(t, sps) == C!Batch(P.series, [s \in Ser |-> [k \in 1..Len(acc[s]) |-> << acc[s][k], 0 >>]],
                          [k \in 1..Len(sps) |-> << sps[k][1], Point(sps[k][1], t, sps[k][2]) >>])

Flush(ser1) ==     \* all groups, in order; pages are sealed first
    LET sealed == [s \in Ser |-> IF ser1[s].page = <<>> THEN ser1[s] ELSE Seal(ser1[s])]
        chunks(d) == LET q == SelectSeq(OfDevice(d), LAMBDA s : sealed[s].pages # <<>>)
                     IN  [k \in 1..Len(q) |-> [k |-> "chunk", s |-> q[k], pages |-> sealed[q[k]].pages]]
    IN  FlattenSeq([k \in 1..Len(DevSeq) |-> << [k |-> "group", d |-> DevSeq[k]] >> \o chunks(DevSeq[k])])
        \o << [k |-> "reset"] >>

(* A call; the points are taken at once, what it hands to the file follows *)
(* item by item.                                                           *)
Begin(c, t, sps, known) ==
    /\ call = <<>> /\ Len(word) < Depth /\ len >= 7
    /\ IF failed \/ closed \/ ~known
       THEN /\ call' = << c >> /\ result' = "IllegalState"
            /\ UNCHANGED << impl, acc, word >>
       ELSE LET x == FoldLeft(LAMBDA y, sp : Take(y, t, sp),
                              [r |-> "ok", ser |-> ser, last |-> last, count |-> count, acc |-> acc], sps)
                single == c[1] = "w"
                check == (x.r = "ok" \/ ~single) /\ x.count >= next
                mem == Memory(x.ser)
            IN  /\ Assert(LET j == Judged(t, sps)
                          IN  /\ (x.r = "ok") = (j.reasons = {})
                              /\ x.r = "ok" \/ x.r \in j.reasons
                              /\ \A s \in Ser : Len(x.acc[s]) = Len(j.acc[s]),
                          << "not as the contract says", c, x.r >>)
                /\ call' = << c >> /\ result' = x.r
                /\ ser' = x.ser /\ last' = x.last /\ count' = x.count /\ acc' = x.acc
                /\ next' = IF check THEN (next * P.group) \div (IF mem = 0 THEN 1 ELSE mem) ELSE next
                /\ queue' = IF check /\ mem > P.group /\ x.count > 0 THEN Flush(x.ser) ELSE <<>>
                /\ closing' = FALSE
                /\ UNCHANGED << kept, failed, closed, len, cap, file, word >>

Times(ss) == {-1} \cup { last[s] : s \in ss } \cup { last[s] + d : s \in ss, d \in P.steps }
Write == \E s \in Ser : \E t \in Times({s}) : \E right \in {TRUE, FALSE} :
            (right \/ t \in {last[s], last[s] + 1}) /\ Begin(<< "w", s, t, right >>, t, << << s, right >> >>, TRUE)
Unknown == \/ Begin(<< "w", 0, 1, TRUE >>, 1, << << 0, TRUE >> >>, TRUE)         \* measurement
           \/ Begin(<< "w", -1, 1, TRUE >>, 1, << << 0, TRUE >> >>, FALSE)       \* device
WriteMany == \E b \in P.batches : \E t \in Times({ b[k] : k \in 1..Len(b) } \ {0}) : \E w \in 0..Len(b) :
                LET sps == [k \in 1..Len(b) |-> << b[k], k # w >>]
                IN  Begin(<< "b", P.series[1].d, t, sps >>, t, sps, TRUE)
Close == /\ call = <<>> /\ Len(word) < Depth /\ len >= 7
         /\ call' = << << "close" >> >>
         /\ result' = IF closed THEN "ok" ELSE IF failed THEN "IllegalState" ELSE "ok"
         /\ queue' = IF closed \/ failed THEN <<>> ELSE (IF count > 0 THEN Flush(ser) ELSE <<>>) \o << [k |-> "meta"], [k |-> "end"] >>
         /\ closing' = TRUE
         /\ UNCHANGED << ser, last, kept, count, next, failed, closed, len, cap, file, acc, word >>

(* The next item.                                                          *)
Item == /\ queue # <<>>
        /\ LET it == Head(queue)
               n == ItemBytes(it)
               fits == len + n <= cap
           IN  IF ~fits
               THEN /\ len' = cap /\ failed' = TRUE /\ queue' = <<>> /\ result' = "IoError"
                    /\ UNCHANGED << ser, last, kept, count, next, closed, closing, cap, file, call, acc, word >>
               ELSE /\ len' = len + n
                    /\ file' = IF n > 0 THEN Append(file, it) ELSE file
                    /\ queue' = Tail(queue)
                    /\ kept' = IF it.k = "reset" THEN last ELSE kept
                    /\ ser' = IF it.k = "reset" THEN [s \in Ser |-> Fresh(s)] ELSE ser
                    /\ last' = IF it.k = "reset" THEN kept' ELSE last
                    /\ count' = IF it.k = "reset" THEN 0 ELSE count
                    /\ closed' = IF it.k = "end" THEN TRUE ELSE closed
                    /\ UNCHANGED << next, failed, closing, cap, call, result, acc, word >>
Return == /\ call # <<>> /\ queue = <<>>
          /\ word' = Append(word, << call[1], result, len >>)
          /\ call' = <<>>
          /\ UNCHANGED << impl, result, acc >>

Next == Write \/ Unknown \/ WriteMany \/ Close \/ Item \/ Return
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What holds of it.                                                       *)
InFile(s) == FlattenSeq([k \in 1..Len(file) |-> IF file[k].k = "chunk" /\ file[k].s = s THEN FlattenSeq(file[k].pages) ELSE <<>>])
Chunks == { file[k] : k \in { j \in 1..Len(file) : file[j].k = "chunk" } }
Sealed == \E k \in 1..Len(queue) : queue[k].k = "reset"      \* a flush is under way
InQueue(s) == FlattenSeq([k \in 1..Len(queue) |-> IF queue[k].k = "chunk" /\ queue[k].s = s THEN FlattenSeq(queue[k].pages) ELSE <<>>])
Buffered(s) == FlattenSeq(ser[s].pages) \o ser[s].page

NothingLostOrTwice == ~failed => \A s \in Ser : acc[s] = InFile(s) \o (IF Sealed THEN InQueue(s) ELSE Buffered(s))
FileIsAccepted == \A s \in Ser : IsPrefix(InFile(s), acc[s])
Increasing == \A s \in Ser : \A k \in 1..(Len(acc[s]) - 1) : 0 <= acc[s][k] /\ acc[s][k] < acc[s][k+1]
LastIsLast == \A s \in Ser : IF acc[s] = <<>> THEN last[s] = -1 ELSE last[s] = acc[s][Len(acc[s])]
NoEmptyPages == \A c \in Chunks : c.pages # <<>> /\ \A k \in 1..Len(c.pages) : c.pages[k] # <<>>
PagesBounded == \A c \in Chunks : \A k \in 1..Len(c.pages) : Len(c.pages[k]) <= P.maxPoints + 1
CountIsBuffered == ~failed /\ ~Sealed => (count > 0) = (\E s \in Ser : Buffered(s) # <<>>)
ClosedIsComplete == closed => /\ file # <<>> /\ file[Len(file)].k = "meta" /\ \A s \in Ser : InFile(s) = acc[s]
OneMeta == Cardinality({ k \in 1..Len(file) : file[k].k = "meta" }) <= 1
MetaIsLast == \A k \in 1..Len(file) : file[k].k = "meta" => k = Len(file)
FailedIsReported == failed /\ call = <<>> /\ word # <<>> => word[Len(word)][2] # "ok"
CloseOkIsClosed == word # <<>> /\ word[Len(word)][1][1] = "close" /\ word[Len(word)][2] = "ok" => closed
NotBoth == ~(failed /\ closed)
TypeOK == count \in Nat /\ next \in Nat /\ len \in Nat

L == INSTANCE SeriesLog WITH Series <- Ser, acc <- acc,
         dur <- [s \in Ser |-> Len(InFile(s))],
         status <- IF failed THEN "failed" ELSE IF closed THEN "closed" ELSE "open"
Refines == [][L!Next \/ UNCHANGED L!vars]_vars
ClosedIsFinal == [][closed => UNCHANGED << file, len, closed >>]_vars
OnlyAppends == [][IsPrefix(file, file') /\ len' >= len]_vars

-----------------------------------------------------------------------------
(* Generation: the calls that lead to every transition.                    *)
View == << impl, call, result, acc, Len(word) >>
Behaviour == [cap |-> cap, calls |-> word']
ASSUME PrintT("@P" \o ToJson(P))
Emit == (word' # word /\ word' # <<>>) => PrintT("@@" \o ToJson(Behaviour))
=============================================================================
