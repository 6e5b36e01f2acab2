------------------------------- MODULE Format -------------------------------
(***************************************************************************)
(* The reader of the file format (TsFile version 3): from bytes to chunks, *)
(* index and bloom filter, the way a reader that only has the file finds   *)
(* them.  Offsets count from 0, `end' is exclusive.  Everything is total:  *)
(* malformed bytes give ok = FALSE.                                        *)
(***************************************************************************)
EXTENDS Stats, FiniteSets

(* Where the first byte of the bytes at hand lies, a 64-bit word: 0, but   *)
(* larger when they stand for the part of a file beyond that many bytes.   *)
CONSTANT Base
(* A stored offset, as an offset in the bytes at hand; -1 if outside.      *)
OffsetAt(B, o) == SmallNat(Add64(W64FromBytes(B, o), Neg64(Base)))

Magic == << 84, 115, 70, 105, 108, 101 >>          \* TsFile
Header == Magic \o << 3 >>

IsMagicAt(B, o) == o >= 0 /\ o + 6 <= Len(B) /\ SubSeq(B, o + 1, o + 6) = Magic
HeaderOk(B) == Len(B) >= 7 /\ SubSeq(B, 1, 7) = Header

-----------------------------------------------------------------------------
(* Pages.                                                                  *)

BadPage == [ok |-> FALSE]
(* One page at o: its two sizes, statistics if the chunk has several       *)
(* pages, and the payload.                                                 *)
PageAt(B, o, end, multi, type) ==
    LET u == UVar(B, o, end)
        c == UVar(B, u.o, end)
        st == IF multi THEN StatsAt(B, c.o, end, type) ELSE NoStats
        d == IF multi THEN st.o ELSE c.o
    IN  IF ~u.ok \/ ~c.ok \/ (multi /\ ~st.ok) \/ c.v > end - d THEN BadPage
        ELSE [ok |-> TRUE, off |-> o, usize |-> u.v, csize |-> c.v, stats |-> st, data |-> d, o |-> d + c.v]

(* (Loops that may be long are folds over recursions of limited depth.)    *)
RECURSIVE PagesSome(_,_,_,_,_,_)
PagesSome(B, st, end, multi, type, n) ==
    IF st.o = end \/ n = 0 THEN st
    ELSE LET p == PageAt(B, st.o, end, multi, type)
         IN  IF ~p.ok THEN [st EXCEPT !.ok = FALSE]
             ELSE PagesSome(B, [st EXCEPT !.pages = Append(@, p), !.o = p.o], end, multi, type, n - 1)
PagesFrom(B, o, end, multi, type) ==
    FoldLeft(LAMBDA st, k : IF ~st.ok \/ st.o = end THEN st ELSE PagesSome(B, st, end, multi, type, 32),
             [ok |-> TRUE, pages |-> <<>>, o |-> o], [k \in 1..((end - o) \div 64 + 1) |-> k])

(* The points of a page.                                                   *)
PagePoints(B, p, ch) ==
    LET u == Uncompress(SubSeq(B, p.data + 1, p.data + p.csize), ch.compression)
    IN  IF ~u.ok \/ Len(u.v) # p.usize THEN [ok |-> FALSE, pts |-> <<>>]
        ELSE DecodePayload(u.v, ch.type, ch.encoding)

-----------------------------------------------------------------------------
(* Chunks: marker (5: one page, 1: several), name, size of the pages, data *)
(* type, compression, encoding, pages.                                     *)

OnePage == 5
SeveralPages == 1

BadChunk == [ok |-> FALSE]
ChunkAt(B, o, end) ==
    LET nm == Name(B, o + 1, end)
        sz == UVar(B, nm.o, end)
        d == sz.o + 3
    IN  IF o >= end \/ B[o+1] \notin {OnePage, SeveralPages} \/ ~nm.ok \/ ~sz.ok THEN BadChunk
        ELSE IF d > end \/ sz.v > end - d THEN BadChunk
        ELSE LET type == TypeName(B[sz.o + 1])
                 compression == CompressionName(B[sz.o + 2])
                 encoding == EncodingName(B[sz.o + 3])
                 multi == B[o+1] = SeveralPages
                 ps == PagesFrom(B, d, d + sz.v, multi, type)
             IN  IF type = "?" \/ compression = "?" \/ encoding = "?" \/ ~ps.ok THEN BadChunk
                 ELSE [ok |-> TRUE, off |-> o, o |-> d + sz.v, name |-> nm.v, type |-> type,
                       compression |-> compression, encoding |-> encoding, multi |-> multi, pages |-> ps.pages]

(* A sequential scan from o: chunk groups (marker 0 and device name) and   *)
(* chunks, up to the separator (2), the end, or the first byte that does   *)
(* not continue the structure.  Each chunk is tagged with its device.      *)
Separator == 2
NoDevice == [ok |-> FALSE, v |-> <<>>]

RECURSIVE ScanSome(_,_,_,_)
ScanSome(B, st, end, n) ==
    IF n = 0 THEN st
    ELSE IF st.o >= end THEN [st EXCEPT !.stop = "end"]
    ELSE IF B[st.o+1] = Separator THEN [st EXCEPT !.stop = "separator"]
    ELSE IF B[st.o+1] = 0
    THEN LET nm == Name(B, st.o + 1, end)
         IN  IF ~nm.ok THEN [st EXCEPT !.stop = "bad"]
             ELSE ScanSome(B, [st EXCEPT !.o = nm.o, !.dev = [ok |-> TRUE, v |-> nm.v]], end, n - 1)
    ELSE LET c == ChunkAt(B, st.o, end)
         IN  IF ~c.ok \/ ~st.dev.ok THEN [st EXCEPT !.stop = "bad"]
             ELSE ScanSome(B, [st EXCEPT !.o = c.o, !.chunks = Append(@, c @@ [dev |-> st.dev.v])], end, n - 1)
ScanFrom(B, o, end, dev) ==
    FoldLeft(LAMBDA st, k : IF st.stop # "" THEN st ELSE ScanSome(B, st, end, 32),
             [stop |-> "", o |-> o, chunks |-> <<>>, dev |-> dev], [k \in 1..((end - o) \div 64 + 1) |-> k])

-----------------------------------------------------------------------------
(* The footer: metadata (root of the index, offset of the separator, bloom *)
(* filter), its size and the magic.                                        *)

InternalDevice == 0
LeafDevice == 1
InternalMeasurement == 2
LeafMeasurement == 3

EntriesFrom(B, o, end, n) ==
    FoldLeft(LAMBDA st, k :
               IF ~st.ok THEN st
               ELSE LET nm == Name(B, st.o, end)
                    IN  IF ~nm.ok \/ nm.o + 8 > end THEN [st EXCEPT !.ok = FALSE]
                        ELSE [st EXCEPT !.o = nm.o + 8, !.v = Append(@, [name |-> nm.v, off |-> OffsetAt(B, nm.o)])],
             [ok |-> n <= end - o, o |-> o, v |-> <<>>], [k \in 1..(IF n <= end - o THEN n ELSE 0) |-> k])

(* An index node: entries (name, offset), end offset, type.                *)
NodeAt(B, o, end) ==
    LET n == UVar(B, o, end)
        es == EntriesFrom(B, n.o, end, n.v)
    IN  IF ~n.ok \/ ~es.ok \/ es.o + 9 > end THEN [ok |-> FALSE]
        ELSE [ok |-> TRUE, o |-> es.o + 9, children |-> es.v,
              endOff |-> OffsetAt(B, es.o), type |-> B[es.o + 9]]

FooterAt(B) ==
    LET n == Len(B)
        size == W32FromBytes(B, n - 10)
        o == n - 10 - (size[1]*65536 + size[2])
        root == NodeAt(B, o, n - 10)
        bl == UVar(B, root.o + 8, n - 10)
        bits == bl.o + bl.v
        bs == UVar(B, bits, n - 10)
        bc == UVar(B, bs.o, n - 10)
    IN  IF n < 7 + 10 \/ ~IsMagicAt(B, n - 6) \/ size[1] > 255 \/ o < 7 THEN [ok |-> FALSE]
        ELSE IF ~root.ok THEN [ok |-> FALSE]
        ELSE IF root.o + 8 > n - 10 \/ ~bl.ok THEN [ok |-> FALSE]
        ELSE IF bl.v > n - 10 - bl.o \/ ~bs.ok \/ ~bc.ok THEN [ok |-> FALSE]
        ELSE IF bc.o # n - 10 THEN [ok |-> FALSE]
        ELSE [ok |-> TRUE, off |-> o, root |-> root, meta |-> OffsetAt(B, root.o),
              bloom |-> [bytes |-> SubSeq(B, bl.o + 1, bits), size |-> bs.v, count |-> bc.v]]

-----------------------------------------------------------------------------
(* Names compare as sequences of bytes.                                    *)
LtName(a, b) ==
    LET m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
        d == { i \in 1..m : a[i] # b[i] }
    IN  IF d = {} THEN Len(a) < Len(b)
        ELSE LET i == CHOOSE j \in d : \A k \in d : j <= k IN a[i] < b[i]

Sorted(cs) == \A i \in 1..(Len(cs) - 1) : LtName(cs[i].name, cs[i+1].name)

(* The last child whose name is not greater than the key, 0 if none, by a  *)
(* binary search, as readers do it.                                        *)
RECURSIVE FloorIn(_,_,_,_)
FloorIn(cs, key, lo, hi) ==
    IF lo > hi THEN hi
    ELSE LET m == (lo + hi) \div 2
         IN  IF LtName(key, cs[m].name) THEN FloorIn(cs, key, lo, m - 1) ELSE FloorIn(cs, key, m + 1, hi)
Floor(cs, key) == FloorIn(cs, key, 1, Len(cs))
Exact(cs, key) ==
    LET i == Floor(cs, key) IN IF i > 0 /\ cs[i].name = key THEN i ELSE 0

ChildEnd(node, i) == IF i < Len(node.children) THEN node.children[i+1].off ELSE node.endOff

(* The node a child entry refers to: it lies between the entry's offset    *)
(* and the next one's (the last one: the node's end offset).               *)
ChildNode(B, node, i) ==
    LET o == node.children[i].off
        e == ChildEnd(node, i)
    IN  IF o < 7 \/ e > Len(B) \/ e < o THEN [ok |-> FALSE] ELSE NodeAt(B, o, e)

(* The series records between o and end: kind, name, type, size of the     *)
(* chunk list, statistics, chunk list (offset of each chunk's header, and  *)
(* its statistics if there are several).                                   *)
RECURSIVE ChunkRefsSome(_,_,_,_,_,_)
ChunkRefsSome(B, st, end, several, type, n) ==
    IF st.o = end \/ n = 0 THEN st
    ELSE IF st.o + 8 > end THEN [st EXCEPT !.ok = FALSE]
    ELSE LET s == IF several THEN StatsAt(B, st.o + 8, end, type) ELSE NoStats
         IN  IF several /\ ~s.ok THEN [st EXCEPT !.ok = FALSE]
             ELSE ChunkRefsSome(B, [st EXCEPT !.o = IF several THEN s.o ELSE @ + 8,
                                              !.v = Append(@, [off |-> OffsetAt(B, st.o), stats |-> s])],
                                end, several, type, n - 1)
ChunkRefsFrom(B, o, end, several, type) ==
    FoldLeft(LAMBDA st, k : IF ~st.ok \/ st.o = end THEN st ELSE ChunkRefsSome(B, st, end, several, type, 32),
             [ok |-> TRUE, o |-> o, v |-> <<>>], [k \in 1..((end - o) \div 256 + 1) |-> k])

SeriesAt(B, o, end) ==
    LET nm == Name(B, o + 1, end)
        sz == UVar(B, nm.o + 1, end)
    IN  IF o >= end \/ B[o+1] \notin {0, 1} \/ ~nm.ok \/ nm.o >= end \/ ~sz.ok THEN [ok |-> FALSE]
        ELSE LET type == TypeName(B[nm.o + 1])
                 st == StatsAt(B, sz.o, end, type)
             IN  IF type = "?" \/ ~st.ok THEN [ok |-> FALSE]
                 ELSE IF sz.v > end - st.o THEN [ok |-> FALSE]
                 ELSE LET refs == ChunkRefsFrom(B, st.o, st.o + sz.v, B[o+1] = 1, type)
                      IN  IF ~refs.ok THEN [ok |-> FALSE]
                          ELSE [ok |-> TRUE, o |-> st.o + sz.v, name |-> nm.v, type |-> type,
                                several |-> B[o+1] = 1, stats |-> st, chunks |-> refs.v]

RECURSIVE SeriesListSome(_,_,_,_)
SeriesListSome(B, st, end, n) ==
    IF st.o = end \/ n = 0 THEN st
    ELSE LET s == SeriesAt(B, st.o, end)
         IN  IF ~s.ok THEN [st EXCEPT !.ok = FALSE]
             ELSE SeriesListSome(B, [st EXCEPT !.o = s.o, !.v = Append(@, s)], end, n - 1)
(* (A series record has more than 32 bytes.)                               *)
SeriesListFrom(B, o, end) ==
    FoldLeft(LAMBDA st, k : IF ~st.ok \/ st.o = end THEN st ELSE SeriesListSome(B, st, end, 8),
             [ok |-> TRUE, o |-> o, v |-> <<>>], [k \in 1..((end - o) \div 256 + 1) |-> k])

-----------------------------------------------------------------------------
(* A reader's lookups: the root of a device's measurement index, then the  *)
(* series record.                                                          *)

NotFound == [found |-> FALSE]
RECURSIVE FindDevice(_,_,_)
FindDevice(B, node, dev) ==
    IF node.type = LeafDevice
    THEN LET i == Exact(node.children, dev)
         IN  IF i = 0 THEN NotFound
             ELSE LET c == ChildNode(B, node, i)
                  IN  IF c.ok /\ c.type \in {InternalMeasurement, LeafMeasurement}
                      THEN [found |-> TRUE, node |-> c] ELSE NotFound
    ELSE IF node.type = InternalDevice
    THEN LET i == Floor(node.children, dev)
         IN  IF i = 0 THEN NotFound
             ELSE LET c == ChildNode(B, node, i)
                  IN  IF c.ok THEN FindDevice(B, c, dev) ELSE NotFound
    ELSE NotFound

RECURSIVE FindSeries(_,_,_)
FindSeries(B, node, m) ==
    LET i == Floor(node.children, m)
    IN  IF i = 0 THEN NotFound
        ELSE IF node.type = LeafMeasurement
        THEN LET o == node.children[i].off
                 e == ChildEnd(node, i)
                 l == SeriesListFrom(B, o, e)
             IN  IF o < 7 \/ e > Len(B) \/ e < o THEN NotFound
                 ELSE IF ~l.ok THEN NotFound
                 ELSE LET j == Exact(l.v, m)
                      IN  IF j = 0 \/ ~Sorted(l.v) THEN NotFound ELSE [found |-> TRUE, series |-> l.v[j]]
        ELSE IF node.type = InternalMeasurement
        THEN LET c == ChildNode(B, node, i)
             IN  IF c.ok THEN FindSeries(B, c, m) ELSE NotFound
        ELSE NotFound

Lookup(B, root, dev, m) ==
    LET d == FindDevice(B, root, dev)
    IN  IF d.found THEN FindSeries(B, d.node, m) ELSE NotFound

-----------------------------------------------------------------------------
(* The whole index, walked: every (device, series record) it contains and  *)
(* whether all nodes are well formed and sorted, with children tiling the  *)
(* region they refer to and no node larger than the degree allows.         *)
EndsThere(node, i, child) == i < Len(node.children) \/ child.o = node.endOff

RECURSIVE WalkMeasurements(_,_,_,_)
WalkMeasurements(B, node, dev, degree) ==
    IF ~(Sorted(node.children) /\ Len(node.children) \in 1..degree) THEN [ok |-> FALSE, v |-> <<>>]
    ELSE IF node.type = LeafMeasurement
    THEN FoldLeft(LAMBDA acc, i :
            LET o == node.children[i].off
                e == ChildEnd(node, i)
            IN  IF ~acc.ok \/ o < 7 \/ e > Len(B) \/ e < o THEN [ok |-> FALSE, v |-> acc.v]
                ELSE LET l == SeriesListFrom(B, o, e)
                     IN  [ok |-> l.ok /\ Sorted(l.v) /\ Len(l.v) \in 1..degree
                                 /\ (Len(l.v) > 0 => l.v[1].name = node.children[i].name),
                          v |-> acc.v \o Tup([j \in 1..Len(l.v) |-> [dev |-> dev, s |-> l.v[j]]], Len(l.v))],
          [ok |-> TRUE, v |-> <<>>], [i \in 1..Len(node.children) |-> i])
    ELSE IF node.type = InternalMeasurement
    THEN FoldLeft(LAMBDA acc, i :
            LET c == ChildNode(B, node, i)
            IN  IF ~acc.ok \/ ~c.ok THEN [ok |-> FALSE, v |-> acc.v]
                ELSE LET w == WalkMeasurements(B, c, dev, degree)
                     IN  [ok |-> w.ok /\ c.children[1].name = node.children[i].name /\ EndsThere(node, i, c),
                          v |-> acc.v \o w.v],
          [ok |-> TRUE, v |-> <<>>], [i \in 1..Len(node.children) |-> i])
    ELSE [ok |-> FALSE, v |-> <<>>]

RECURSIVE WalkDevices(_,_,_)
WalkDevices(B, node, degree) ==
    IF ~(Sorted(node.children) /\ Len(node.children) <= degree) THEN [ok |-> FALSE, v |-> <<>>]
    ELSE IF node.type \in {LeafDevice, InternalDevice}
    THEN FoldLeft(LAMBDA acc, i :
            LET c == ChildNode(B, node, i)
            IN  IF ~acc.ok \/ ~c.ok THEN [ok |-> FALSE, v |-> acc.v]
                ELSE IF node.type = LeafDevice
                THEN LET w == WalkMeasurements(B, c, node.children[i].name, degree)
                     IN  [ok |-> w.ok /\ EndsThere(node, i, c), v |-> acc.v \o w.v]
                ELSE IF c.children = <<>> THEN [ok |-> FALSE, v |-> acc.v]
                ELSE LET w == WalkDevices(B, c, degree)
                     IN  [ok |-> w.ok /\ c.children[1].name = node.children[i].name /\ EndsThere(node, i, c),
                          v |-> acc.v \o w.v],
          [ok |-> TRUE, v |-> <<>>], [i \in 1..Len(node.children) |-> i])
    ELSE [ok |-> FALSE, v |-> <<>>]
=============================================================================
