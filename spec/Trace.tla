------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validation of recorded executions of the writer.                        *)
(*                                                                         *)
(* A trace is what one run of the real code showed: the schema declared,   *)
(* every call with its arguments and its result, the length of the file    *)
(* after each call and the bytes of the file.  Each event is matched       *)
(* against the contract (module Contract); bytes are read the way a reader *)
(* of the format reads them (module Format).  The specification follows    *)
(* the code where both are allowed to choose (when pages are sealed, when  *)
(* groups are flushed, which of several reasons an error names); whatever  *)
(* no behaviour of the contract explains is recorded in `bad' as a pair of *)
(* property and finding.  Property Pxx of a run is the invariant that      *)
(* nothing is recorded for it.                                             *)
(*                                                                         *)
(* Environment: TRACES - file of traces, one JSON object per line;         *)
(* PROPERTY - the property the run decides.                                *)
(***************************************************************************)
EXTENDS Format, Bloom, Schema, Disk, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Property == IOEnv.PROPERTY

(* All traces checked together begin at the same place.                    *)
BaseOfTraces == Traces[1].base

C == INSTANCE Contract WITH Before <- LtS, Negative <- IsNeg

-----------------------------------------------------------------------------
Context(t) ==
    LET ss == TLCEval(SeriesOf(t))
        ds == { ss[k].d : k \in 1..Len(ss) }
        of(d) == { k \in 1..Len(ss) : ss[k].d = d }
    IN  [series |-> ss,
         index |-> TLCEval([d \in ds |-> LET o == of(d) IN [m \in { ss[k].m : k \in o } |-> CHOOSE k \in o : ss[k].m = m]])]

Contexts == TLCEval([tr \in 1..Len(Traces) |-> Context(Traces[tr])])

SeriesNo(c, d, m) == IF d \in DOMAIN c.index /\ m \in DOMAIN c.index[d] THEN c.index[d][m] ELSE 0
Decl(c, s) == IF s = 0 THEN C!Undeclared ELSE c.series[s]

-----------------------------------------------------------------------------
VARIABLES tr,   \* which trace
          i,    \* the next event
          st    \* the state of the contract and of the reader, a record:
                \*   status   "none", "open", "failed" (a call reported a fault), "closed", "lost" (after a panic)
                \*   acc      the points accepted, per series
                \*   dur      how many of them are in chunks found in the file, per series
                \*   maybe    << series, timestamp >> of points of calls that failed
                \*   chunks   the chunks found in the file
                \*   scan     how far the file has been read, and the device there
                \*   len      its length
                \*   max      most bytes written by one flush
                \*   bad      findings

Init0(t, c) ==
    [status |-> "none", acc |-> Tup([k \in 1..Len(c.series) |-> <<>>], Len(c.series)),
     dur |-> Tup([k \in 1..Len(c.series) |-> 0], Len(c.series)),
     maybe |-> {}, chunks |-> <<>>, scan |-> [o |-> 7, dev |-> NoDevice], len |-> 0, closedLen |-> 0, max |-> 0, bad |-> {}]

Findings(props, cond, what) == IF cond THEN {} ELSE { << p, what >> : p \in props }

Plain(t) == t.misbehave = "no"
Refused(t) == \E k \in 1..Len(t.ev) : t.ev[k].e \in {"w", "b"} /\ t.ev[k].r \notin {"ok", "none"}
Batched(t) == \E k \in 1..Len(t.ev) : t.ev[k].e = "b"

(* The properties a deviation of the content of the file goes against.     *)
ContentProps(t) ==
    {"C01"} \cup (IF Refused(t) THEN {"C03", "C02"} ELSE {})
            \cup (IF Batched(t) THEN {"C10"} ELSE {})
            \cup (IF t.limited THEN {"C09"} ELSE {})
            \cup (IF Plain(t) THEN {} ELSE {"C13"})
AllFile == {"C01", "C04", "C05", "C06", "C07", "C08", "C11", "C12", "C15"}

-----------------------------------------------------------------------------
(* Reading what the file has gained.                                       *)

PagesOf(B, ch) == Tup([k \in 1..Len(ch.pages) |-> PagePoints(B, ch.pages[k], ch)], Len(ch.pages))
Concat(ps) == FoldLeft(LAMBDA a, p : a \o p.pts, <<>>, ps)

PageLimit(t) == IF "page_size" \in DOMAIN t.limits THEN t.limits.page_size ELSE 65536
GroupLimit(t) == IF "group_size" \in DOMAIN t.limits THEN t.limits.group_size ELSE 134217728

(* One chunk found: is it the next points of its series, written as        *)
(* declared, with truthful statistics?                                     *)
TakeChunk(t, c, B, s0, ch) ==
    LET s == SeriesNo(c, NameNo(t, ch.dev), NameNo(t, ch.name))
        ps == PagesOf(B, ch)
        ok == \A k \in 1..Len(ps) : ps[k].ok
        pts == Concat(ps)
        n == IF s = 0 THEN 0 ELSE s0.dur[s]
        acc == IF s = 0 THEN <<>>
               ELSE IF s0.maybe = {} \/ pts = <<>> THEN s0.acc[s]
               ELSE LET ts == { pts[k][1] : k \in 1..Len(pts) }
                        last == pts[Len(pts)][1]
                    IN  SubSeq(s0.acc[s], 1, n)
                        \o SelectSeq(SubSeq(s0.acc[s], n + 1, Len(s0.acc[s])),
                                     LAMBDA p : << s, p[1] >> \notin s0.maybe \/ p[1] \in ts \/ LtS(last, p[1]))
        m == n + Len(pts)
        fits == s # 0 /\ m <= Len(acc)
        same == fits /\ pts = SubSeq(acc, n + 1, m)
        sameTimes == fits /\ \A k \in 1..Len(pts) : pts[k][1] = acc[n+k][1]
        d == Decl(c, s)
        bad ==
          Findings({"C15", "C01"}, s # 0, "chunk of a series that was not declared")
          \cup (IF s = 0 THEN {} ELSE
                Findings({"C15"}, ch.type = d.type /\ ch.encoding = d.encoding /\ ch.compression = d.compression,
                         "chunk header does not carry the declared type, encoding and compression"))
          \cup Findings({"C04"}, IF ch.multi THEN Len(ch.pages) > 1 ELSE Len(ch.pages) = 1,
                        "marker of the chunk does not fit its number of pages")
          \cup Findings({"C04", "C08"} \cup ContentProps(t), ok, "page cannot be decoded")
          \cup Findings({"C09", "C04"}, ~ok \/ \A k \in 1..Len(ps) : ps[k].pts # <<>>, "empty page")
          \cup Findings({"C09", "C04"}, ch.pages # <<>>, "empty chunk")
          \cup (IF ~ok \/ s = 0 THEN {} ELSE
                Findings(ContentProps(t) \cup (IF Len(t.ev) > 0 /\ sameTimes THEN {"C08"} ELSE {}), same,
                         "chunk does not hold the next accepted points of its series")
                \cup Findings({"C08"}, same \/ ~fits, "decoded points differ from the accepted ones"))
          \cup (IF ~ok \/ ~ch.multi THEN {} ELSE
                UNION { { << "C06", "page statistics: " \o w >> : w \in WrongStats(ch.pages[k].stats, ps[k].pts, ch.type) }
                        : k \in 1..Len(ps) })
          \cup (IF ~t.uniform THEN {} ELSE
                Findings({"C09"}, \A k \in 1..Len(ch.pages) : ch.pages[k].usize <= 2 * PageLimit(t),
                         "page exceeds twice the page limit"))
    IN  [s0 EXCEPT !.bad = @ \cup bad,
                   !.acc = IF s = 0 THEN @ ELSE [@ EXCEPT ![s] = acc],
                   !.dur = IF s = 0 THEN @ ELSE [@ EXCEPT ![s] = IF m <= Len(acc) THEN m ELSE Len(acc)],
                   !.chunks = Append(@, [s |-> s, dev |-> ch.dev, name |-> ch.name, off |-> ch.off, o |-> ch.o,
                                         type |-> ch.type, pts |-> pts, ok |-> ok])]

(* The file has grown to len bytes.                                        *)
Grow(t, c, s0, len) ==
    IF len <= s0.scan.o \/ s0.status = "closed" THEN [s0 EXCEPT !.len = len]
    ELSE LET B == t.file
             end == IF len < Len(B) THEN len ELSE Len(B)
             r == ScanFrom(B, s0.scan.o, end, s0.scan.dev)
             s1 == FoldLeft(LAMBDA s, ch : TakeChunk(t, c, B, s, ch), s0, r.chunks)
         IN  [s1 EXCEPT !.scan = [o |-> r.o, dev |-> r.dev], !.len = len]

-----------------------------------------------------------------------------
(* The file is complete: everything a reader can find in it.               *)

IsPrefixComplete(B, k) == k >= 13 /\ IsMagicAt(B, k - 6)

(* No proper prefix looks complete, and scanning it finds the chunks that  *)
(* are entirely in it and nothing else.                                    *)
PrefixesBad(t, B, s0, n) ==
    LET ends == { s0.chunks[k].o : k \in 1..Len(s0.chunks) }
        lim == IF n <= 1500 THEN 7 ELSE n - 300
    IN  Findings({"C12"}, \A k \in lim..(n-1) : ~IsPrefixComplete(B, k), "a proper prefix of the file looks complete")
        \cup (IF n > 1500 THEN {} ELSE
              Findings({"C12"},
                \A k \in 7..s0.scan.o :
                    Len(ScanFrom(B, 7, k, NoDevice).chunks) = Cardinality({ o \in ends : o <= k }),
                "a scan of a prefix does not find exactly the chunks in it"))

Path(t, s) == t.names[s.d] \o << 46 >> \o t.names[s.m]
Ascii(bs) == \A k \in 1..Len(bs) : bs[k] < 128

(* Series records of the index against the chunks of the scan.             *)
RefsBad(t, c, of, e) ==  \* of: the chunks of every series, e = [dev, s (series record)]
    LET key == << e.dev, e.s.name >>
        mine == IF key \in DOMAIN of THEN of[key] ELSE <<>>
        s == SeriesNo(c, NameNo(t, e.dev), NameNo(t, e.s.name))
        n == Len(mine)
        offs == n = Len(e.s.chunks) /\ \A k \in 1..n : e.s.chunks[k].off = mine[k].off
        pts == FoldLeft(LAMBDA a, ch : a \o ch.pts, <<>>, mine)
        decoded == \A k \in 1..n : mine[k].ok
    IN  Findings({"C15"}, s # 0, "index contains a series that was not declared")
        \cup Findings({"C05"}, n > 0, "index contains a series without data")
        \cup Findings({"C05"}, offs, "index does not list the chunks of a series at their offsets, in order")
        \cup Findings({"C05", "C04"}, e.s.several = (Len(e.s.chunks) > 1), "kind of a series record does not fit its chunk list")
        \cup (IF s = 0 THEN {} ELSE
              Findings({"C15"}, e.s.type = c.series[s].type, "series record does not carry the declared type"))
        \cup (IF ~decoded \/ n = 0 THEN {} ELSE
              { << "C06", "series statistics: " \o w >> : w \in WrongStats(e.s.stats, pts, e.s.type) }
              \cup (IF ~(offs /\ e.s.several) THEN {} ELSE
                    UNION { { << "C06", "chunk statistics: " \o w >> : w \in WrongStats(e.s.chunks[k].stats, mine[k].pts, e.s.type) }
                            : k \in 1..n }))

IndexBad(t, c, s0, B, f) ==
    LET w == WalkDevices(B, f.root, t.degree)
        keys == Tup([k \in 1..Len(w.v) |-> << w.v[k].dev, w.v[k].s.name >>], Len(w.v))
        data == { << s0.chunks[k].dev, s0.chunks[k].name >> : k \in 1..Len(s0.chunks) }
        of == TLCEval(FoldLeft(LAMBDA a, ch : [a EXCEPT ![<< ch.dev, ch.name >>] = Append(@, ch)],
                               TLCEval([k \in data |-> <<>>]), s0.chunks))
        found(k) == Lookup(B, f.root, t.names[c.series[k].d], t.names[c.series[k].m])
        has(k) == << t.names[c.series[k].d], t.names[c.series[k].m] >> \in data
        n == Len(c.series)
        probe == IF n <= 80 THEN 1..n ELSE { k \in 1..n : k % (n \div 40) = 0 \/ k <= 3 \/ k >= n - 2 }
        absent == { p \in (1..Min({5, Len(t.names)})) \X (1..Min({5, Len(t.names)})) : << t.names[p[1]], t.names[p[2]] >> \notin data }
    IN  Findings({"C05"}, w.ok, "index is malformed, unsorted, or a node has more entries than allowed")
        \cup Findings({"C05"}, { keys[k] : k \in 1..Len(keys) } = data /\ Len(keys) = Cardinality(data),
                      "index does not list exactly the series with data, each once")
        \cup Findings({"C05", "C01"}, \A k \in probe : has(k) => LET x == found(k) IN x.found /\ x.series.name = t.names[c.series[k].m],
                      "a series with data is not found by the reader's search")
        \cup Findings({"C05"}, \A k \in probe : ~has(k) => ~found(k).found, "a series without data is found")
        \cup Findings({"C05"}, \A p \in absent : ~Lookup(B, f.root, t.names[p[1]], t.names[p[2]]).found, "a series without data is found")
        \cup UNION { RefsBad(t, c, of, w.v[k]) : k \in 1..Len(w.v) }

BloomFindings(t, c, s0, f) ==
    LET data == { << s0.chunks[k].dev, s0.chunks[k].name >> : k \in 1..Len(s0.chunks) }
        paths == SetToSeq({ p[1] \o << 46 >> \o p[2] : p \in data })
        ascii == \A k \in 1..Len(paths) : Ascii(paths[k])
    IN  IF ~ascii THEN {}
        ELSE { << "C07", "bloom filter: " \o w >> : w \in BloomBad(f.bloom.bytes, f.bloom.size, f.bloom.count, paths) }

CompleteFileBad(t, c, s0, len) ==
    LET B == IF len < Len(t.file) THEN SubSeq(t.file, 1, len) ELSE t.file
        f == FooterAt(B)
        all == \A s \in 1..Len(c.series) :
                 \A k \in (s0.dur[s] + 1)..Len(s0.acc[s]) : << s, s0.acc[s][k][1] >> \in s0.maybe
    IN  Findings({"C04"}, HeaderOk(B), "file does not begin with magic and version")
        \cup Findings(AllFile \cup ContentProps(t), f.ok, "end of the file (metadata, its size, magic) cannot be read")
        \cup Findings(ContentProps(t) \cup {"C11"}, all, "accepted points are missing from the file")
        \cup (IF ~f.ok THEN {} ELSE
              Findings({"C04", "C12"}, s0.scan.o = f.meta, "a sequential scan does not end at the recorded metadata offset")
              \cup Findings({"C04"}, f.meta >= 7 /\ f.meta < Len(B) /\ B[f.meta + 1] = Separator, "no separator at the recorded metadata offset")
              \cup Findings({"C04"}, f.off > f.meta, "metadata overlap the data")
              \cup IndexBad(t, c, s0, B, f)
              \cup BloomFindings(t, c, s0, f))
        \cup PrefixesBad(t, B, s0, len)

(* Where the sink misbehaved, a file that is not complete and sound goes   *)
(* against what a successful close promises.                               *)
CompleteBad(t, c, s0, len) ==
    LET bad == CompleteFileBad(t, c, s0, len)
    IN  IF Plain(t) THEN bad ELSE bad \cup { << "C13", b[2] >> : b \in bad }

-----------------------------------------------------------------------------
(* Events.                                                                 *)

(* Properties a refusal of an acceptable call goes against.                *)
UnexpectedError(t) == {"C02", "C01"} \cup (IF Plain(t) THEN {} ELSE {"C13"}) \cup (IF Refused(t) THEN {"C03"} ELSE {})
PanicProps == {"C01", "C02", "C03", "C06", "C08", "C09", "C10", "C13"}

ResultBad(t, e, reasons, s0) ==
    IF e.r = "ok"
    THEN Findings({"C11"}, s0.status # "closed", "write accepted after the file was closed")
         \cup Findings({"C13"}, ~e.faulted, "call succeeds though the underlying writer failed")
         \cup (IF s0.status # "open" THEN {} ELSE
               Findings({"C02"}, "OutOfOrderData" \notin reasons, "point accepted out of order")
               \cup Findings({"C03", "C15"}, reasons \subseteq {"OutOfOrderData"}, "point accepted that has to be refused"))
    ELSE IF e.r = "panic" THEN { << p, "call panics" >> : p \in PanicProps \cup (IF s0.status = "closed" THEN {"C11"} ELSE {}) }
    ELSE IF e.r = "none" \/ s0.status \in {"closed", "failed", "lost"} \/ e.faulted THEN {}
    ELSE IF reasons = {}
    THEN { << p, "acceptable call refused" >> :
           p \in UnexpectedError(t) \cup (IF e.r \in {"IllegalState", "WrongTypeForSeries", "Encoding"} THEN {"C15"} ELSE {}) }
    ELSE Findings({"C03", "C02"}, e.r \in reasons, "error does not name a reason that applies")

(* Single writes: one, or a run of accepted ones.                          *)
WriteEvent(t, c, s0, e) ==
    LET s == SeriesNo(c, e.d, e.m)
        d == Decl(c, s)
        step(x, p) ==
            LET rs == C!Reasons(d, IF s = 0 THEN <<>> ELSE x.acc[s], [t |-> p[1], v |-> p[2], type |-> e.t])
                take == s # 0 /\ (e.r = "ok" \/ e.faulted)
                \* where the code goes on after a fault, a failed point may have been dropped
                acc == IF s = 0 THEN <<>>
                       ELSE IF x.maybe = {} THEN x.acc[s]
                       ELSE SelectSeq(x.acc[s], LAMBDA q : << s, q[1] >> \notin x.maybe \/ LtS(q[1], p[1]))
            IN  IF ~take THEN [x EXCEPT !.bad = @ \cup ResultBad(t, e, rs, x)]
                ELSE [x EXCEPT !.bad = @ \cup ResultBad(t, e, rs, x),
                               !.acc = [@ EXCEPT ![s] = Append(acc, p)],
                               !.maybe = IF e.faulted THEN @ \cup {<< s, p[1] >>} ELSE @ \ {<< s, p[1] >>}]
        \* the same, for a run of points that all succeed
        n == Len(e.pts)
        last(k) == IF k > 1 THEN << e.pts[k-1] >> ELSE s0.acc[s]
        all == [s0 EXCEPT !.bad = @ \cup UNION { ResultBad(t, e, C!Reasons(d, last(k), [t |-> e.pts[k][1], v |-> e.pts[k][2], type |-> e.t]), s0)
                                              : k \in 1..n },
                          !.acc = [@ EXCEPT ![s] = @ \o e.pts]]
        s1 == IF s # 0 /\ e.r = "ok" /\ ~e.faulted /\ s0.maybe = {} THEN all ELSE FoldLeft(step, s0, e.pts)
    IN  [s1 EXCEPT !.status = IF e.r = "panic" THEN "lost"
                              ELSE IF e.faulted /\ @ = "open" THEN "failed" ELSE @]

BatchEvent(t, c, s0, e) ==
    LET sps == Tup([k \in 1..Len(e.pts) |->
                      << SeriesNo(c, e.d, e.pts[k][1]), [t |-> e.ts, v |-> e.pts[k][3], type |-> e.pts[k][2]] >>], Len(e.pts))
        b == C!Batch(c.series, s0.acc, sps)
        live == s0.status = "open" /\ ~e.faulted
        bad ==
            IF e.r = "panic" \/ ~live THEN ResultBad(t, e, b.reasons, s0)
            ELSE Findings({"C10"}, (e.r = "ok") = (b.reasons = {}) \/ e.r = "none" \/ e.pts = <<>>,
                          "batch succeeds or fails unlike its points written one by one")
                 \cup Findings({"C10"}, e.r \in {"ok", "none"} \/ b.reasons = {} \/ e.r \in b.reasons,
                               "batch returns another error than its first refused point")
                 \cup (IF e.pts = <<>> THEN {} ELSE ResultBad(t, e, b.reasons, s0))
        \* what the code took, should it differ from the contract
        taken == IF e.r = "ok" /\ b.reasons # {}
                 THEN FoldLeft(LAMBDA a, sp : IF sp[1] = 0 THEN a ELSE [a EXCEPT ![sp[1]] = C!Accept(@, sp[2])], s0.acc, sps)
                 ELSE b.acc
        done == e.r = "ok" \/ (e.r \notin {"none", "panic"} /\ (live \/ e.faulted))
    IN  [s0 EXCEPT !.bad = @ \cup bad,
                   !.acc = IF done /\ s0.status # "closed" THEN taken ELSE @,
                   !.maybe = IF e.faulted THEN @ \cup { << sps[k][1], e.ts >> : k \in 1..Len(sps) } ELSE @,
                   !.status = IF e.r = "panic" THEN "lost"
                              ELSE IF e.faulted /\ @ = "open" THEN "failed" ELSE @]

CloseEvent(t, c, s0, e) ==
    IF s0.status = "closed"
    THEN [s0 EXCEPT !.bad = @ \cup Findings({"C11"}, e.r # "panic", "second close panics")]
    ELSE IF e.r = "ok"
    THEN LET s1 == Grow(t, c, s0, e.len)
         IN  [s1 EXCEPT !.status = "closed", !.closedLen = e.len,
                        !.bad = @ \cup CompleteBad(t, c, s1, e.len)
                                  \cup Findings({"C13"}, ~e.faulted /\ t.unwritable = "no", "close succeeds though the underlying writer failed")]
    ELSE [Grow(t, c, s0, e.len) EXCEPT
            !.bad = @ \cup (IF e.r = "panic" THEN { << p, "close panics" >> : p \in AllFile \cup {"C02", "C03", "C09", "C10", "C13"} }
                            ELSE Findings(AllFile \cup UnexpectedError(t), e.r = "none" \/ e.faulted \/ s0.status # "open" \/ t.unwritable # "no", "close fails without a reason")),
            !.status = IF e.r = "panic" THEN "lost" ELSE IF @ = "open" /\ e.r # "none" THEN "failed" ELSE @]

NewEvent(t, c, s0, e) ==
    [s0 EXCEPT !.status = IF e.r = "ok" THEN "open" ELSE "none",
               !.bad = @ \cup Findings({"C13"}, e.r # "panic", "creating the writer panics")
                         \cup Findings({"C13"}, e.r # "ok" \/ ~(e.faulted \/ t.unwritable = "open"), "creating the writer succeeds though the underlying writer failed")
                         \cup Findings({"C01", "C02", "C13"}, e.r \in {"ok", "panic"} \/ e.faulted \/ t.unwritable # "no", "creating the writer fails without a reason")]

(* A dropped writer may still write, but nothing that is not the           *)
(* continuation of the file.                                               *)
DropEvent(t, c, s0, e) ==
    [s0 EXCEPT !.bad = @ \cup Findings({"C11", "C13"}, e.r # "panic", "dropping the writer panics")]

Step(t, c, s0, e) ==
    LET s1 == CASE e.e = "new" -> NewEvent(t, c, s0, e)
                [] e.e \in {"w", "run"} -> WriteEvent(t, c, s0, e)
                [] e.e = "b" -> BatchEvent(t, c, s0, e)
                [] e.e = "close" -> CloseEvent(t, c, s0, e)
                [] OTHER -> DropEvent(t, c, s0, e)
        grown == e.len - s0.len
        flushed == IF s1.status # "closed" \/ s0.status = "closed" THEN grown
                   ELSE s1.scan.o - s0.len
        s2 == IF e.len > s0.len /\ e.e # "close" THEN Grow(t, c, s1, e.len) ELSE [s1 EXCEPT !.len = e.len]
    IN  [s2 EXCEPT !.max = IF e.e # "new" /\ flushed > @ THEN flushed ELSE @,
                   !.bad = @ \cup Findings({"C12"}, e.keep, "bytes already in the file were changed")
                             \cup Findings({"C11"}, e.keep \/ s0.status # "closed", "bytes of the closed file were changed")
                             \cup Findings({"C11", "C12"}, s0.status # "closed" \/ grown = 0, "closed file was written to")
                             \cup Findings({"C12"}, grown >= 0, "file was truncated")
                             \cup (IF ~t.uniform \/ e.e = "new" THEN {} ELSE
                                   Findings({"C09"}, flushed <= GroupLimit(t) + GroupLimit(t) \div 4 + 200,
                                            "more data was buffered than the chunk group limit allows"))]

(* At the end of the trace.                                                *)
Results(t) == [k \in 1..Len(t.ev) |-> << t.ev[k].e, t.ev[k].r >>]
TwinBad(t, w) ==
    LET p == CASE w.kind \in {"process", "elsewhere", "redeclared", "threads", "interleaved"} -> "C14"
               [] w.kind = "unrefused" -> "C03"
               [] w.kind \in {"nofault", "buffered"} -> "C13"
               [] w.kind = "capi" -> "C20"
               [] w.kind = "pyapi" -> "C21"
               [] OTHER -> "?"
    IN  Findings({p}, w.file = t.file, "file differs from the one of the twin run (" \o w.kind \o ")")
        \cup (IF w.kind \in {"process", "elsewhere", "redeclared", "threads", "interleaved", "nofault"}
              THEN Findings({p}, w.ev = t.ev, "results differ from those of the twin run (" \o w.kind \o ")") ELSE {})
EndBad(t, s0) ==
    UNION { TwinBad(t, t.twins[k]) : k \in 1..Len(t.twins) }
    \cup Findings({"C11"}, s0.status # "closed" \/ Len(t.file) = s0.closedLen, "closed file was written to")
    \cup (IF t.disk = <<>> THEN {} ELSE { << "C12", w >> : w \in CrashPointsBad(t.disk, t.file) })
    \cup (IF t.abort = "" THEN {} ELSE { << p, "the process did not survive: " \o t.abort >> :
             p \in AllFile \cup PanicProps \cup {"C14", "C20", "C21"} })

-----------------------------------------------------------------------------
Init == /\ tr \in 1..Len(Traces)
        /\ i = 1
        /\ st = Init0(Traces[tr], Contexts[tr])

Event == /\ i <= Len(Traces[tr].ev)
         /\ st' = TLCEval(Step(Traces[tr], Contexts[tr], st, Traces[tr].ev[i]))
         /\ i' = i + 1
         /\ UNCHANGED tr

Report(bad) == PrintT("@@" \o ToJson([id |-> Traces[tr].id, bad |-> bad, events |-> i - 1, status |-> st.status,
                                      chunks |-> Len(st.chunks), max |-> st.max,
                                      points |-> FoldLeft(LAMBDA n, a : n + Len(a), 0, st.acc)]))

End == /\ i = Len(Traces[tr].ev) + 1
       /\ st' = [st EXCEPT !.bad = TLCEval(@ \cup EndBad(Traces[tr], st))]
       /\ i' = i + 1
       /\ UNCHANGED tr
       /\ Report(st'.bad)

Next == Event \/ End
Spec == Init /\ [][Next]_<< tr, i, st >>

View == << tr, i >>

(* The property, once the trace is complete.                               *)
Holds == i = Len(Traces[tr].ev) + 2 => ~\E b \in st.bad : b[1] = Property
Short == [trace |-> Traces[tr].id, event |-> i, findings |-> { b \in st.bad : b[1] = Property }]
=============================================================================
