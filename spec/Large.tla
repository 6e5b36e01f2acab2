-------------------------------- MODULE Large -------------------------------
(***************************************************************************)
(* Files of many series, chunks or pages.  The same reader as in Trace     *)
(* looks at the file as a whole, once it is closed, and not after every    *)
(* call; of the reader's searches and of the hashes of the filter only     *)
(* some are made.  The results of the calls are those of the contract.      *)
(***************************************************************************)
EXTENDS Format, Bloom, Schema, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Property == IOEnv.PROPERTY
BaseOfTraces == Traces[1].base
C == INSTANCE Contract WITH Before <- LtS, Negative <- IsNeg

VARIABLES tr, done

If(cond, props, what) == IF cond THEN {} ELSE { << p, what >> : p \in props }
All == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C10", "C15"}

(* The declared series, and their numbers by << device, measurement >>     *)
(* (numbers of names).                                                     *)
Context(t) ==
    LET ss == SeriesOf(t)
        n == TLCEval([k \in { << ss[j].d, ss[j].m >> : j \in 1..Len(ss) } |-> 0])
    IN  [series |-> ss,
         index |-> FoldLeft(LAMBDA a, j : [a EXCEPT ![<< ss[j].d, ss[j].m >>] = j], n, Tup([j \in 1..Len(ss) |-> j], Len(ss)))]
SeriesNo(c, d, m) == IF << d, m >> \in DOMAIN c.index THEN c.index[<< d, m >>] ELSE 0
Decl(c, s) == IF s = 0 THEN C!Undeclared ELSE c.series[s]

(* The contract over all calls: the points accepted, by series, and what   *)
(* is wrong with the results.                                              *)
ResultBad(e, reasons) ==
    IF e.r = "ok"
    THEN If("OutOfOrderData" \notin reasons, {"C02"}, "point accepted out of order")
         \cup If(reasons \subseteq {"OutOfOrderData"}, {"C03", "C15"}, "point accepted that has to be refused")
    ELSE IF reasons = {} THEN If(FALSE, All, "acceptable call refused, or panics")
    ELSE If(e.r \in reasons, {"C02", "C03"}, "error does not name a reason that applies, or the call panics")

Written(c, st, e) ==
    LET s == SeriesNo(c, e.d, e.m)
        before(k) == IF k > 1 THEN << e.pts[k-1] >> ELSE IF s = 0 THEN <<>> ELSE st.acc[s]
        bad == UNION { ResultBad(e, C!Reasons(Decl(c, s), before(k), [t |-> e.pts[k][1], v |-> e.pts[k][2], type |-> e.t])) : k \in 1..Len(e.pts) }
    IN  IF s # 0 /\ e.r = "ok" THEN [acc |-> [st.acc EXCEPT ![s] = @ \o e.pts], bad |-> st.bad \cup bad]
        ELSE [st EXCEPT !.bad = @ \cup bad]

Batched(c, st, e) ==
    LET sps == Tup([k \in 1..Len(e.pts) |->
                      << SeriesNo(c, e.d, e.pts[k][1]), [t |-> e.ts, v |-> e.pts[k][3], type |-> e.pts[k][2]] >>], Len(e.pts))
        b == C!Batch(c.series, st.acc, sps)
    IN  [acc |-> b.acc,
         bad |-> st.bad \cup ResultBad(e, b.reasons)
                 \cup If((e.r = "ok") = (b.reasons = {}), {"C10"}, "batch succeeds or fails unlike its points written one by one")
                 \cup If(b.reasons = {} \/ e.r \in b.reasons, {"C10"}, "batch returns another error than its first refused point")]

Calls(t, c) ==
    FoldLeft(LAMBDA st, e : IF e.e \in {"w", "run"} THEN Written(c, st, e)
                            ELSE IF e.e = "b" THEN Batched(c, st, e)
                            ELSE [st EXCEPT !.bad = @ \cup If(e.r = "ok", All, "acceptable call refused, or panics")],
             [acc |-> Tup([j \in 1..Len(c.series) |-> <<>>], Len(c.series)), bad |-> {}], t.ev)

Path(t, k) == t.names[k[1]] \o << 46 >> \o t.names[k[2]]

FileBad(t, c, accepted) ==
    LET B == t.file
        f == FooterAt(B)
        num == FoldLeft(LAMBDA a, k : [a EXCEPT ![t.names[k]] = k], TLCEval([b \in { t.names[k] : k \in 1..Len(t.names) } |-> 0]),
                        Tup([k \in 1..Len(t.names) |-> k], Len(t.names)))
        no(b) == IF b \in DOMAIN num THEN num[b] ELSE 0
        acc == TLCEval([k \in DOMAIN c.index |-> accepted[c.index[k]]])
        decl == TLCEval([k \in DOMAIN c.index |-> c.series[c.index[k]]])
        with == { k \in DOMAIN acc : acc[k] # <<>> }
        r == ScanFrom(B, 7, Len(B), NoDevice)
        keyed == Tup([k \in 1..Len(r.chunks) |-> << no(r.chunks[k].dev), no(r.chunks[k].name) >>], Len(r.chunks))
        known == { keyed[k] : k \in 1..Len(keyed) }
        of == FoldLeft(LAMBDA a, k : [a EXCEPT ![keyed[k]] = Append(@, k)], TLCEval([k \in known |-> <<>>]),
                       Tup([k \in 1..Len(keyed) |-> k], Len(keyed)))
        read(k) == LET ch == r.chunks[k]
                       ps == Tup([j \in 1..Len(ch.pages) |-> PagePoints(B, ch.pages[j], ch)], Len(ch.pages))
                   IN  [ok |-> \A j \in 1..Len(ps) : ps[j].ok,
                        pts |-> FoldLeft(LAMBDA a, p : a \o p.pts, <<>>, ps),
                        bad |-> IF ~ch.multi THEN {}
                                ELSE UNION { WrongStats(ch.pages[j].stats, ps[j].pts, ch.type) : j \in { x \in 1..Len(ps) : ps[x].ok } }]
        chunk == Tup([k \in 1..Len(r.chunks) |-> read(k)], Len(r.chunks))
        points(key) == FoldLeft(LAMBDA a, k : a \o chunk[k].pts, <<>>, of[key])
        all == TLCEval([key \in known |-> points(key)])
        w == WalkDevices(B, f.root, t.degree)
        keys == Tup([k \in 1..Len(w.v) |-> << no(w.v[k].dev), no(w.v[k].s.name) >>], Len(w.v))
        refs(k) ==
            LET e == w.v[k].s
                mine == of[keys[k]]
                n == Len(mine)
                offs == n = Len(e.chunks) /\ \A j \in 1..n : e.chunks[j].off = r.chunks[mine[j]].off
            IN  If(offs, {"C05"}, "index does not list the chunks of a series at their offsets, in order")
                \cup If(e.several = (Len(e.chunks) > 1), {"C05", "C04"}, "kind of a series record does not fit its chunk list")
                \cup If(e.type = decl[keys[k]].type, {"C15"}, "series record does not carry the declared type")
                \cup If(WrongStats(e.stats, all[keys[k]], e.type) = {}, {"C06"}, "series statistics")
                \cup (IF ~(offs /\ e.several) THEN {} ELSE
                      If(\A j \in 1..n : WrongStats(e.chunks[j].stats, chunk[mine[j]].pts, e.type) = {}, {"C06"}, "chunk statistics"))
        some == SetToSeq({ k \in with : (k[1] * 7 + k[2]) % (1 + Cardinality(with) \div 20) = 0 })
        hashed == SetToSeq({ Path(t, k) : k \in { k \in with : (k[1] * 7 + k[2]) % (1 + Cardinality(with) \div 300) = 0 } })
    IN  IF ~f.ok \/ ~HeaderOk(B) THEN { << p, "end of the file (metadata, its size, magic) cannot be read" >> : p \in All }
        ELSE If(r.stop = "separator" /\ r.o = f.meta, {"C04"}, "a sequential scan does not end at the recorded metadata offset")
             \cup If(\A k \in 1..Len(chunk) : chunk[k].ok, {"C01", "C04", "C08"}, "page cannot be decoded")
             \cup If(\A k \in 1..Len(chunk) : chunk[k].bad = {}, {"C06"}, "page statistics")
             \cup If(\A k \in 1..Len(chunk) : IF r.chunks[k].multi THEN Len(r.chunks[k].pages) > 1 ELSE Len(r.chunks[k].pages) = 1,
                     {"C04"}, "marker of the chunk does not fit its number of pages")
             \cup If(known \subseteq DOMAIN acc, {"C15", "C01"}, "chunk of a series that was not declared")
             \cup (IF ~(known \subseteq DOMAIN acc) THEN {} ELSE
                   If(known = with /\ \A k \in known : all[k] = acc[k], {"C01", "C10"}, "the chunks do not hold exactly the accepted points")
                   \cup If(\A k \in 1..Len(keyed) : LET d == decl[keyed[k]]
                                                        ch == r.chunks[k]
                                                    IN  ch.type = d.type /\ ch.encoding = d.encoding /\ ch.compression = d.compression,
                           {"C15"}, "chunk header does not carry the declared type, encoding and compression")
                   \cup If(w.ok, {"C05"}, "index is malformed, unsorted, or a node has more entries than allowed")
                   \cup If({ keys[k] : k \in 1..Len(keys) } = known /\ Len(keys) = Cardinality(known), {"C05"},
                           "index does not list exactly the series with data, each once")
                   \cup (IF ~w.ok \/ { keys[k] : k \in 1..Len(keys) } # known THEN {} ELSE UNION { refs(k) : k \in 1..Len(keys) })
                   \cup If(\A k \in 1..Len(some) : LET x == Lookup(B, f.root, t.names[some[k][1]], t.names[some[k][2]])
                                                   IN  x.found /\ x.series.name = t.names[some[k][2]],
                           {"C05", "C01"}, "a series with data is not found by the reader's search")
                   \cup { << "C07", "bloom filter: " \o x >> :
                          x \in SampleBad(f.bloom.bytes, f.bloom.size, f.bloom.count, Cardinality(with), hashed) })

Bad(t) ==
    IF t.abort # "" THEN { << p, "the process did not survive: " \o t.abort >> : p \in All }
    ELSE LET c == TLCEval(Context(t))
             s == TLCEval(Calls(t, c))
         IN  s.bad \cup (IF \E k \in 1..Len(t.ev) : t.ev[k].e = "close" /\ t.ev[k].r = "ok" THEN FileBad(t, c, s.acc) ELSE {})

Init == tr \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED tr
        /\ LET t == Traces[tr]
           IN  PrintT("@@" \o ToJson([id |-> t.id, bad |-> TLCEval(Bad(t)), events |-> Len(t.ev), chunks |-> 1,
                                      points |-> FoldLeft(LAMBDA n, e : IF e.e \in {"run", "w", "b"} THEN n + Len(e.pts) ELSE n, 0, t.ev)]))
Spec == Init /\ [][Next]_<< tr, done >>
=============================================================================
