------------------------------- MODULE Outline ------------------------------
(***************************************************************************)
(* Files whose sizes, or the lengths of whose names, are numbers of seven  *)
(* digits.  The reader of Format goes through the structure of the file    *)
(* and steps over the pages without decoding them; of the calls on each    *)
(* series only the number of points, the first and the last are known.     *)
(***************************************************************************)
EXTENDS Format, Schema, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Property == IOEnv.PROPERTY
BaseOfTraces == Traces[1].base

VARIABLES tr, done

If(cond, props, what) == IF cond THEN {} ELSE { << p, what >> : p \in props }
All == {"C04", "C05", "C06"}
Total(ns) == FoldLeft(LAMBDA a, n : a + n, 0, ns)

(* The points that went into a series: how many, the first and the last.   *)
Wrong(st, w) ==
    (IF st.count = w.n THEN {} ELSE {"count"})
    \cup (IF st.t0 = w.first[1] /\ st.t1 = w.last[1] THEN {} ELSE {"times"})
    \cup (IF st.first = w.first[2] /\ st.last = w.last[2] THEN {} ELSE {"values"})

FileBad(t) ==
    LET B == t.file
        f == FooterAt(B)
        r == ScanFrom(B, 7, Len(B), NoDevice)
        w == WalkDevices(B, f.root, t.degree)
        Mine(s) == SelectSeq(r.chunks, LAMBDA ch : ch.dev = t.names[s.d] /\ ch.name = t.names[s.m])
        Entry(s) == SelectSeq(w.v, LAMBDA e : e.dev = t.names[s.d] /\ e.s.name = t.names[s.m])
        \* the pages of a chunk fill it; every one has room for what it says it has
        Pages(ch) ==
            LET last == ch.pages[Len(ch.pages)]
            IN  If(IF ch.multi THEN Len(ch.pages) > 1 ELSE Len(ch.pages) = 1, {"C04"}, "marker of the chunk does not fit its number of pages")
                \cup If(last.data + last.csize = ch.o, {"C04"}, "pages do not fill their chunk")
                \cup If(\A j \in 1..Len(ch.pages) : LET p == ch.pages[j]
                                                    IN  /\ ch.compression = "UNCOMPRESSED" => p.usize = p.csize
                                                        /\ ch.multi /\ ch.encoding = "PLAIN" /\ ch.type # "INT32" => p.usize > p.stats.count * ValueSize(ch.type),
                        {"C04"}, "sizes of a page do not agree")
        Series(s) ==
            LET mine == Mine(s)
                e == Entry(s)[1].s
                n == Len(mine)
            IN  IF s.n = 0 THEN If(mine = <<>> /\ Entry(s) = <<>>, {"C05"}, "index lists a series without data")
                ELSE IF Len(Entry(s)) # 1 THEN If(FALSE, {"C05"}, "index does not list exactly the series with data, each once")
                ELSE If(n = Len(e.chunks) /\ \A j \in 1..n : e.chunks[j].off = mine[j].off, {"C05"}, "index does not list the chunks of a series at their offsets, in order")
                     \cup If(e.several = (Len(e.chunks) > 1), {"C05", "C04"}, "kind of a series record does not fit its chunk list")
                     \cup If(Wrong(e.stats, s) = {}, {"C06"}, "series statistics")
                     \cup If(e.several => Total(Tup([j \in 1..Len(e.chunks) |-> e.chunks[j].stats.count], Len(e.chunks))) = s.n, {"C06"}, "chunk statistics")
                     \cup If(\A j \in 1..n : LET ch == mine[j]
                                                 c == IF e.several THEN e.chunks[j].stats.count ELSE s.n
                                             IN  ch.multi => Total(Tup([k \in 1..Len(ch.pages) |-> ch.pages[k].stats.count], Len(ch.pages))) = c,
                             {"C06"}, "page statistics")
                     \cup LET x == Lookup(B, f.root, t.names[s.d], t.names[s.m])
                          IN  If(x.found /\ x.series.name = t.names[s.m], {"C05"}, "a series with data is not found by the reader's search")
    IN  IF ~f.ok \/ ~HeaderOk(B) THEN { << p, "end of the file (metadata, its size, magic) cannot be read" >> : p \in All }
        ELSE If(r.stop = "separator" /\ r.o = f.meta, {"C04"}, "a sequential scan does not end at the recorded metadata offset")
             \cup UNION { Pages(r.chunks[k]) : k \in 1..Len(r.chunks) }
             \cup (IF ~w.ok THEN If(FALSE, {"C05"}, "index is malformed, unsorted, or a node has more entries than allowed")
                   ELSE If(Len(w.v) = Cardinality({ k \in 1..Len(t.series) : t.series[k].n > 0 }), {"C05"}, "index does not list exactly the series with data, each once")
                        \cup UNION { Series(t.series[k]) : k \in 1..Len(t.series) })

Bad(t) ==
    IF t.abort # "" THEN { << p, "the process did not survive: " \o t.abort >> : p \in All }
    ELSE If(\A r \in { t.results[k] : k \in 1..Len(t.results) } : r = "ok", All, "acceptable call refused, or panics")
         \cup (IF \A r \in { t.results[k] : k \in 1..Len(t.results) } : r = "ok" THEN FileBad(t) ELSE {})

Init == tr \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED tr
        /\ LET t == Traces[tr]
           IN  PrintT("@@" \o ToJson([id |-> t.id, bad |-> TLCEval(Bad(t)), events |-> Len(t.results), chunks |-> 1,
                                      points |-> Total([k \in 1..Len(t.series) |-> t.series[k].n])]))
Spec == Init /\ [][Next]_<< tr, done >>
=============================================================================
