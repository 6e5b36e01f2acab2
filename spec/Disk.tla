-------------------------------- MODULE Disk --------------------------------
(***************************************************************************)
(* The file on disk as a sequence of system calls leaves it: every state   *)
(* between two calls is a crash point, and so is every state within the    *)
(* writing of a buffer (a part of it is there).  File 1 is the one that    *)
(* is being written.                                                       *)
(*                                                                         *)
(* A call is a record: k what, p the file, o the offset, n a length, b the *)
(* bytes, q the file that is moved to p.                                   *)
(***************************************************************************)
EXTENDS Words

Unknown == -1      \* a byte that was there before and is not known

Has(fs, p) == p \in DOMAIN fs
Put(fs, p, c) == [x \in DOMAIN fs \cup {p} |-> IF x = p THEN c ELSE fs[x]]
Fill(n, b) == [k \in 1..n |-> b]
Resize(c, n, b) == IF n <= Len(c) THEN SubSeq(c, 1, n) ELSE c \o Fill(n - Len(c), b)
Over(c, o, b) ==   \* bytes b at offset o
    LET d == IF Len(c) < o THEN Resize(c, o, 0) ELSE c
    IN  SubSeq(d, 1, o) \o b \o SubSeq(d, o + Len(b) + 1, Len(d))

Apply(fs, e) ==
    CASE e.k = "open"  -> Put(fs, e.p, IF Has(fs, e.p) THEN Resize(fs[e.p], e.n, Unknown) ELSE Fill(e.n, Unknown))
      [] e.k = "write" -> Put(fs, e.p, Over(IF Has(fs, e.p) THEN fs[e.p] ELSE <<>>, e.o, e.b))
      [] e.k = "size"  -> Put(fs, e.p, Resize(IF Has(fs, e.p) THEN fs[e.p] ELSE <<>>, e.n, 0))
      [] e.k = "move"  -> Put(fs, e.p, IF Has(fs, e.q) THEN fs[e.q] ELSE << Unknown >>)
      [] e.k = "gone"  -> Put(fs, e.p, <<>>)
      [] OTHER         -> Put(fs, e.p, << Unknown >>)

Content(fs) == IF Has(fs, 1) THEN fs[1] ELSE <<>>
Begins(c, d) == Len(c) <= Len(d) /\ SubSeq(d, 1, Len(c)) = c     \* d begins with c

(* What is wrong with the crash points, given what the file is at the end. *)
(* (Of a write only the bytes it changes matter; where they are appended,  *)
(* a part of them is a beginning as well.)                                 *)
Step1(x, e) ==
    LET fs == Apply(x.fs, e)
        a == Content(x.fs)
        b == Content(fs)
        torn == e.k = "write" /\ e.p = 1 /\ e.o < Len(a) /\ ~Begins(a, b)
    IN  [fs |-> fs,
         bad |-> x.bad \cup (IF Begins(a, b) \/ torn THEN {} ELSE {"what is on disk is taken back"})
                       \cup (IF torn THEN {"bytes on disk are written over"} ELSE {})
                       \cup (IF Unknown \in { b[k] : k \in 1..Len(b) } THEN {"bytes on disk are not the file's"} ELSE {})]
CrashPointsBad(calls, file) ==
    LET x == FoldLeft(LAMBDA y, e : TLCEval(Step1(y, e)), [fs |-> <<>>, bad |-> {}], calls)
    IN  x.bad \cup (IF Begins(Content(x.fs), file) /\ Len(Content(x.fs)) = Len(file) THEN {}
                    ELSE {"what was written does not add up to the file"})
=============================================================================
