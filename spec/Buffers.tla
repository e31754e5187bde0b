------------------------------ MODULE Buffers ------------------------------
(***************************************************************************)
(* Buffers and lists: bytes with a type, that scripts write at offsets,    *)
(* that follow the memory they describe (memory views, arrays, tracked     *)
(* arrays), and that a saved stream rebuilds with the same content.        *)
(*                                                                         *)
(* A buffer is [dt, n, src, q (bytes), known, sig, stale]: src tells where *)
(* its bytes are: "own" (bytes, text, nothing, a copy), "view" (memory of  *)
(* the script), "tracked" (a tracked array).  A view is stale once it has  *)
(* been modified without a signal after a signal (sig).                    *)
(***************************************************************************)
EXTENDS Conf

VARIABLES st, hist, l, tid, skip
vars == <<st, hist, l, tid, skip>>
Profile == IOEnv.PROFILE

(* types: text of the protocol, bytes of an item, shape of an item, widths  *)
(* of the numbers of an item                                                *)
Types ==
  [u1 |-> [text |-> "|u1::1", size |-> 1, w |-> <<1>>],
   i2 |-> [text |-> "<i2::1", size |-> 2, w |-> <<2>>],
   b2 |-> [text |-> ">i2::1", size |-> 2, w |-> <<-2>>],
   v3 |-> [text |-> "|u1::3", size |-> 3, w |-> <<1, 1, 1>>],
   m2 |-> [text |-> "<i2::1x2", size |-> 4, w |-> <<2, 2>>],
   st |-> [text |-> "|u1:a:1,<i2:b:2", size |-> 5, w |-> <<1, 2, 2>>],
   pad |-> [text |-> "|u1:a:1,|V1::1,<i2:b:1", size |-> 4, w |-> <<1, 0, 2>>]]
Size(b) == b.n * Types[b.dt].size
Fill0(n, k) == [i \in 1..n |-> ((i * 37) + (k * 50)) % 256]
Fill(n, k) == Fill0(n, k)
\* items of a type (the bytes that belong to no number are 0)
FillT(dt, n, k) == LET q == Fill0(n * Types[dt].size, k) IN
                   IF dt = "pad" THEN [i \in 1..Len(q) |-> IF i % 4 = 2 THEN 0 ELSE q[i]] ELSE q

(* numbers of a buffer: little (positive width) or big endian integers, 0   *)
(* for a byte that belongs to no number                                     *)
Signed(x) == IF x >= 32768 THEN x - 65536 ELSE x
Skip(w) == IF w = 0 THEN 1 ELSE Abs(w)
Off(ws, i) == FoldSeq(LAMBDA a, b : a + b, 0, [j \in 1..(i - 1) |-> Skip(ws[j])])
Decode(b) ==
  LET t == Types[b.dt] ks == SelectSeq([i \in 1..Len(t.w) |-> i], LAMBDA i : t.w[i] # 0) IN
  FlattenSeq([r \in 1..b.n |-> [j \in 1..Len(ks) |->
     LET k == ks[j] o == (r - 1) * t.size + Off(t.w, k) IN
     CASE t.w[k] = 1 -> b.q[o + 1]
       [] t.w[k] = 2 -> Signed(b.q[o + 1] + 256 * b.q[o + 2])
       [] t.w[k] = -2 -> Signed(b.q[o + 2] + 256 * b.q[o + 1])]])

(* ------------------------------------------------------------------ state *)
Init0 == [bs |-> <<>>, ls |-> <<>>, done |-> FALSE]
\* row r of a buffer, as numbers
PerItem(b) == Len(SelectSeq(Types[b.dt].w, LAMBDA w : w # 0))
Rows(b) == LET d == Decode(b) k == PerItem(b) IN [r \in 1..b.n |-> SubSeq(d, (r - 1) * k + 1, r * k)]
Items(s, li) ==
  LET b == s.bs[li.d]
      rows == Rows(b)
      sizes == IF li.s = 0 THEN [i \in 1..(b.n \div li.k) |-> li.k] ELSE Decode(s.bs[li.s])
      from(i) == FoldSeq(LAMBDA x, y : x + y, 0, SubSeq(sizes, 1, i - 1))
  IN [i \in 1..Len(sizes) |-> FlattenSeq(SubSeq(rows, Min2(from(i), b.n) + 1, Min2(from(i) + sizes[i], b.n)))]
Obs(s, err) ==
  [err |-> err,
   bs |-> [i \in 1..Len(s.bs) |-> LET b == s.bs[i] IN
             IF b.known THEN [n |-> b.n, len |-> b.n, dt |-> Types[b.dt].text, q |-> b.q, x |-> Decode(b)]
             ELSE [n |-> b.n, len |-> b.n, dt |-> Types[b.dt].text, q |-> <<>>, x |-> <<>>]],
   ls |-> [i \in 1..Len(s.ls) |-> Items(s, s.ls[i])]]
R(s, err) == [st |-> s, o |-> Obs(s, err)]
Write(q, off, d) == [i \in 1..Len(q) |-> IF i > off /\ i <= off + Len(d) THEN d[i - off] ELSE q[i]]
B(dt, n, src, q, known) == [dt |-> dt, n |-> n, src |-> src, q |-> q, known |-> known, sig |-> FALSE, stale |-> FALSE]
Do(s, e) ==
  CASE e.ev = "buffer" -> \* from bytes, base64 text, a memory view, or nothing
         R([s EXCEPT !.bs = Append(@, B(e.dt, e.n, IF e.src = "mv" THEN "view" ELSE "own",
                                        IF e.src = "none" THEN Fill(e.n * Types[e.dt].size, 0) ELSE e.q, e.src # "none"))], "")
    [] e.ev = "convert" -> \* from an array or a tracked array
         R([s EXCEPT !.bs = Append(@, [B(e.dt, e.n, IF e.tracked THEN "tracked" \* (one item is contiguous whatever the layout)
                                        ELSE IF e.layout = "c" \/ e.n = 1 THEN "view" ELSE "own", e.q, TRUE)
                                     EXCEPT !.sig = ~e.tracked])], "")
    [] e.ev = "set" ->
         LET b == s.bs[e.i] IN
         IF b.src = "view" THEN R([s EXCEPT !.bs[e.i].sig = TRUE], "") \* (signals a change that is visible already)
         ELSE IF e.off < 0 \/ e.off + Len(e.q) > Size(b) THEN R(s, "IndexError")
         ELSE R([s EXCEPT !.bs[e.i].q = Write(@, e.off, e.q),
                          !.bs[e.i].known = @ \/ (e.off = 0 /\ Len(e.q) = Size(b))], "")
    [] e.ev = "poke" -> \* the script writes an item of the memory it gave
         R([s EXCEPT !.bs[e.i].q = Write(@, e.r * Types[s.bs[e.i].dt].size, e.q),
                     !.bs[e.i].stale = s.bs[e.i].src = "view" /\ s.bs[e.i].sig], "")
    [] e.ev = "poke1" -> \* or a number of an item
         R([s EXCEPT !.bs[e.i].q = Write(@, e.r * Types[s.bs[e.i].dt].size + Off(Types[s.bs[e.i].dt].w, e.k), e.q),
                     !.bs[e.i].stale = s.bs[e.i].src = "view" /\ s.bs[e.i].sig], "")
    [] e.ev = "list" -> R([s EXCEPT !.ls = Append(@, [d |-> e.d, s |-> e.s, k |-> e.k])], "")
    [] e.ev = "replay" -> R([s EXCEPT !.done = TRUE], "")

(* ------------------------------------------------------ events to explore *)
Dts == IF Profile = "deep" THEN DOMAIN Types ELSE {"u1", "i2", "v3", "st"}
Ns == IF Profile = "deep" THEN {1, 2, 3} ELSE {2}
NewBuffers(s) ==
  {[ev |-> "buffer", dt |-> d, n |-> n, src |-> src, q |-> IF src = "none" THEN <<>> ELSE FillT(d, n, Len(s.bs) + 1), text |-> t]
     : d \in Dts, n \in Ns, src \in {"bytes", "str", "mv", "none"}, t \in BOOLEAN}
Conversions(s) ==
  {[ev |-> "convert", dt |-> d, n |-> n, layout |-> y, tracked |-> t, q |-> FillT(d, n, Len(s.bs) + 1)]
     : d \in Dts \ {"b2"}, n \in Ns, y \in {"c", "strided", "reversed"}, t \in BOOLEAN}
SizeLists(s) == \* buffers of sizes
  IF Profile = "deep" THEN {[ev |-> "buffer", dt |-> "u1", n |-> Len(x), src |-> "bytes", q |-> x, text |-> FALSE] : x \in {<<1, 0, 2>>, <<2, 1>>}} ELSE {}
Signals(s) == {[ev |-> "set", i |-> i, off |-> 0, q |-> s.bs[i].q, form |-> "bytes"] : i \in {j \in 1..Len(s.bs) : s.bs[j].src = "view"}}
Sets(s) ==
  UNION {LET b == s.bs[i] z == Size(b) IN
         {[ev |-> "set", i |-> i, off |-> o, q |-> Fill(k, 3 + o), form |-> f]
            : o \in IF ~b.known THEN {0} ELSE {0, 1, z - 1, -1}, k \in IF ~b.known THEN {z} ELSE {0, 1, 2, z, z + 1},
              f \in IF Profile = "deep" THEN {"bytes", "str", "mv"} ELSE {"bytes"}} : i \in {j \in 1..Len(s.bs) : s.bs[j].src = "own"}}
Pokes(s) ==
  UNION {{[ev |-> "poke", i |-> i, r |-> r, q |-> FillT(s.bs[i].dt, 1, 5 + r)] : r \in 0..(s.bs[i].n - 1)}
         : i \in {j \in 1..Len(s.bs) : s.bs[j].src # "own"}}
Pokes1(s) ==
  UNION {{[ev |-> "poke1", i |-> i, r |-> r, k |-> k, q |-> Fill(Abs(Types[s.bs[i].dt].w[k]), 7 + k)] : r \in 0..(s.bs[i].n - 1), k \in 1..Len(Types[s.bs[i].dt].w)}
         : i \in {j \in 1..Len(s.bs) : s.bs[j].src # "own" /\ s.bs[j].dt \in {"v3", "m2"}}}
Lists(s) ==
  {[ev |-> "list", d |-> d, s |-> 0, k |-> k] : d \in {i \in 1..Len(s.bs) : s.bs[i].known}, k \in {1, 2}}
  \cup {[ev |-> "list", d |-> d, s |-> z, k |-> 0] : d \in {i \in 1..Len(s.bs) : s.bs[i].known},
          z \in {i \in 1..Len(s.bs) : s.bs[i].src = "own" /\ s.bs[i].dt = "u1" /\ s.bs[i].known /\ \A j \in 1..Len(s.bs[i].q) : s.bs[i].q[j] < 3}}
Used(s) == {s.ls[i].s : i \in 1..Len(s.ls)} \* sizes of a list stay as they are
Cap == IF Profile = "deep" THEN 5 ELSE 2
Events(s) ==
  IF s.done THEN {}
  ELSE (IF Len(s.bs) < Cap THEN NewBuffers(s) \cup Conversions(s) \cup SizeLists(s) ELSE {})
       \cup {e \in Sets(s) \cup Signals(s) : e.i \notin Used(s)} \cup Pokes(s) \cup Pokes1(s)
       \cup (IF Len(s.ls) < 2 THEN Lists(s) ELSE {})
       \cup (IF s.bs # <<>> /\ (\A i \in 1..Len(s.bs) : ~s.bs[i].stale) /\ (Profile # "deep" \/ Len(hist) >= MaxDepth - 1) THEN {[ev |-> "replay"]} ELSE {})

(* -------------------------------------------------------------- properties *)
Inv == /\ \A i \in 1..Len(st.bs) : Len(st.bs[i].q) = Size(st.bs[i]) /\ \A j \in 1..Len(st.bs[i].q) : st.bs[i].q[j] \in 0..255
       \* the items of a list are disjoint parts of its buffer
       /\ \A i \in 1..Len(st.ls) : Len(FlattenSeq(Items(st, st.ls[i]))) <= st.bs[st.ls[i].d].n * PerItem(st.bs[st.ls[i].d])

Bad(e, r) ==
  LET o == e.o x == r.o k == r.st IN
  IF o.err # x.err THEN {IF e.ev = "replay" THEN "replayed" ELSE "error"}
  ELSE LET ok(i) == IF k.bs[i].known THEN o.bs[i] = x.bs[i]
                    ELSE o.bs[i].n = x.bs[i].n /\ o.bs[i].len = x.bs[i].len /\ o.bs[i].dt = x.bs[i].dt
           bad == \E i \in 1..Len(x.bs) : ~ok(i)
           lbad == Len(o.ls) # Len(x.ls) \/ \E i \in 1..Len(x.ls) : o.ls[i] # x.ls[i]
       IN IF Len(o.bs) # Len(x.bs) THEN {"content"}
          ELSE IF e.ev = "replay" THEN (IF bad \/ lbad THEN {"replayed"} ELSE {})
          ELSE (IF bad THEN {"content"} ELSE {}) \cup (IF lbad THEN {"items"} ELSE {})


(* ----------------------------------------------------------- specification *)
GenInit == st = Init0 /\ hist = <<>> /\ l = 0 /\ tid = 0 /\ skip = FALSE
GenNext == /\ Len(hist) < MaxDepth
           /\ \E e \in Pick(Events(st)) : /\ hist' = Append(hist, e)
                                          /\ st' = Do(st, e).st
           /\ UNCHANGED <<l, tid, skip>>
GenSpec == GenInit /\ [][GenNext]_vars
View == <<st, Len(hist)>>
Emit == EmitPath(hist')

TraceInit == GenInit
TraceNext ==
  /\ l < Len(Log)
  /\ l' = l + 1 /\ hist' = <<>>
  /\ LET e == Log[l + 1] IN
     /\ tid' = e.tid
     /\ IF e.ev = "begin" THEN st' = Init0 /\ skip' = FALSE
        ELSE IF skip THEN UNCHANGED <<st, skip>>
        ELSE \E r \in {Do(st, e)} : \E bad \in {Bad(e, r)} :
                /\ st' = r.st
                /\ skip' = (bad # {})
                /\ bad # {} => Report(e.nn, e, SetToSeq(bad), r.o)
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceInv == TRUE
=============================================================================
