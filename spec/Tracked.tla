------------------------------ MODULE Tracked ------------------------------
(***************************************************************************)
(* Tracked arrays: arrays whose modifications, through the array itself or *)
(* through any view of it, are signalled to a tracker that can thus mirror *)
(* their content (e.g. on a GPU); without a tracker, the smallest block of *)
(* modified memory is accumulated until it is cleared.                     *)
(*                                                                         *)
(* A root is a sequence of cells with a byte offset and a size; a handle   *)
(* (array or view) is a shape and the cells it gives access to, in         *)
(* row-major order.  Values are integers in units of 1/64.                 *)
(***************************************************************************)
EXTENDS Conf

VARIABLES st, hist, l, tid, skip
vars == <<st, hist, l, tid, skip>>
Profile == IOEnv.PROFILE
U == 64

(* ------------------------------------------------------------------ roots *)
\* shape, bytes per item of the shape, cells of an item, is memory contiguous
Kind(k) ==
  CASE k = "flat"   -> [shape |-> <<6>>,      cells |-> <<4>>, whole |-> FALSE]
    [] k = "grid"   -> [shape |-> <<3, 4>>,   cells |-> <<4>>, whole |-> FALSE]
    [] k = "cube"   -> [shape |-> <<2, 3, 2>>,cells |-> <<4>>, whole |-> FALSE]
    [] k = "vec"    -> [shape |-> <<4, 3>>,   cells |-> <<4>>, whole |-> FALSE]
    [] k = "asvec"  -> [shape |-> <<4, 3>>,   cells |-> <<4>>, whole |-> FALSE]
    [] k = "part"   -> [shape |-> <<5>>,      cells |-> <<4>>, whole |-> FALSE]
    [] k = "hole"   -> [shape |-> <<2, 3>>,   cells |-> <<4>>, whole |-> TRUE]
    [] k = "fortran"-> [shape |-> <<3, 2>>,   cells |-> <<4>>, whole |-> TRUE]
    [] k = "struct" -> [shape |-> <<3>>,      cells |-> <<1, 4, 4>>, whole |-> FALSE]
Prod(s) == FoldSeq(LAMBDA a, b : a * b, 1, s)
Sum(s) == FoldSeq(LAMBDA a, b : a + b, 0, s)
NCells(k) == Prod(Kind(k).shape) * Len(Kind(k).cells)
CellSize(k, c) == LET w == Kind(k).cells IN w[((c - 1) % Len(w)) + 1]
CellOff(k, c) == LET w == Kind(k).cells IN
  ((c - 1) \div Len(w)) * Sum(w) + Sum(SubSeq(w, 1, (c - 1) % Len(w)))
NBytes(k) == Prod(Kind(k).shape) * Sum(Kind(k).cells)

(* -------------------------------------------------------------- indexing *)
\* index of one axis: <<"i", n>> or <<"s", a, b, step>>
Sel(ax, n) == IF ax.k = "i" THEN <<IF ax.i < 0 THEN ax.i + n ELSE ax.i>>
              ELSE SliceIx(n, ax.a, ax.b, ax.s)
Full == [k |-> "s", a |-> Absent, b |-> Absent, s |-> 1]
Axis(ix, d) == IF d <= Len(ix) THEN ix[d] ELSE Full
RECURSIVE Positions(_, _, _)
Positions(shape, ix, d) ==   \* row-major positions selected by ix
  IF d > Len(shape) THEN <<0>>
  ELSE LET rest == Positions(shape, ix, d + 1)
           stride == Prod(SubSeq(shape, d + 1, Len(shape)))
           sel == Sel(Axis(ix, d), shape[d])
       IN FlattenSeq([i \in 1..Len(sel) |-> [j \in 1..Len(rest) |-> sel[i] * stride + rest[j]]])
RECURSIVE SubShape(_, _, _)
SubShape(shape, ix, d) ==
  IF d > Len(shape) THEN <<>>
  ELSE (IF Axis(ix, d).k = "i" THEN <<>> ELSE <<Len(Sel(Axis(ix, d), shape[d]))>>)
       \o SubShape(shape, ix, d + 1)
(* handle: [r |-> root, shape, cells, w |-> cells per item of the shape]    *)
Index(h, ix) ==
  LET p == Positions(h.shape, ix, 1) IN
  [h EXCEPT !.shape = SubShape(h.shape, ix, 1),
            !.cells = FlattenSeq([i \in 1..Len(p) |->
                         SubSeq(h.cells, p[i] * h.w + 1, p[i] * h.w + h.w)])]
Transpose(h) ==
  LET n == Len(h.shape)
      rs == [d \in 1..n |-> h.shape[n + 1 - d]]
      dims == [d \in 1..n |-> [k \in 1..rs[d] |-> k - 1]]
      stride(d) == Prod(SubSeq(h.shape, d + 1, n))
      tot == Prod(h.shape)
      co(q, d) == (q \div Prod(SubSeq(rs, d + 1, n))) % rs[d]
      pos(q) == Sum([d \in 1..n |-> co(q, d) * stride(n + 1 - d)])
  IN [h EXCEPT !.shape = rs,
               !.cells = FlattenSeq([q \in 1..tot |-> SubSeq(h.cells, pos(q-1) * h.w + 1, pos(q-1) * h.w + h.w)])]
Field(h, f) == \* "a": first cell; "b": the two others
  LET n == Prod(h.shape) IN
  IF f = "a" THEN [h EXCEPT !.w = 1, !.cells = [i \in 1..n |-> h.cells[(i - 1) * 3 + 1]]]
  ELSE [h EXCEPT !.w = 1, !.shape = Append(@, 2),
                 !.cells = [i \in 1..(2 * n) |-> h.cells[((i - 1) \div 2) * 3 + 2 + ((i - 1) % 2)]]]

(* ------------------------------------------------------------------ state *)
Init0 == [roots |-> <<>>, hs |-> <<>>]
NoRange == <<-1, -1>>
Root(kind, tracker) ==
  [kind |-> kind, tracker |-> tracker, data |-> [c \in 1..NCells(kind) |-> 0],
   mirror |-> [c \in 1..NCells(kind) |-> 0], dirty |-> <<0, NBytes(kind)>>,
   whole |-> Kind(kind).whole, size |-> NBytes(kind)]
Handle(r, kind) == [r |-> r, shape |-> Kind(kind).shape, w |-> Len(Kind(kind).cells),
                    cells |-> [c \in 1..NCells(kind) |-> c]]
(* a copy is a root of its own: packed, without tracker                     *)
CopyRoot(s, h) ==
  LET k == s.roots[h.r].kind
      sz == [i \in 1..Len(h.cells) |-> CellSize(k, h.cells[i])]
  IN [kind |-> k, tracker |-> FALSE, data |-> [i \in 1..Len(h.cells) |-> s.roots[h.r].data[h.cells[i]]],
      mirror |-> <<>>, dirty |-> <<0, Sum(sz)>>, whole |-> FALSE, size |-> Sum(sz)]

(* Bytes of a cell of root r (copies are packed, in an order of their own)  *)
Block(root, cells) ==
  IF root.whole THEN <<0, root.size>>
  ELSE <<Min({CellOff(root.kind, cells[i]) : i \in 1..Len(cells)}),
         Max({CellOff(root.kind, cells[i]) + CellSize(root.kind, cells[i]) : i \in 1..Len(cells)})>>
Join(d, r) == IF d = NoRange THEN r ELSE <<Min2(d[1], r[1]), Max2(d[2], r[2])>>

(* Assignment of values to cells: signalled to the tracker, or accumulated  *)
Write(s, r, cells, vals) ==
  IF cells = <<>> THEN [s |-> s, block |-> NoRange]
  ELSE LET root == s.roots[r]
           data == [c \in DOMAIN root.data |->
                      IF \E i \in 1..Len(cells) : cells[i] = c
                      THEN vals[CHOOSE i \in 1..Len(cells) : cells[i] = c /\ \A j \in (i+1)..Len(cells) : cells[j] # c]
                      ELSE root.data[c]]
           d == Join(root.dirty, Block(root, cells))
       IN IF root.tracker
          THEN [s |-> [s EXCEPT !.roots[r] = [root EXCEPT !.data = data, !.mirror = data, !.dirty = NoRange]],
                block |-> d]
          ELSE [s |-> [s EXCEPT !.roots[r] = [root EXCEPT !.data = data, !.dirty = d]], block |-> NoRange]

(* ----------------------------------------------------------------- events *)
Vals(h, k, seq) == IF seq THEN [i \in 1..Len(h.cells) |-> (k + i - 1) * U]
                   ELSE [i \in 1..Len(h.cells) |-> k * U]
Op(op, v, k) ==
  CASE op = "add" -> v + k * U [] op = "sub" -> v - k * U [] op = "mul" -> v * k
    [] op = "div" -> v \div k  [] op = "floordiv" -> (v \div (k * U)) * U
    [] op = "mod" -> v % (k * U) [] op = "pow" -> (v * v) \div U
Obs(s, err, r, block) ==
  [err |-> err,
   data |-> [h \in 1..Len(s.hs) |-> [i \in 1..Len(s.hs[h].cells) |-> s.roots[s.hs[h].r].data[s.hs[h].cells[i]]]],
   shapes |-> [h \in 1..Len(s.hs) |-> s.hs[h].shape],
   mirrors |-> [i \in 1..Len(s.roots) |-> IF s.roots[i].tracker THEN s.roots[i].mirror ELSE <<>>],
   dirty |-> [i \in 1..Len(s.roots) |-> s.roots[i].dirty],
   root |-> r, block |-> block]
R(s, err, r, block) == [st |-> s, o |-> Obs(s, err, r, block)]
AddHandle(s, h) == [s EXCEPT !.hs = Append(@, h)]
AddCopy(s, h) ==
  LET s1 == [s EXCEPT !.roots = Append(@, CopyRoot(s, h))]
  IN AddHandle(s1, [h EXCEPT !.r = Len(s1.roots), !.cells = [i \in 1..Len(h.cells) |-> i]])

CompIx(swz, c) == (CHOOSE i \in 1..Len(swz) : swz[i] = c) - 1
Comps(key) == CASE key = "x" -> <<0>> [] key = "z" -> <<2>> [] key = "yx" -> <<1, 0>>
                [] key = "xyz" -> <<0, 1, 2>> [] key = "rb" -> <<0, 2>>
CompCells(h, c) == Index(h, [d \in 1..Len(h.shape) |->
                         IF d = Len(h.shape) THEN [k |-> "i", i |-> c] ELSE Full]).cells

Do(s, e) ==
  CASE e.ev = "new" ->
         R(AddHandle([s EXCEPT !.roots = Append(@, Root(e.kind, e.tracker))],
                     Handle(Len(s.roots) + 1, e.kind)), "", 0, NoRange)
    [] e.ev = "view" -> R(AddHandle(s, Index(s.hs[e.h], e.ix)), "", 0, NoRange)
    [] e.ev = "field" -> R(AddHandle(s, Field(s.hs[e.h], e.f)), "", 0, NoRange)
    [] e.ev = "T" -> R(AddHandle(s, Transpose(s.hs[e.h])), "", 0, NoRange)
    [] e.ev = "copy" -> R(AddCopy(s, s.hs[e.h]), "", 0, NoRange)
    [] e.ev = "take" -> \* a read by a list of items is a copy
         R(AddCopy(s, LET h == s.hs[e.h] m == Len(h.cells) \div h.shape[1] IN
              [h EXCEPT !.shape[1] = 2, !.cells = SubSeq(@, 1, m) \o SubSeq(@, Len(@) - m + 1, Len(@))]),
           "", 0, NoRange)
    [] e.ev = "set" -> LET t == Index(s.hs[e.h], e.ix)
                           w == Write(s, t.r, t.cells, Vals(t, e.v, e.seq))
                       IN R(w.s, "", t.r, w.block)
    [] e.ev = "fill" -> LET t == s.hs[e.h]   \* h[...] = v
                            w == Write(s, t.r, t.cells, Vals(t, e.v, FALSE))
                        IN R(w.s, "", t.r, w.block)
    [] e.ev = "setfield" -> LET t == Field(s.hs[e.h], e.f)
                                w == Write(s, t.r, t.cells, Vals(t, e.v, FALSE))
                            IN R(w.s, "", t.r, w.block)
    [] e.ev = "comp" -> LET h == s.hs[e.h]
                            cells == FlattenSeq([i \in 1..Len(Comps(e.key)) |-> CompCells(h, Comps(e.key)[i])])
                            n == Len(cells) \div Len(Comps(e.key))
                            w == Write(s, h.r, cells, [i \in 1..Len(cells) |->
                                    (e.v + (IF e.seq THEN (i - 1) \div n ELSE 0)) * U])
                        IN R(w.s, "", h.r, w.block)
    [] e.ev = "op" -> LET h == s.hs[e.h]
                          w == Write(s, h.r, h.cells, [i \in 1..Len(h.cells) |->
                                  Op(e.op, s.roots[h.r].data[h.cells[i]], e.v)])
                      IN R(w.s, "", h.r, w.block)
    [] e.ev = "fancy" -> R(s, "NotImplementedError", 0, NoRange)
    [] e.ev = "bad" -> R(s, "ValueError", 0, NoRange)
    [] e.ev = "clear" -> R([s EXCEPT !.roots[s.hs[e.h].r].dirty = NoRange], "", 0, NoRange)

(* ------------------------------------------------------ events to explore *)
Ii(i) == [k |-> "i", i |-> i]
Sl(a, b, s) == [k |-> "s", a |-> a, b |-> b, s |-> s]
Ixs(h) ==   \* index expressions tried on a handle
  LET n == Len(h.shape) IN
  {ix \in {<<Sl(1, -1, 1)>>, <<Sl(Absent, Absent, -1)>>, <<Sl(Absent, Absent, 2)>>, <<Sl(2, Absent, 1)>>,
           <<Sl(1, 1, 1)>>, <<Ii(-1)>>, <<Ii(0)>>, <<Ii(1)>>, <<Sl(-2, 0, -1)>>}
        : TRUE}
  \cup (IF n < 2 THEN {} ELSE
     {<<Full, Sl(1, Absent, 1)>>, <<Full, Ii(1)>>, <<Ii(1), Ii(-1)>>, <<Sl(1, Absent, 1), Ii(0)>>,
      <<Ii(0), Sl(Absent, -1, 1)>>, <<Sl(Absent, Absent, -1), Sl(Absent, Absent, -2)>>,
      <<Sl(Absent, -1, 1), Sl(1, 3, 1)>>})
  \cup (IF n < 3 THEN {} ELSE {<<Full, Ii(1), Full>>, <<Ii(0), Ii(1), Ii(1)>>, <<Full, Full, Ii(0)>>,
      <<Ii(1), Sl(Absent, Absent, 2), Ii(0)>>})
InRange(h, ix) == /\ Len(ix) <= Len(h.shape)
                  /\ \A d \in 1..Len(ix) : ix[d].k = "i" =>
                        LET i == IF ix[d].i < 0 THEN ix[d].i + h.shape[d] ELSE ix[d].i
                        IN i >= 0 /\ i < h.shape[d]
Good(h) == {ix \in Ixs(h) : InRange(h, ix)}
Kinds == {"flat", "grid", "cube", "vec", "asvec", "part", "hole", "fortran", "struct"}
IsStruct(h) == h.w = 3
Swz(s, h) == s.roots[h.r].kind \in {"vec", "asvec"} /\ Len(h.shape) >= 1 /\ h.shape[Len(h.shape)] = 3
             /\ h.cells # <<>>
Bytes1(s, h) == \E i \in 1..Len(h.cells) : CellSize(s.roots[h.r].kind, h.cells[i]) = 1
\* arithmetic stays exact in single precision
Small(s, h) == \A i \in 1..Len(h.cells) : LET v == s.roots[h.r].data[h.cells[i]] IN v >= 0 /\ v < 4096
Even(s, h) == \A i \in 1..Len(h.cells) : s.roots[h.r].data[h.cells[i]] % 2 = 0
Whole1(s, h) == \A i \in 1..Len(h.cells) : s.roots[h.r].data[h.cells[i]] % U = 0 /\ s.roots[h.r].data[h.cells[i]] < 16 * U

(* untracked arrays: what accumulates between two clearings                *)
EvDirty(s) ==
  IF s.hs = <<>> THEN {[ev |-> "new", kind |-> k, tracker |-> FALSE] : k \in {"flat", "cube", "part", "struct"}}
  ELSE {[ev |-> "clear", h |-> 1]}
       \cup (IF s.roots[1].dirty = <<0, s.roots[1].size>> THEN {}
             ELSE IF IsStruct(s.hs[1]) THEN {[ev |-> "setfield", h |-> 1, f |-> f, v |-> 2] : f \in {"a", "b"}}
             ELSE {[ev |-> "set", h |-> 1, ix |-> ix, v |-> 2, seq |-> FALSE] : ix \in Good(s.hs[1])})
Events(s) ==
  IF Profile = "dirty" THEN EvDirty(s) ELSE
  (IF Len(s.roots) >= (IF Profile = "deep" THEN 2 ELSE 1) THEN {}
   ELSE {[ev |-> "new", kind |-> k, tracker |-> t] : k \in Kinds, t \in BOOLEAN})
  \cup UNION {LET H == s.hs[h] V == h + 1 IN
     (IF Len(s.hs) >= (IF Profile = "deep" THEN 5 ELSE 3) THEN {} ELSE
        {[ev |-> "view", h |-> h, ix |-> ix] : ix \in {x \in Good(H) : SubShape(H.shape, x, 1) # <<>>}}
        \cup (IF IsStruct(H) THEN {[ev |-> "field", h |-> h, f |-> f] : f \in {"a", "b"}} ELSE {})
        \cup (IF Len(H.shape) >= 2 THEN {[ev |-> "T", h |-> h]} ELSE {})
        \cup (IF ~IsStruct(H) /\ s.roots[H.r].kind # "struct" /\ H.cells # <<>>
              THEN {[ev |-> "copy", h |-> h]} \cup (IF H.shape[1] >= 2 /\ ~s.roots[H.r].whole /\ \A i \in 2..Len(H.cells) : H.cells[i - 1] < H.cells[i]
                       THEN {[ev |-> "take", h |-> h]} ELSE {})
              ELSE {}))
     \cup (IF IsStruct(H) THEN {[ev |-> "setfield", h |-> h, f |-> f, v |-> V] : f \in {"a", "b"}}
           ELSE {[ev |-> "set", h |-> h, ix |-> ix, v |-> V, seq |-> q] : ix \in Good(H), q \in BOOLEAN}
                \cup {[ev |-> "fill", h |-> h, v |-> V]}
                \cup (IF H.cells = <<>> THEN {} ELSE {[ev |-> "fancy", h |-> h], [ev |-> "bad", h |-> h]}))
     \cup (IF Swz(s, H) THEN {[ev |-> "comp", h |-> h, key |-> k, v |-> V, seq |-> q]
                              : k \in {"x", "z", "yx", "xyz", "rb"}, q \in {FALSE}}
                             \cup {[ev |-> "comp", h |-> h, key |-> k, v |-> V, seq |-> TRUE]
                              : k \in {"yx", "xyz", "rb"}} ELSE {})
     \cup (IF IsStruct(H) \/ Bytes1(s, H) \/ ~Small(s, H) THEN {} ELSE
           {[ev |-> "op", h |-> h, op |-> o, v |-> 2] : o \in
               {"add", "mul", "floordiv", "mod"} \cup (IF Even(s, H) THEN {"div"} ELSE {})
                                \cup (IF Whole1(s, H) THEN {"pow"} ELSE {})}
           \cup (IF \A i \in 1..Len(H.cells) : s.roots[H.r].data[H.cells[i]] >= U
                 THEN {[ev |-> "op", h |-> h, op |-> "sub", v |-> 1]} ELSE {}))
     \cup {[ev |-> "clear", h |-> h]}
   : h \in 1..Len(s.hs)}

(* -------------------------------------------------------------- properties *)
Mirrored == \A r \in 1..Len(st.roots) : LET x == st.roots[r] IN
   x.tracker => (x.dirty = NoRange => x.mirror = x.data) \/ x.mirror = [c \in DOMAIN x.data |-> 0]
DirtyInside == \A r \in 1..Len(st.roots) : LET x == st.roots[r] IN
   x.dirty = NoRange \/ (0 <= x.dirty[1] /\ x.dirty[1] < x.dirty[2] /\ x.dirty[2] <= x.size)
Inv == DirtyInside /\ Mirrored

(* ----------------------------------------------------------- specification *)
GenInit == st = Init0 /\ hist = <<>> /\ l = 0 /\ tid = 0 /\ skip = FALSE
GenNext == /\ Len(hist) < MaxDepth
           /\ \E e \in Pick(Events(st)) : /\ hist' = Append(hist, e)
                                          /\ st' = Do(st, e).st
           /\ UNCHANGED <<l, tid, skip>>
GenSpec == GenInit /\ [][GenNext]_vars
View == <<st, Len(hist)>>
Emit == EmitPath(hist')

Bad(e, r) ==
  LET o == e.o
      x == r.o
      n == Len(o.signals)
  IN (IF o.err # x.err THEN {"error"} ELSE {})
     \cup (IF o.data # x.data \/ o.shapes # x.shapes THEN {"content"} ELSE {})
     \cup (IF o.mirrors # x.mirrors THEN {"mirror"} ELSE {})
     \cup (IF o.dirty # x.dirty THEN {"dirty"} ELSE {})
     \* every signal comes from the modified root and stays in the block
     \cup (IF \E i \in 1..n : o.signals[i][1] # x.root \/ x.block = NoRange
              \/ o.signals[i][2] < x.block[1] \/ o.signals[i][3] > x.block[2]
           THEN {"range"} ELSE {})
     \* and the signals cover the whole block
     \cup (IF x.block # NoRange /\ (n = 0 \/ Min({o.signals[i][2] : i \in 1..n}) # x.block[1]
                                         \/ Max({o.signals[i][3] : i \in 1..n}) # x.block[2])
           THEN {"cover"} ELSE {})

TraceInit == GenInit
TraceNext ==
  /\ l < Len(Log)
  /\ l' = l + 1 /\ hist' = <<>>
  /\ LET e == Log[l + 1] IN
     /\ tid' = e.tid
     /\ IF e.ev = "begin" THEN st' = Init0 /\ skip' = FALSE
        ELSE IF skip THEN UNCHANGED <<st, skip>>
        ELSE \E r \in {Do(st, e)} : \E bad \in {Bad(e, r)} :
                /\ st' = r.st
                /\ skip' = (bad # {})
                /\ bad # {} => Report(e.nn, e, SetToSeq(bad), r.o)
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceInv == TRUE
=============================================================================
