------------------------------ MODULE Vectors ------------------------------
(***************************************************************************)
(* Vectors: creation (type and shape), access to components by name        *)
(* (swizzling), conversion and reinterpretation between vector sizes.      *)
(*                                                                         *)
(* An array is n vectors of c components (n = 0: a single vector); rows of *)
(* integers.  Conversions with a division use rationals.                   *)
(***************************************************************************)
EXTENDS Conf

VARIABLES st, hist, l, tid, skip
vars == <<st, hist, l, tid, skip>>
Profile == IOEnv.PROFILE

Types == <<"b", "i", "u", "h", "", "d">>
DType(t) == CASE t = "b" -> "uint8" [] t = "i" -> "int32" [] t = "u" -> "uint32"
              [] t = "h" -> "float16" [] t = "" -> "float32" [] t = "d" -> "float64"

(* state: arrays [c, n, d] where d is a sequence of rows (one if n = 0)     *)
Init0 == [as |-> <<>>]
Rows(n) == IF n = 0 THEN 1 ELSE n
(* selections of rows                                                       *)
RowsOf(a, sel) ==
  LET m == Rows(a.n) IN
  CASE sel = "all" -> [i \in 1..m |-> i]
    [] sel = "tail" -> [i \in 1..(m - 1) |-> i + 1]
    [] sel = "rev" -> [i \in 1..m |-> m + 1 - i]
    [] sel = "even" -> [i \in 1..((m + 1) \div 2) |-> 2 * i - 1]
    [] sel = "first" -> <<1>>
    [] sel = "last" -> <<m>>
Single(a, sel) == a.n = 0 \/ sel \in {"first", "last"}

(* value given to component j of row i by an assignment (before repetition) *)
Val(s, e, i, j) ==
  CASE e.form = "scalar" -> e.v
    [] e.form \in {"tuple", "list", "row"} -> e.v + j
    [] e.form = "arrays" -> e.v + 10 * j + i
    [] e.form \in {"items", "col"} -> e.v + i
    [] e.form = "rows" -> e.v + 10 * i + j
    [] e.form \in {"swap", "other"} ->
         LET b == s.as[IF e.form = "swap" THEN e.a ELSE e.b]
         IN b.d[RowsOf(b, e.sel)[i]][e.from[j] + 1]
(* components are assigned in order: the last one wins when one is repeated *)
Assign(s, e) ==
  LET a == s.as[e.a]
      rows == RowsOf(a, e.sel)
      k == Len(e.key)
      at(r, c) == LET i == CHOOSE x \in 1..Len(rows) : rows[x] = r
                      js == {j \in 1..k : e.key[j] = c - 1}
                  IN IF js = {} THEN a.d[r][c] ELSE Val(s, e, i, Max(js))
  IN [a EXCEPT !.d = [r \in 1..Len(a.d) |->
        IF \E x \in 1..Len(rows) : rows[x] = r
        THEN [c \in 1..a.c |-> at(r, c)] ELSE a.d[r]]]

(* conversion conventions; x is a row of rationals                          *)
ToRow(x, c) ==
  LET k == Len(x) IN
  CASE c = 2 -> IF k = 4 THEN <<QDiv(x[1], x[4]), QDiv(x[2], x[4])>> ELSE <<x[1], x[2]>>
    [] c = 3 -> IF k = 2 THEN <<x[1], x[2], Q(0)>>
                ELSE IF k = 3 THEN x ELSE [i \in 1..3 |-> QDiv(x[i], x[4])]
    [] c = 4 -> IF k = 2 THEN <<x[1], x[2], Q(0), Q(1)>>
                ELSE IF k = 3 THEN <<x[1], x[2], x[3], Q(1)>> ELSE x
Chunk(flat, c) == [i \in 1..(Len(flat) \div c) |-> SubSeq(flat, (i - 1) * c + 1, i * c)]
Flat(rows) == FlattenSeq(rows)
ConvErr(e) == \/ e.how = "to" /\ e.k = 0 /\ Len(e.src[1]) % e.c # 0
              \/ e.how = "to" /\ e.k \notin {0, 2, 3, 4}
              \/ e.how = "as" /\ Len(Flat(e.src)) % e.c # 0
Conv(e) ==  \* e.k = 0: the source is a flat sequence (its only row)
  LET q == [i \in 1..Len(e.src) |-> [j \in 1..Len(e.src[i]) |-> Q(e.src[i][j])]]
  IN IF e.how = "as" THEN Chunk(Flat(q), e.c)
     ELSE IF e.k = 0 THEN Chunk(q[1], e.c)
     ELSE [i \in 1..Len(q) |-> ToRow(q[i], e.c)]

Obs(s, err, got, dtype, shape, alias) ==
  [err |-> err, data |-> [i \in 1..Len(s.as) |-> s.as[i].d], got |-> got,
   dtype |-> dtype, shape |-> shape, alias |-> alias]
R(s, err, got, dtype, shape, alias) == [st |-> s, o |-> Obs(s, err, got, dtype, shape, alias)]

Do(s, e) ==
  CASE e.ev = "new" ->
        R([s EXCEPT !.as = Append(@, [c |-> e.c, n |-> e.n,
                 d |-> [r \in 1..Rows(e.n) |-> [c \in 1..e.c |-> 10 * r + c]]])],
          "", <<>>, DType(e.t), IF e.n = 0 THEN <<e.c>> ELSE <<e.n, e.c>>, FALSE)
    [] e.ev = "mat" ->
        R(s, "", <<>>, DType(e.t), IF e.n = 0 THEN <<e.c, e.c>> ELSE <<e.n, e.c, e.c>>, FALSE)
    [] e.ev = "get" ->
        LET a == s.as[e.a] rows == RowsOf(a, e.sel) IN
        R(s, "", [i \in 1..Len(rows) |-> [j \in 1..Len(e.key) |-> a.d[rows[i]][e.key[j] + 1]]],
          "", <<>>, FALSE)
    [] e.ev = "set" -> R([s EXCEPT !.as[e.a] = Assign(s, e)], "", <<>>, "", <<>>, FALSE)
    [] e.ev = "bad" -> R(s, "Error", <<>>, "", <<>>, FALSE)
    [] e.ev = "unknown" -> R(s, "AttributeError", <<>>, "", <<>>, FALSE)
    [] e.ev = "conv" ->
        IF ConvErr(e) THEN R(s, "Error", <<>>, "", <<>>, FALSE)
        ELSE R(s, "", Conv(e), e.want, <<>>, e.how = "as" /\ e.dtype = "")

(* ------------------------------------------------------ events to explore *)
Keys(c) == {<<i>> : i \in 0..(c - 1)} \cup {<<i, j>> : i, j \in 0..(c - 1)}
           \cup (IF c = 2 THEN {<<1, 0, 1>>} ELSE
                 {<<0, 1, 2>>, <<2, 1, 0>>, <<1, 2, 0>>, <<2, 0, 2>>, <<1, 1, 0>>})
           \cup (IF c = 4 THEN {<<0, 1, 2, 3>>, <<3, 2, 1, 0>>, <<1, 3, 0, 2>>} ELSE {})
Sels(n) == {"all"} \cup (IF n = 0 THEN {} ELSE {"first", "last", "rev"})
           \cup (IF n >= 2 THEN {"tail"} ELSE {}) \cup (IF n >= 3 THEN {"even"} ELSE {})
Forms(a, sel, key) ==
  LET m == Len(RowsOf(a, sel)) k == Len(key) one == Single(a, sel) IN
  {"scalar", "tuple", "list"}
  \cup (IF one THEN {"row"} ELSE {"arrays", "items", "rows", "col"} \cup (IF m # k THEN {"row"} ELSE {}))
Sum2(s) == FoldSeq(LAMBDA a, b : a + b, 0, s)
Naming(key) == 1 + ((Sum2(key) + Len(key)) % 3)
SetEvents(s, i) ==
  LET a == s.as[i] IN
  UNION {UNION {{[ev |-> "set", a |-> i, sel |-> sel, key |-> key, form |-> f, v |-> 40, nm |-> Naming(key)]
                 : f \in Forms(a, sel, key)}
                \cup {[ev |-> "set", a |-> i, sel |-> sel, key |-> key, form |-> "swap", v |-> 0,
                       from |-> Reverse(key), nm |-> Naming(key)]}
                \cup {[ev |-> "get", a |-> i, sel |-> sel, key |-> key, nm |-> Naming(key)]}
                : key \in Keys(a.c)} : sel \in Sels(a.n)}
  \cup (IF a.n < 2 THEN {} ELSE {[ev |-> "bad", a |-> i, key |-> key, sel |-> "all", nm |-> 1] :
            key \in {x \in Keys(a.c) : Len(x) # a.n + 1 /\ Len(x) # 1}})
  \cup {[ev |-> "unknown", a |-> i]}
  \cup UNION {{[ev |-> "set", a |-> i, b |-> j, sel |-> "all", key |-> key, form |-> "other", v |-> 0,
          from |-> Reverse(key), nm |-> Naming(key)]
        : key \in Keys(Min2(a.c, s.as[j].c))} : j \in {x \in 1..Len(s.as) : x # i /\ s.as[x].n = a.n /\ a.n # 0}}

Sources ==   \* [k, src]: k = 0 is a flat sequence
  {[k |-> 0, src |-> <<[i \in 1..n |-> 4 * i]>>] : n \in {2, 3, 4, 6, 8, 12, 5}}
  \cup {[k |-> k, src |-> [i \in 1..n |-> [j \in 1..k |-> IF j = 4 THEN 2 ^ (i - 1) ELSE 8 * i + 4 * j]]]
        : k \in {1, 2, 3, 4, 5}, n \in {1, 2, 3}}
  \* points of any side of the camera
  \cup {[k |-> 4, src |-> [i \in 1..n |-> <<8 - 12 * i, 4 * i, 8, IF i % 2 = 1 THEN -2 ELSE 4>>]] : n \in {1, 2, 3}}
Dtypes == {"", "float64", "float32", "int32", "int64"}
ConvEvents ==
  {[ev |-> "conv", how |-> h, c |-> c, k |-> x.k, src |-> x.src, dtype |-> d, from |-> f,
    want |-> IF d = "" THEN f ELSE d]
   : h \in {"to", "as"}, c \in {2, 3, 4}, x \in Sources, d \in Dtypes, f \in {"float32", "int64"}}

Events(s) ==
  IF Profile = "conv" THEN ConvEvents
     \cup {[ev |-> "mat", c |-> c, n |-> n, t |-> t] : c \in {2, 3, 4}, n \in {0, 1, 3}, t \in ToSet(Types)}
  ELSE (IF Len(s.as) >= (IF Profile = "deep" THEN 2 ELSE 1) THEN {}
        ELSE {[ev |-> "new", c |-> c, n |-> n, t |-> t] : c \in {2, 3, 4}, n \in {0, 1, 2, 3, 4}, t \in ToSet(Types)})
       \cup UNION {SetEvents(s, i) : i \in 1..Len(s.as)}

Shaped == \A i \in 1..Len(st.as) : Len(st.as[i].d) = Rows(st.as[i].n)
         /\ \A r \in 1..Len(st.as[i].d) : Len(st.as[i].d[r]) = st.as[i].c
(* swapping components twice is the identity                                *)
Swap2 == \A i \in 1..Len(st.as) : LET a == st.as[i]
             e == [ev |-> "set", a |-> i, sel |-> "all", key |-> <<0, 1>>, form |-> "swap", v |-> 0, from |-> <<1, 0>>]
         IN Assign([st EXCEPT !.as[i] = Assign(st, e)], e) = a

Inv == Shaped /\ Swap2

Bad(e, r) ==
  LET o == e.o
      x == r.o
  IN (IF o.err # x.err THEN {"error"} ELSE {})
     \cup (IF o.data # x.data THEN {IF e.ev = "conv" THEN "source" ELSE "content"} ELSE {})
     \cup (IF o.got # x.got THEN {IF e.ev = "conv" THEN "converted" ELSE "read"} ELSE {})
     \cup (IF (x.dtype # "" \/ e.ev = "mat") /\ o.dtype # x.dtype THEN {"dtype"} ELSE {})
     \cup (IF x.shape # <<>> /\ o.shape # x.shape THEN {"vshape"} ELSE {})
     \cup (IF e.ev = "conv" /\ o.alias # x.alias /\ x.err = "" THEN {"alias"} ELSE {})

(* ----------------------------------------------------------- specification *)
GenInit == st = Init0 /\ hist = <<>> /\ l = 0 /\ tid = 0 /\ skip = FALSE
GenNext == /\ Len(hist) < MaxDepth
           /\ \E e \in Pick(Events(st)) : /\ hist' = Append(hist, e)
                                          /\ st' = Do(st, e).st
           /\ UNCHANGED <<l, tid, skip>>
GenSpec == GenInit /\ [][GenNext]_vars
View == <<st, Len(hist)>>
Emit == EmitPath(hist')

TraceInit == GenInit
TraceNext ==
  /\ l < Len(Log)
  /\ l' = l + 1 /\ hist' = <<>>
  /\ LET e == Log[l + 1] IN
     /\ tid' = e.tid
     /\ IF e.ev = "begin" THEN st' = Init0 /\ skip' = FALSE
        ELSE IF skip THEN UNCHANGED <<st, skip>>
        ELSE \E r \in {Do(st, e)} : \E bad \in {Bad(e, r)} :
                /\ st' = r.st
                /\ skip' = (bad # {})
                /\ bad # {} => Report(e.nn, e, SetToSeq(bad), r.o)
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceInv == TRUE
=============================================================================
