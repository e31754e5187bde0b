------------------------------- MODULE Ragged -------------------------------
(***************************************************************************)
(* Ragged arrays (vectorized lists): data partitioned into items of        *)
(* different sizes, read and written by item, slice or list of items.      *)
(*                                                                         *)
(* A list is a sequence of item sizes, a width (0: base elements are       *)
(* numbers) and its base elements, each a row of integers.                 *)
(* Long lists: each element stands for x elements that are the same, and   *)
(* sizes count such blocks (nothing else changes).                         *)
(***************************************************************************)
EXTENDS Conf

VARIABLES st, hist, l, tid, skip
vars == <<st, hist, l, tid, skip>>
Profile == IOEnv.PROFILE

Init0 == [ls |-> <<>>]
Sum(s) == FoldSeq(LAMBDA a, b : a + b, 0, s)
W(w) == IF w = 0 THEN 1 ELSE w
Fill(n, w) == [r \in 1..n |-> [c \in 1..W(w) |-> 10 * r + c]]

(* A creation partitions n base elements                                    *)
\*  lists / arrays / vecs: one sequence per item;  sizes: data and the sizes;
\*  int: data and a common size;  none: data, a single item
Sizes(e) == CASE e.form \in {"lists", "arrays", "vecs", "sizes", "sizesarray"} -> e.sizes
              [] e.form = "int" -> [i \in 1..(e.n \div e.k) |-> e.k]
              [] e.form = "none" -> <<e.n>>
Refused(e) ==
  CASE e.form \in {"sizes", "sizesarray"} -> Sum(e.sizes) # e.n \/ \E i \in 1..Len(e.sizes) : e.sizes[i] < 0
    [] e.form = "int" -> IF e.k <= 0 THEN TRUE ELSE e.n % e.k # 0
    [] OTHER -> FALSE
First(L, i) == Sum(SubSeq(L.sizes, 1, i - 1))
(* positions (1-based) of the base elements of item i (1-based)             *)
ItemPos(L, i) == [j \in 1..L.sizes[i] |-> First(L, i) + j]
(* items selected by a key                                                  *)
OutOf(L, k) == k >= Len(L.sizes) \/ k < -Len(L.sizes)
Norm(L, k) == (IF k < 0 THEN k + Len(L.sizes) ELSE k) + 1
Items(L, key) ==
  CASE key.k = "i" -> <<Norm(L, key.i)>>
    [] key.k = "s" -> LET x == SliceIx(Len(L.sizes), key.a, key.b, key.s)
                      IN [i \in 1..Len(x) |-> x[i] + 1]
    [] key.k = "l" -> [i \in 1..Len(key.is) |-> Norm(L, key.is[i])]
BadKey(L, key) == CASE key.k = "i" -> OutOf(L, key.i)
                    [] key.k = "s" -> FALSE
                    [] key.k = "l" -> \E i \in 1..Len(key.is) : OutOf(L, key.is[i])
Pos(L, key) == LET it == Items(L, key) IN FlattenSeq([i \in 1..Len(it) |-> ItemPos(L, it[i])])
Took(L, key) == LET p == Pos(L, key) IN [i \in 1..Len(p) |-> L.d[p[i]]]
(* value of column c of the i-th selected element                           *)
Val(e, i, c) == CASE e.form \in {"scalar", "through"} -> e.v
                  [] e.form = "each" -> e.v + 10 * i + c
                  [] e.form = "row" -> e.v + c
                  [] e.form = "column" -> e.v + i
Put(L, e) ==
  LET p == Pos(L, e.key)
      last(q) == Max({i \in 1..Len(p) : p[i] = q})
  IN [L EXCEPT !.d = [q \in 1..Len(L.d) |->
        IF \E i \in 1..Len(p) : p[i] = q THEN [c \in 1..W(L.w) |-> Val(e, last(q), c)] ELSE L.d[q]]]

Obs(s, err, got, sizes, meta) ==
  [err |-> err, data |-> [i \in 1..Len(s.ls) |-> s.ls[i].d],
   got |-> got, sizes |-> sizes, meta |-> meta]
R(s, err, got, sizes, meta) == [st |-> s, o |-> Obs(s, err, got, sizes, meta)]

Do(s, e) ==
  CASE e.ev = "new" ->
        IF Refused(e) THEN R(s, "ValueError", <<>>, <<>>, <<>>)
        ELSE LET L == [w |-> e.w, sizes |-> Sizes(e), d |-> Fill(e.n, e.w)]
             IN R([ls |-> Append(s.ls, L)], "", <<>>, L.sizes,
                  <<Len(L.sizes), e.n, IF e.w = 0 THEN 0 ELSE e.w>>)
    [] e.ev = "get" ->
        LET L == s.ls[e.a] IN
        IF BadKey(L, e.key) THEN R(s, "IndexError", <<>>, <<>>, <<>>)
        ELSE R(s, "", Took(L, e.key), <<>>, <<>>)
    [] e.ev = "set" ->
        LET L == s.ls[e.a] IN
        IF BadKey(L, e.key) THEN R(s, "IndexError", <<>>, <<>>, <<>>)
        ELSE R([s EXCEPT !.ls[e.a] = Put(L, e)], "", <<>>, <<>>, <<>>)
    [] e.ev = "misfit" ->    \* a value with the wrong number of elements
        R(s, "ValueError", <<>>, <<>>, <<>>)
    [] e.ev = "iter" ->
        LET L == s.ls[e.a] IN
        R(s, "", [i \in 1..Len(L.d) |-> L.d[i]], L.sizes, <<Len(L.sizes), Len(L.d), L.w>>)

(* ------------------------------------------------------ events to explore *)
RECURSIVE Parts(_, _, _)
Parts(n, m, k) ==  \* sequences of at most m sizes up to k, summing at most to n
  IF m = 0 THEN {<<>>}
  ELSE {<<>>} \cup UNION {{<<x>> \o p : p \in Parts(n - x, m - 1, k)} : x \in 0..Min2(n, k)}
Rich == Profile \in {"deep", "rich"}
Max0 == IF Profile = "deep" THEN 9 ELSE IF Profile = "rich" THEN 6 ELSE 4
SizeSets == {p \in Parts(Max0, IF Rich THEN 4 ELSE 3, 4) : Len(p) > 0 /\ Sum(p) > 0}
Plain ==
  {[ev |-> "new", form |-> f, w |-> w, n |-> Sum(p), sizes |-> p, k |-> 0, dt |-> dt] :
      p \in SizeSets, f \in {"lists", "arrays", "sizes", "sizesarray"}, w \in {0, 2}, dt \in {"float32"}}
  \cup {[ev |-> "new", form |-> "vecs", w |-> 3, n |-> Sum(p), sizes |-> p, k |-> 0, dt |-> "float32"] :
        p \in {x \in SizeSets : Len(x) <= 2}}
  \cup {[ev |-> "new", form |-> f, w |-> 0, n |-> n, sizes |-> p, k |-> 0, dt |-> "int64"] :
        f \in {"sizes", "sizesarray"},
        p \in {<<1, 2>>, <<3>>, <<2, 2, 1>>, <<0, 1>>, <<4, -1>>, <<-1, 4>>}, n \in {2, 3, 4}}
  \cup {[ev |-> "new", form |-> "int", w |-> w, n |-> n, sizes |-> <<>>, k |-> k, dt |-> "int64"] :
        n \in {1, 2, 4, 6}, k \in {-2, 0, 1, 2, 3, 4, 6, 7}, w \in {0, 2}}
  \cup {[ev |-> "new", form |-> "none", w |-> w, n |-> n, sizes |-> <<>>, k |-> 0, dt |-> "float64"] :
        n \in {1, 2, 5}, w \in {0, 1, 2}}
News == IF Profile = "big"
        THEN {e @@ [x |-> 20000] : e \in {p \in Plain : p.form # "lists" /\ p.n > 1}}
        ELSE {e @@ [x |-> 1] : e \in Plain}
KeysOf(L) ==
  LET m == Len(L.sizes) IN
  {[k |-> "i", i |-> i] : i \in (-m - 1)..m}
  \cup {[k |-> "s", a |-> a, b |-> b, s |-> x] :
          a \in (IF Rich THEN {99, 0, 1, 2, -1} ELSE {99, 1, -2}),
          b \in (IF Rich THEN {99, 1, 2, -1, 9} ELSE {99, 2, -1}), x \in {1, 2, -1}}
  \cup {[k |-> "l", is |-> x] : x \in {<<0>>, <<-1>>, <<m>>, <<0, 9>>}
        \cup (IF m >= 2 THEN {<<0, 1>>, <<1, 0>>, <<-1, 0>>, <<1, 1>>} ELSE {})
        \cup (IF m >= 3 THEN {<<2, 0>>, <<0, 2, 1>>} ELSE {})
        \cup (IF m >= 4 THEN {<<0, 2, 1, 3>>, <<0, 1, 2, 3>>, <<3, 1>>, <<1, 3, 3>>} ELSE {})}
Touch(s, i) ==
  LET L == s.ls[i] IN
  {[ev |-> "iter", a |-> i]}
  \cup UNION {
       {[ev |-> "get", a |-> i, key |-> key]}
       \* vectors are tracked arrays: they cannot be written by list
       \cup (IF L.w = 3 /\ (key.k = "l" \/ BadKey(L, key) \/ Len(Items(L, key)) = 0 \/ (key.k = "s" /\ key.s # 1)) THEN {}
             ELSE IF BadKey(L, key) THEN {[ev |-> "set", a |-> i, key |-> key, form |-> "scalar", v |-> 200]}
             ELSE LET p == Pos(L, key)
                      flat == Cardinality(ToSet(p)) = Len(p)
                      direct == key.k = "i" \/ (key.k = "s" /\ key.s = 1)
                  IN {[ev |-> "set", a |-> i, key |-> key, form |-> "scalar", v |-> 200]}
                     \cup (IF flat /\ Len(p) > 0 THEN {[ev |-> "set", a |-> i, key |-> key, form |-> "each", v |-> 300]} ELSE {})
                     \cup (IF L.w > 1 THEN {[ev |-> "set", a |-> i, key |-> key, form |-> "row", v |-> 400]} ELSE {})
                     \cup (IF L.w > 1 /\ flat /\ Len(p) > 0 THEN {[ev |-> "set", a |-> i, key |-> key, form |-> "column", v |-> 500]} ELSE {})
                     \cup (IF direct /\ Len(p) > 0 THEN {[ev |-> "set", a |-> i, key |-> key, form |-> "through", v |-> 600]} ELSE {})
                     \cup (IF Len(p) > 0 THEN {[ev |-> "misfit", a |-> i, key |-> key, n |-> Len(p) + 2]} ELSE {}))
       : key \in KeysOf(L)}

Events(s) ==
  (IF Len(s.ls) >= (IF Profile = "deep" THEN 2 ELSE 1) THEN {} ELSE News)
  \cup UNION {Touch(s, i) : i \in 1..Len(s.ls)}

(* the items partition the data: each base element is in exactly one item   *)
Partition ==
  \A i \in 1..Len(st.ls) : LET L == st.ls[i] IN
    /\ Len(L.d) = Sum(L.sizes)
    /\ FlattenSeq([k \in 1..Len(L.sizes) |-> ItemPos(L, k)]) = [p \in 1..Len(L.d) |-> p]
Inv == Partition

Bad(e, r) ==
  LET o == e.o
      x == r.o
  IN (IF o.err # x.err THEN {IF e.ev = "new" THEN "partition" ELSE "error"} ELSE {})
     \cup (IF o.data # x.data THEN {"content"} ELSE {})
     \cup (IF o.got # x.got THEN {"read"} ELSE {})
     \cup (IF o.sizes # x.sizes \/ o.meta # x.meta THEN {"partition"} ELSE {})


(* ----------------------------------------------------------- specification *)
GenInit == st = Init0 /\ hist = <<>> /\ l = 0 /\ tid = 0 /\ skip = FALSE
GenNext == /\ Len(hist) < MaxDepth
           /\ \E e \in Pick(Events(st)) : /\ hist' = Append(hist, e)
                                          /\ st' = Do(st, e).st
           /\ UNCHANGED <<l, tid, skip>>
GenSpec == GenInit /\ [][GenNext]_vars
View == <<st, Len(hist)>>
Emit == EmitPath(hist')

TraceInit == GenInit
TraceNext ==
  /\ l < Len(Log)
  /\ l' = l + 1 /\ hist' = <<>>
  /\ LET e == Log[l + 1] IN
     /\ tid' = e.tid
     /\ IF e.ev = "begin" THEN st' = Init0 /\ skip' = FALSE
        ELSE IF skip THEN UNCHANGED <<st, skip>>
        ELSE \E r \in {Do(st, e)} : \E bad \in {Bad(e, r)} :
                /\ st' = r.st
                /\ skip' = (bad # {})
                /\ bad # {} => Report(e.nn, e, SetToSeq(bad), r.o)
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceInv == TRUE
=============================================================================
