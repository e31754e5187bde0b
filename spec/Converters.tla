----------------------------- MODULE Converters -----------------------------
(***************************************************************************)
(* The registry of conversions between types, and the textual form of the  *)
(* types of buffers.                                                       *)
(*                                                                         *)
(* Registry: a partial function from (source, destination) names to        *)
(* converters; "*" is the converter of any source.  Classes: Rr < Qq < Pp. *)
(*                                                                         *)
(* Types: a sequence of fields [name, base, shape, pad] and the padding    *)
(* that follows them; a type without fields has one field without name.    *)
(***************************************************************************)
EXTENDS Conf

VARIABLES st, hist, l, tid, skip
vars == <<st, hist, l, tid, skip>>
Profile == IOEnv.PROFILE

(* --------------------------------------------------------------- registry *)
Bases(c) == CASE c = "Rr" -> <<"Rr", "Qq", "Pp", "object">> [] c = "Qq" -> <<"Qq", "Pp", "object">> [] c = "Pp" -> <<"Pp", "object">>
              [] c = "str" -> <<"str", "object">> [] c = "int" -> <<"int", "object">>
Srcs == {"Pp", "Qq", "Rr", "*", "str"}
Dsts == {"Dd", "Ee"}
Init0 == [reg |-> [p \in Srcs \X Dsts |-> 0], n |-> 0, text |-> "", type |-> <<>>]
Known(s, src, dst) == IF <<src, dst>> \in DOMAIN s.reg /\ s.reg[<<src, dst>>] # 0 THEN s.reg[<<src, dst>>]
                      ELSE IF dst \in Dsts THEN s.reg[<<"*", dst>>] ELSE 0
(* converter of a value: v.k is "instance" of class v.c, the "class" v.c    *)
(* itself or a text v.c (that may be the name of a type)                    *)
Found(s, v, dst) ==
  LET src == IF v.k = "text" THEN IF <<v.c, dst>> \in DOMAIN s.reg /\ s.reg[<<v.c, dst>>] # 0 THEN v.c ELSE "str" ELSE v.c
      bases == IF v.k = "instance" THEN Bases(v.c) ELSE IF v.k = "text" THEN Bases("str") ELSE <<>>
      hits == {i \in 1..Len(bases) : Known(s, bases[i], dst) # 0}
  IN IF Known(s, src, dst) # 0 THEN Known(s, src, dst)
     ELSE IF hits # {} THEN Known(s, bases[Min(hits)], dst) ELSE 0

(* ------------------------------------------------------------------ types *)
RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
ShapeText(sh) == IF sh = <<>> THEN "1" ELSE Join([i \in 1..Len(sh) |-> ToString(sh[i])], "x")
PadText(n) == IF n = 0 THEN <<>> ELSE <<"|V" \o ToString(n) \o "::1">>
Text(t) ==
  Join(FlattenSeq([i \in 1..Len(t.fields) |->
         LET f == t.fields[i] IN PadText(f.pad) \o <<f.base \o ":" \o f.name \o ":" \o ShapeText(f.shape)>>]) \o PadText(t.pad), ",")
(* reading: the characters between separators                               *)
Cuts(x, sep) == SelectSeq([i \in 1..Len(x) |-> i], LAMBDA i : SubSeq(x, i, i) = sep)
Split(x, sep) ==
  LET c == Cuts(x, sep) n == Len(c) + 1 IN
  [i \in 1..n |-> SubSeq(x, IF i = 1 THEN 1 ELSE c[i - 1] + 1, IF i = n THEN Len(x) ELSE c[i] - 1)]
Bs == {"|u1", "<i4", "<f4", ">f8", "|b1", "<u2", "|S3", "<c8"}
Digits == [c \in {"1", "2", "3", "4", "5", "6", "7", "8", "9"} |-> CHOOSE n \in 1..9 : ToString(n) = c]
Dims(x) == LET p == Split(x, "x") IN [i \in 1..Len(p) |-> Digits[p[i]]]
Good(x) == LET ps == Split(x, ",") IN
  \A i \in 1..Len(ps) : LET e == Split(ps[i], ":") IN
     /\ Len(e) = 3 /\ (e[1] \in Bs \/ (Len(ps) > 1 /\ e[2] = "" /\ SubSeq(e[1], 1, 2) = "|V"))
     /\ Len(ps) > 1 => (e[2] # "" \/ SubSeq(e[1], 1, 2) = "|V")
     /\ e[3] = "" \/ \A d \in ToSet(Split(e[3], "x")) : d \in DOMAIN Digits
     \* names are different
     /\ \A j \in 1..(i - 1) : Split(ps[j], ":")[2] # e[2] \/ e[2] = ""
RECURSIVE Fields(_, _)
Fields(ps, pad) ==
  IF ps = <<>> THEN [fields |-> <<>>, pad |-> pad]
  ELSE LET e == Split(Head(ps), ":") IN
       IF e[2] = "" /\ SubSeq(e[1], 1, 2) = "|V" THEN Fields(Tail(ps), pad + Digits[SubSeq(e[1], 3, Len(e[1]))])
       ELSE LET r == Fields(Tail(ps), 0)
                f == [name |-> e[2], base |-> e[1], pad |-> pad,
                      shape |-> IF e[3] \in {"", "1"} THEN <<>> ELSE Dims(e[3])]
            IN [r EXCEPT !.fields = <<f>> \o @]
Parse(x) == Fields(Split(x, ","), 0)
(* a type and its text: what shape (1,) and no shape have in common         *)
Norm(t) == [t EXCEPT !.fields = [i \in 1..Len(t.fields) |-> [t.fields[i] EXCEPT !.shape = IF @ = <<1>> THEN <<>> ELSE @]]]
BaseSize == [b \in Bs |-> CASE b \in {"|u1", "|b1"} -> 1 [] b = "<u2" -> 2 [] b = "|S3" -> 3 [] b \in {"<i4", "<f4"} -> 4 [] OTHER -> 8]
SizeOf(t) == FoldSeq(LAMBDA a, b : a + b, t.pad,
               [i \in 1..Len(t.fields) |-> t.fields[i].pad + BaseSize[t.fields[i].base] * FoldSeq(LAMBDA a, b : a * b, 1, t.fields[i].shape)])

(* ----------------------------------------------------------- observations *)
Table(s) == {<<p[1], p[2], s.reg[p]>> : p \in {q \in DOMAIN s.reg : s.reg[q] # 0}}
R(s, o) == [st |-> s, o |-> o]
Nothing == [err |-> "", got |-> 0]
Do(s, e) ==
  CASE e.ev = "register" ->
         IF \E x \in ToSet(e.srcs) : s.reg[<<x, e.dst>>] # 0 THEN R(s, [err |-> "TypeError", got |-> 0])
         ELSE R([s EXCEPT !.n = @ + 1, !.reg = [p \in DOMAIN @ |-> IF p[1] \in ToSet(e.srcs) /\ p[2] = e.dst THEN s.n + 1 ELSE @[p]]], Nothing)
    [] e.ev = "unregister" ->
         R([s EXCEPT !.reg = [p \in DOMAIN @ |-> IF p[1] \in ToSet(e.srcs) /\ p[2] = e.dst THEN 0 ELSE @[p]]], Nothing)
    [] e.ev = "get" -> R(s, [err |-> "", got |-> Found(s, e.v, e.dst)])
    [] e.ev = "convert" -> LET k == Found(s, e.v, e.dst) IN
         R(s, IF k = 0 THEN [err |-> "ValueError", got |-> 0] ELSE [err |-> "", got |-> k])
    [] e.ev = "encode" -> \* a type, its text, and the type read from it
         R([s EXCEPT !.text = Text(e.t), !.type = <<e.t>>], [err |-> "", text |-> Text(e.t), back |-> Norm(e.t), size |-> SizeOf(e.t)])
    [] e.ev = "decode" ->
         IF Good(e.x) THEN R(s, [err |-> "", back |-> Parse(e.x), size |-> SizeOf(Parse(e.x))])
         ELSE R(s, [err |-> "ValueError"])

(* ------------------------------------------------------ events to explore *)
V(k, c) == [k |-> k, c |-> c]
Values == {V("instance", c) : c \in {"Pp", "Qq", "Rr", "str", "int"}} \cup {V("text", "Pp"), V("text", "Zz")}
Tuples == {<<"Pp", "Qq">>, <<"Qq", "Rr">>, <<"Rr", "Pp">>, <<"Pp", "*">>}
Groups == {<<x>> : x \in Srcs} \cup Tuples
Registry(s) ==
  {[ev |-> "register", srcs |-> g, one |-> o, dst |-> d] : g \in Groups, o \in BOOLEAN, d \in Dsts}
  \cup {[ev |-> "unregister", srcs |-> g, one |-> o, dst |-> d] : g \in Groups, o \in BOOLEAN, d \in Dsts}
Lookups(s) ==
  UNION {{[ev |-> "get", v |-> v, dst |-> d, cls |-> c] : v \in Values, d \in Dsts, c \in BOOLEAN},
         {[ev |-> "get", v |-> V("class", x), dst |-> d, cls |-> FALSE] : x \in {y \in {"Pp", "Qq", "Rr"} : \A d \in Dsts :
                Known(s, y, d) # 0 \/ \A b \in ToSet(Bases(y)) : Known(s, b, d) = 0}, d \in Dsts},
         {[ev |-> "convert", v |-> v, dst |-> d, cls |-> FALSE] : v \in Values, d \in Dsts \cup {"Zz"}}}
Shapes == {<<>>, <<1>>, <<2>>, <<3, 2>>, <<1, 2>>, <<2, 1, 2>>}
F(n, b, sh, pad) == [name |-> n, base |-> b, shape |-> sh, pad |-> pad]
T(fs, pad) == [fields |-> fs, pad |-> pad]
Singles == {T(<<F("", b, sh, 0)>>, 0) : b \in Bs, sh \in Shapes}
Records == {T(<<F("a", b, sh, p)>>, q) : b \in Bs, sh \in {<<>>, <<1>>, <<2>>, <<3, 2>>}, p \in {0, 3}, q \in {0, 5}}
           \cup {T(<<F("pos", b, <<3>>, 0), F("id", c, <<>>, p)>>, q) : b \in {"<f4", ">f8"}, c \in Bs, p \in {0, 2}, q \in {0, 3}}
           \cup {T(<<F("x", b, <<>>, 0), F("y", c, sh, p), F("zz", d, <<>>, 0)>>, 0)
                   : b \in {"|u1", "|S3"}, c \in {"<i4", "<c8"}, d \in {"|b1", "<u2"}, sh \in {<<>>, <<2, 1, 2>>}, p \in {0, 1, 7}}
Encodings == {[ev |-> "encode", t |-> t] : t \in Singles \cup Records}
Parts == {"<f4::1", "<f4::", "|u1:a:2", "<i4:b:", "<i4:b:1x3", "|V2::1", "<f4", "<f4:a", "<f4::3:2", "<f4:a:x", "<f4:a:2x", ":a:1", ""}
Texts == Parts \cup {p \o "," \o q : p, q \in Parts}
Decodings == {[ev |-> "decode", x |-> x] : x \in {y \in Texts : y \notin {"|V2::1", "|V2::1,|V2::1"}}}
Events(s) ==
  CASE Profile = "registry" -> Registry(s) \cup (IF Len(hist) = MaxDepth - 1 THEN Lookups(s) ELSE {})
    [] Profile = "codec" -> Encodings \cup Decodings
    [] OTHER -> Registry(s) \cup Lookups(s)

(* -------------------------------------------------------------- properties *)
\* the textual form of a type determines it, and is well formed
Inv == st.type # <<>> => Good(st.text) /\ Parse(st.text) = Norm(st.type[1])
Bad(e, r) ==
  LET o == e.o x == r.o IN
  IF e.ev \in {"encode", "decode"} THEN
       IF o.err # x.err THEN {"codec"}
       ELSE IF x.err # "" THEN {}
       ELSE IF e.ev = "encode" /\ o.text # x.text THEN {"codec"}
       ELSE IF o.size # x.size \/ o.back # x.back THEN {"codec"} ELSE {}
  ELSE (IF o.err # x.err \/ o.got # x.got THEN {"lookup"} ELSE {})
       \cup (IF {<<t[1], t[2], t[3]>> : t \in ToSet(o.table)} # Table(r.st) THEN {"registry"} ELSE {})


(* ----------------------------------------------------------- specification *)
GenInit == st = Init0 /\ hist = <<>> /\ l = 0 /\ tid = 0 /\ skip = FALSE
GenNext == /\ Len(hist) < MaxDepth
           /\ \E e \in Pick(Events(st)) : /\ hist' = Append(hist, e)
                                          /\ st' = Do(st, e).st
           /\ UNCHANGED <<l, tid, skip>>
GenSpec == GenInit /\ [][GenNext]_vars
View == <<st, Len(hist)>>
Emit == EmitPath(hist')

TraceInit == GenInit
TraceNext ==
  /\ l < Len(Log)
  /\ l' = l + 1 /\ hist' = <<>>
  /\ LET e == Log[l + 1] IN
     /\ tid' = e.tid
     /\ IF e.ev = "begin" THEN st' = Init0 /\ skip' = FALSE
        ELSE IF skip THEN UNCHANGED <<st, skip>>
        ELSE \E r \in {Do(st, e)} : \E bad \in {Bad(e, r)} :
                /\ st' = r.st
                /\ skip' = (bad # {})
                /\ bad # {} => Report(e.nn, e, SetToSeq(bad), r.o)
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceInv == TRUE
=============================================================================
