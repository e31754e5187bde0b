------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* The protocol itself: the commands of the public classes, with their     *)
(* names, parameters, types and defaults, and the stream a script makes.   *)
(* The same script is run with the generic classes (gsp) and with those of *)
(* a backend (gsp_matplotlib): both streams have to be the one given here. *)
(*                                                                         *)
(* A value is [t |-> type, v |-> text (scalars), q |-> numbers in 1/64     *)
(* (lists)]; array arguments are named, and hold numbers that the script   *)
(* can modify until the stream is saved.                                   *)
(***************************************************************************)
EXTENDS Conf

VARIABLES st, hist, l, tid, skip
vars == <<st, hist, l, tid, skip>>
Profile == IOEnv.PROFILE

V(t, v) == [t |-> t, v |-> v, q |-> <<>>]
L(t, q) == [t |-> t, v |-> "", q |-> q]
Nil == V("none", "null")
Req == V("req", "")
I(x) == V("int", x)
F(x) == V("float", x)
Str(x) == V("str", x)
Ref(i) == V("ref", ToString(i))
P(k, types, def) == [k |-> k, types |-> types, def |-> def]

(* ------------------------------------------------------- the protocol --- *)
Units == {"transform." \o u : u \in {"Pixel", "Inch", "Point", "Centimeter", "Millimeter", "Meter", "Kilometer"}}
Visuals == {"visual." \o u : u \in {"Pixels", "Points", "Markers", "Segments", "Paths", "Polygons"}}
Operators == {"transform." \o u : u \in {"Add", "Sub", "Mul", "Div", "Operator"}}
Accessors == {"transform." \o u : u \in {"Accessor", "X", "Y", "Z", "W", "R", "G", "B", "A"}}
Transforms == Units \cup Operators \cup Accessors \cup {"transform.Transform", "transform.Out", "transform.Colormap"}
Core == {"core.Canvas", "core.Viewport", "core.Buffer", "core.List", "core.Data"}
Classes == Core \cup Visuals \cup Transforms
TB == <<"Transform", "Buffer">>
Num == <<"Transform", "Buffer", "float", "int">>
Sig(c) ==
  CASE c = "core.Canvas" -> <<P("width", <<"int">>, Req), P("height", <<"int">>, Req), P("dpi", <<"float">>, Req)>>
    [] c = "core.Viewport" -> <<P("canvas", <<"Canvas">>, Req), P("x", <<"Transform", "float", "int">>, Req),
          P("y", <<"Transform", "float", "int">>, Req), P("width", <<"Transform", "float", "int">>, Req),
          P("height", <<"Transform", "float", "int">>, Req), P("color", <<"Color">>, Req)>>
    [] c = "core.Buffer" -> <<P("count", <<"int">>, Req), P("dtype", <<"dtype">>, Req), P("data", <<"memoryview", "bytes">>, Nil)>>
    [] c = "core.List" -> <<P("data", <<"Buffer">>, Req), P("itemsizes", <<"Buffer", "int">>, Req)>>
    [] c = "core.Data" -> <<P("uri", <<"str">>, Str("")), P("nbytes", <<"int">>, I("0")), P("dtype", <<"list">>, Nil)>>
    [] c = "visual.Pixels" -> <<P("positions", TB, Req), P("colors", TB \o <<"Color">>, Req)>>
    [] c = "visual.Points" -> <<P("positions", TB, Req), P("sizes", TB \o <<"float">>, Req),
          P("fill_colors", TB \o <<"Color">>, Req), P("line_colors", TB \o <<"Color">>, Req), P("line_widths", TB \o <<"float">>, Req)>>
    [] c = "visual.Markers" -> <<P("positions", TB, Req), P("types", TB \o <<"Marker">>, Req), P("sizes", TB \o <<"float">>, Req),
          P("axis", TB \o <<"Vec3">>, Req), P("angles", TB \o <<"float">>, Req),
          P("fill_colors", TB \o <<"Color">>, Req), P("line_colors", TB \o <<"Color">>, Req), P("line_widths", TB \o <<"float">>, Req)>>
    [] c = "visual.Segments" -> <<P("positions", TB, Req), P("line_caps", TB \o <<"LineCap">>, Req),
          P("line_colors", TB \o <<"Color">>, Req), P("line_widths", TB \o <<"float">>, Req)>>
    [] c = "visual.Paths" -> <<P("positions", TB, Req), P("indices", TB \o <<"List", "int">>, Req),
          P("line_colors", TB \o <<"Color">>, Req), P("line_widths", TB \o <<"float">>, Req),
          P("line_styles", TB \o <<"LineStyle">>, Req), P("line_joins", TB \o <<"LineJoin">>, Req),
          P("line_caps", TB \o <<"LineCap">>, Req)>>
    [] c = "visual.Polygons" -> <<P("positions", TB, Req), P("indices", TB \o <<"List", "int">>, Req),
          P("fill_colors", TB \o <<"Color">>, Req),
          P("line_colors", TB \o <<"Color">>, Req), P("line_widths", TB \o <<"float">>, Req),
          P("line_styles", TB \o <<"LineStyle">>, Req), P("line_joins", TB \o <<"LineJoin">>, Req)>>
    [] c = "transform.Transform" -> <<P("base", <<"Transform">>, Nil), P("next", <<"Transform">>, Nil), P("buffer", <<"Buffer">>, Nil)>>
    [] c = "transform.Accessor" -> <<P("buffer", TB, Nil), P("key", <<"str">>, Nil)>>
    [] c \in {"transform.X", "transform.Y", "transform.Z", "transform.W", "transform.R", "transform.G", "transform.B", "transform.A"}
          -> <<P("buffer", TB, Nil)>>
    [] c \in Units -> <<>>
    [] c = "transform.Out" -> <<P("name", <<"str">>, Nil)>>
    [] c = "transform.Colormap" -> <<P("colormap", <<"str">>, Nil), P("vmin", <<"float">>, Nil), P("vmax", <<"float">>, Nil)>>
    [] c = "transform.Operator" -> <<P("operator", <<"str">>, Req), P("left", Num, Nil), P("right", Num, Nil)>>
    [] c \in {"transform.Add", "transform.Sub", "transform.Mul", "transform.Div"} -> <<P("left", Num, Nil), P("right", Num, Nil)>>
Matrix3 == <<P("viewport", <<"Viewport">>, Req), P("model", <<"Matrix">>, Nil), P("view", <<"Matrix">>, Nil), P("proj", <<"Matrix">>, Nil)>>
(* methods of an object of class c                                          *)
Methods(c) == CASE c = "core.Buffer" -> {"set_data"} [] c = "core.Data" -> {"set_data"}
                [] c \in Visuals -> {"render"}
                [] c \in Operators -> {"set_base", "set_next", "set_buffer", "set_operator", "set_left", "set_right"}
                [] c = "transform.Colormap" -> {"set_base", "set_next", "set_buffer", "set_colormap"}
                [] c \in Transforms -> {"set_base", "set_next", "set_buffer"}
                [] OTHER -> {}
MSig(c, m) ==
  CASE m = "set_data" /\ c = "core.Buffer" -> <<P("offset", <<"int">>, Req), P("data", <<"memoryview", "bytes">>, Req)>>
    [] m = "set_data" -> <<P("offset", <<"int">>, Req), P("data", <<"bytes">>, Req)>>
    [] m = "render" -> Matrix3
    [] m = "set_base" -> <<P("base", <<"Transform">>, Nil)>>
    [] m = "set_next" -> <<P("next", <<"Transform">>, Nil)>>
    [] m = "set_buffer" -> <<P("buffer", TB \o <<"float", "int", "tuple">>, Nil)>>
    [] m = "set_colormap" -> <<P("colormap", <<"str">>, Req)>>
    [] m = "set_operator" -> <<P("operator", <<"str">>, Req)>>
    [] m = "set_left" -> <<P("left", Num, Req)>>
    [] m = "set_right" -> <<P("right", Num, Req)>>
(* name of a class without its module, in the names of methods              *)
Short(c) == SubSeq(c, IF c \in Core THEN 6 ELSE IF c \in Visuals THEN 8 ELSE 11, Len(c))

(* ------------------------------------------------ admission, conversion *)
Mro(t) ==
  CASE t = "bool" -> <<"bool", "int">> [] t = "f8" -> <<"f8", "float">> [] t = "ilist" -> <<"list">> [] t = "llist" -> <<"list">>
    [] t = "color" -> <<"Color", "tuple">> [] t = "vec3" -> <<"Vec3", "tuple">> [] t = "matrix" -> <<"Matrix">>
    [] t \in {"Marker", "LineCap", "LineStyle", "LineJoin"} -> <<t, "int">>
    [] t = "array" -> <<"ndarray">> [] t = "mv" -> <<"memoryview">>
    [] OTHER -> <<t>>
Converters ==
  {<<"tuple", "Color">>, <<"list", "Color">>, <<"tuple", "Vec3">>, <<"list", "Vec3">>, <<"tuple", "Matrix">>, <<"list", "Matrix">>,
   <<"ndarray", "Matrix">>, <<"ndarray", "Buffer">>, <<"list", "Buffer">>, <<"list", "List">>, <<"tuple", "list">>, <<"list", "tuple">>,
   <<"int", "Marker">>, <<"int", "LineCap">>, <<"int", "LineStyle">>, <<"int", "LineJoin">>,
   <<"int", "Canvas">>, <<"str", "memoryview">>, <<"NoneType", "list">>, <<"str", "dtype">>, <<"Color", "list">>, <<"Color", "tuple">>}
IsA(v, types) == \E i \in 1..Len(types), j \in 1..Len(Mro(v.t)) : Mro(v.t)[j] = types[i]
Usable(v, types) == {i \in 1..Len(types) : \E b \in ToSet(Mro(v.t)) : <<b, types[i]>> \in Converters}
Admitted(v, types) == v.t \in {"ref", "none"} \/ IsA(v, types) \/ Usable(v, types) # {}
(* "" when the value is recorded as it is, or the type it is converted to   *)
Target(v, types) == IF v.t \in {"ref", "none"} \/ IsA(v, types) THEN "" ELSE types[Max(Usable(v, types))]

(* ------------------------------------------------------------------ state *)
(* arrays: rows, dtype of a row, numbers (in 1/64)                          *)
U == 64
Ones(n, k) == [i \in 1..n |-> k * U]
Arrays0 ==
  [A4 |-> [n |-> 4, dt |-> "<f4::3", q |-> [i \in 1..12 |-> i * U]],
   S4 |-> [n |-> 4, dt |-> "<f8::3", q |-> [i \in 1..12 |-> 2 * i * U]],
   V4 |-> [n |-> 4, dt |-> "<f4::1", q |-> <<2 * U, 3 * U, U, 5 * U>>],
   C4 |-> [n |-> 4, dt |-> "<f4::4", q |-> [i \in 1..16 |-> 4 * i]],
   P2 |-> [n |-> 2, dt |-> "<f4::2x3", q |-> [i \in 1..12 |-> 3 * i * U]],
   K2 |-> [n |-> 2, dt |-> "<i8::1", q |-> <<U, 2 * U>>],
   M4 |-> [n |-> 4, dt |-> "<f8::4", q |-> [i \in 1..16 |-> IF i \in {1, 6, 11, 16} THEN U ELSE IF i = 4 THEN 32 ELSE 0]]]
Names == DOMAIN Arrays0
Init0 == [objs |-> <<>>, cmds |-> <<>>, arrs |-> Arrays0, done |-> FALSE]

(* value of a parameter in the saved stream: [t, v, q]                      *)
O(t, v, q) == [t |-> t, v |-> v, q |-> q]
NumOf(v) == O("num", v.v, <<>>)
Value(s, v, types) ==
  LET to == Target(v, types) a == IF v.t = "array" THEN s.arrs[v.v] ELSE 0 IN
  CASE v.t = "none" -> O("null", "", <<>>)
    [] v.t = "ref" -> O("ref", v.v, <<>>)
    [] to = "Buffer" /\ v.t = "array" -> O("buffer", ToString(a.n) \o "|" \o a.dt, a.q)
    [] to = "Buffer" -> O("buffer", ToString(Len(v.q)) \o (IF v.t = "ilist" THEN "|<i8::1" ELSE "|<f8::1"), v.q)
    [] to = "List" -> O("vlist", "2", IF v.t = "llist" THEN <<0, U, 2 * U, 0, U, 2 * U, 3 * U>> ELSE v.q \o Ones(Len(v.q), 1))
    [] to \in {"Marker", "LineCap", "LineStyle", "LineJoin"} -> O("num", IF v.t = "bool" THEN "1" ELSE v.v, <<>>)
    [] to = "Matrix" -> O("list", "", IF v.t = "array" THEN a.q ELSE v.q)
    [] v.t = "dtype" -> O("str", v.v, <<>>)
    [] v.t = "str" -> O("str", v.v, <<>>)
    [] v.t \in {"bytes", "mv"} -> O("bytes", "", v.q)
    [] v.t \in {"list", "ilist", "tuple", "color", "vec3", "matrix"} -> O("list", "", v.q)
    [] OTHER -> NumOf(v)

(* what a replay of the saved stream by the backend builds: the class of    *)
(* each object, the variables of visuals, the content of buffers...         *)
RECURSIVE Written(_, _, _)
Written(s, i, n) ==
  IF n = 0 THEN <<>>
  ELSE LET c == s.cmds[n] before == Written(s, i, n - 1) IN
       IF c.id # i THEN before
       ELSE IF c.m = "core.Buffer" THEN c.vals[3].q
       ELSE IF c.m = "Buffer/set_data"
            THEN [j \in 1..Len(before) |-> IF j <= Len(c.vals[2].q) THEN c.vals[2].q[j] ELSE before[j]]
       ELSE before
\* the command that gives its last value to parameter k of object i
LastSet(s, i, m, k) ==
  LET ns == {n \in 1..Len(s.cmds) : s.cmds[n].id = i /\ (s.cmds[n].m = m \/ s.cmds[n].m = Short(m) \o "/set_" \o k)}
  IN s.cmds[Max(ns)]
Current(s, i, k) ==
  LET c == LastSet(s, i, s.objs[i].cls, k) j == CHOOSE j \in 1..Len(c.sig) : c.sig[j].k = k
  IN [k |-> k, x |-> Value(s, c.vals[j], c.sig[j].types)]
Created(s, i) == CHOOSE n \in 1..Len(s.cmds) : s.cmds[n].id = i /\ s.cmds[n].m = s.objs[i].cls
Built(s, i) ==
  LET cls == s.objs[i].cls c == s.cmds[Created(s, i)] IN
  IF cls \in Visuals THEN {Current(s, i, c.sig[j].k) : j \in 1..Len(c.sig)}
  ELSE IF cls = "transform.Operator" THEN {Current(s, i, k) : k \in {"operator", "left", "right"}}
  ELSE IF cls \in Operators THEN {Current(s, i, k) : k \in {"left", "right"}}
  ELSE IF cls = "core.Canvas" THEN {Current(s, i, k) : k \in {"width", "height"}}
  ELSE IF cls = "core.Buffer" /\ c.vals[2] = V("dtype", "|u1::1") /\ c.vals[3].t \in {"bytes", "mv"}
       THEN {[k |-> "content", x |-> O("bytes", "", Written(s, i, Len(s.cmds)))]}
  ELSE {}
Replayed(s) == [i \in 1..Len(s.objs) |-> [c |-> Short(s.objs[i].cls), p |-> Built(s, i)]]

Obs(s, err) ==
  [err |-> err,
   stream |-> [i \in 1..Len(s.cmds) |-> LET c == s.cmds[i] IN
      [m |-> c.m, id |-> c.id,
       p |-> [j \in 1..Len(c.sig) |-> [k |-> c.sig[j].k, x |-> Value(s, c.vals[j], c.sig[j].types)]]]]]
R(s, err) == [st |-> s, o |-> Obs(s, err)]
Bind(sig, args, kw) ==
  [i \in 1..Len(sig) |-> IF i <= Len(args) THEN args[i] ELSE IF Has(kw, sig[i].k) THEN kw[sig[i].k] ELSE sig[i].def]
Issue(s, m, id, sig, vals) ==
  IF \A i \in 1..Len(sig) : Admitted(vals[i], sig[i].types)
  THEN R([s EXCEPT !.cmds = Append(@, [m |-> m, id |-> id, sig |-> sig, vals |-> vals])], "")
  ELSE R(s, "Error")
Do(s, e) ==
  CASE e.ev = "new" ->
         LET sig == Sig(e.cls) vals == Bind(sig, e.args, e.kw)
             r == Issue(s, e.cls, Len(s.objs) + 1, sig, vals)
         IN IF r.o.err # "" THEN r
            ELSE R([r.st EXCEPT !.objs = Append(@, [cls |-> e.cls, plain |-> e.plain])], "")
    [] e.ev = "call" ->
         LET c == s.objs[e.i].cls sig == MSig(c, e.m) IN
         Issue(s, Short(c) \o "/" \o e.m, e.i, sig, Bind(sig, e.args, e.kw))
    [] e.ev = "replay" -> LET r == R([s EXCEPT !.done = TRUE], "")
                          IN [r EXCEPT !.o = [err |-> "", stream |-> r.o.stream, built |-> Replayed(s)]]
    [] e.ev = "poke" -> R([s EXCEPT !.arrs[e.name].q[1] = 32], "")

(* ------------------------------------------------------ events to explore *)
Arr(n) == V("array", n)
Tup(q) == L("tuple", q)
Col == Tup(<<U, 32, 0, 48>>)
M16 == [i \in 1..16 |-> IF i \in {1, 6, 11, 16} THEN U ELSE 0]
Objs(s, classes) == {Ref(i) : i \in {j \in 1..Len(s.objs) : s.objs[j].cls \in classes}}
One(set) == IF set = {} THEN {} ELSE {CHOOSE x \in set : TRUE}
(* arguments every class accepts and a backend can draw                     *)
Base(s, p) ==
  CASE p.k = "canvas" -> Objs(s, {"core.Canvas"})
    [] p.k = "viewport" -> Objs(s, {"core.Viewport"})
    [] p.k = "data" /\ p.types = <<"Buffer">> -> Objs(s, {"core.Buffer"})
    [] p.k = "positions" -> {Arr("A4")}
    [] p.k \in {"width", "height"} -> {I("64")}
    [] p.k = "dpi" -> {F("100.0")}
    [] p.k \in {"x", "y"} -> {I("3")}
    [] p.k = "count" -> {I("2")}
    [] p.k = "dtype" /\ p.types = <<"dtype">> -> {V("dtype", "|u1::1")}
    [] p.k = "offset" -> {I("0")}
    [] p.k = "data" -> {L("bytes", <<5 * U, 6 * U>>)}
    [] p.k \in {"itemsizes", "indices"} -> {I("2")}
    [] p.k \in {"color", "colors", "fill_colors", "line_colors"} -> {Col}
    [] p.k \in {"sizes", "line_widths", "angles"} -> {F("2.0")}
    [] p.k = "axis" -> {Nil}
    [] p.k = "types" -> {V("Marker", "3")}
    [] p.k = "line_styles" -> {V("LineStyle", "1")}
    [] p.k = "line_joins" -> {V("LineJoin", "2")}
    [] p.k = "line_caps" -> {V("LineCap", "2")}
    [] p.k = "operator" -> {Str("+")}
    [] p.k = "colormap" -> {Str("magma")}
    [] p.k = "key" -> {Str("x")} [] p.k = "name" -> {Str("screen.z")} [] p.k = "uri" -> {Str("a")}
    [] p.k = "nbytes" -> {I("8")} [] p.k = "vmin" -> {F("0.5")} [] p.k = "vmax" -> {F("1.5")}
    [] p.k = "dtype" -> {L("list", <<U>>)}
    [] p.k \in {"left", "right"} -> {F("0.5")}
    [] OTHER -> {Nil}
(* other arguments, of every kind                                           *)
\* (expressions that are evaluated, or copied, by a constructor belong to
\* the specification of transforms; marker types have to be enough)
Alts(s, p) ==
  LET has(t) == t \in ToSet(p.types) IN
  {V("dict", "")}
  \cup (IF has("float") THEN {F("2.5"), V("f8", "1.5")} ELSE {F("3.5")})
  \cup (IF p.k \in {"canvas", "offset"} THEN {} ELSE IF has("int") THEN {I("7"), V("bool", "true")} ELSE {I("2")})
  \cup (IF has("Color") THEN {L("list", <<0, U, 0, 32>>), L("color", <<0, U, 32, 16>>), Tup(<<32, 32, 32, 16>>)} ELSE {})
  \cup (IF has("Buffer") /\ p.k \notin {"data", "buffer"} THEN {Arr("V4")} \cup (IF p.k \in {"types", "angles"} THEN {} ELSE {Arr("K2")}) ELSE {})
  \cup (IF has("Buffer") /\ p.k \notin {"data", "types", "angles"} /\ Objs(s, {"core.Buffer"}) # {} THEN One(Objs(s, {"core.Buffer"})) ELSE {})
  \cup (IF p.k = "positions" THEN {Arr("S4")} ELSE {})
  \cup (IF p.k = "buffer" THEN {Arr("S4"), Arr("A4"), Tup(<<U, 2 * U>>), L("list", <<U, 2 * U>>)} ELSE {})
  \cup (IF has("Color") /\ has("Buffer") THEN {Arr("C4")} ELSE {})
  \cup (IF has("Transform") /\ p.k \notin {"positions", "x", "y", "width", "height", "indices", "types", "axis", "angles", "left", "right"} THEN One(Objs(s, {"transform.Out"})) ELSE {})
  \cup (IF has("List") THEN {V("llist", ""), L("ilist", <<0, U>>)} ELSE {})
  \cup (IF has("Matrix") THEN {Arr("M4"), L("tuple", M16), L("list", M16), L("matrix", M16)} ELSE {})
  \cup (IF has("Vec3") THEN {L("tuple", <<0, 0, U>>), L("list", <<0, U, 0>>), L("vec3", <<U, 0, 0>>)} ELSE {})
  \cup (IF has("Marker") THEN {I("3"), V("Marker", "5")} ELSE {})
  \cup (IF has("LineCap") THEN {I("1"), V("LineCap", "1")} ELSE {})
  \cup (IF has("LineStyle") THEN {I("2"), V("LineStyle", "4")} ELSE {})
  \cup (IF has("LineJoin") THEN {I("1"), V("LineJoin", "3")} ELSE {})
  \cup (IF has("memoryview") THEN {} ELSE IF has("str") THEN {Str("other")} ELSE IF has("dtype") THEN {Str("<f4::3")} ELSE {Str("text")})
  \cup (IF has("bytes") THEN {L("mv", <<7 * U>>)} ELSE {})
  \cup (IF has("dtype") THEN {V("dtype", "<f4::2x3"), V("dtype", "<i4:a:1,<f4:b:3")} ELSE {})
  \cup (IF has("float") /\ has("Buffer") /\ p.k # "buffer" THEN {L("list", <<U, 2 * U, 3 * U, 4 * U>>)} ELSE {})
  \cup (IF p.def # Req THEN {Nil} ELSE {})
\* a base argument of each parameter, as a sequence (<<>> when there is none)
Basic(s, sig) ==
  IF \E i \in 1..Len(sig) : Base(s, sig[i]) = {} THEN <<V("!", "")>>
  ELSE [i \in 1..Len(sig) |-> IF sig = Sig("visual.Segments") /\ i = 1 THEN Arr("P2") ELSE CHOOSE x \in Base(s, sig[i]) : TRUE]
NoKw == [x \in {} |-> 0]
AsKw(sig, vals, n) == [k \in {sig[i].k : i \in (n + 1)..Len(sig)} |-> vals[CHOOSE i \in 1..Len(sig) : sig[i].k = k]]
Forms(sig, vals) ==
  {<<SubSeq(vals, 1, n), AsKw(sig, vals, n)>> : n \in {0, Len(sig)} \cup (IF Len(sig) > 2 THEN {Len(sig) \div 2} ELSE {})}
Short2(sig, vals) == \* the parameters that have a default value are left out
  LET n == Cardinality({i \in 1..Len(sig) : sig[i].def = Req}) IN
  IF n = Len(sig) THEN {} ELSE {<<SubSeq(vals, 1, n), NoKw>>}
(* Which(parameters): calls with the base arguments, then with another      *)
(* argument for each parameter                                              *)
Plain(s, sig) == LET b == Basic(s, sig) IN IF b = <<V("!", "")>> THEN {} ELSE Forms(sig, b) \cup Short2(sig, b)
Varied(s, sig) ==
  LET b == Basic(s, sig) IN
  IF b = <<V("!", "")>> THEN {}
  ELSE UNION {UNION {{<<v, NoKw>>, <<SubSeq(v, 1, i - 1), AsKw(sig, v, i - 1)>>}
                       : v \in {[b EXCEPT ![i] = a] : a \in Alts(s, sig[i])}} : i \in 1..Len(sig)}
New(c, f, plain) == [ev |-> "new", cls |-> c, args |-> f[1], kw |-> f[2], plain |-> plain]
CallOn(i, m, f) == [ev |-> "call", i |-> i, m |-> m, args |-> f[1], kw |-> f[2]]
Drawn(set) == IF Simulating /\ set # {} THEN {RandomElement(set) : i \in 1..2} ELSE set
SomeClasses == IF Simulating THEN {RandomElement(Classes) : i \in 1..4} ELSE Classes
News(s) == UNION {Drawn({New(c, f, TRUE) : f \in Plain(s, Sig(c))} \cup {New(c, f, FALSE) : f \in Varied(s, Sig(c))}) : c \in SomeClasses}
Calls(s) == UNION {UNION {Drawn({CallOn(i, m, f) : f \in Plain(s, MSig(s.objs[i].cls, m)) \cup Varied(s, MSig(s.objs[i].cls, m))})
                           : m \in {x \in Methods(s.objs[i].cls) : x # "render" \/ s.objs[i].plain}} : i \in (IF Simulating /\ s.objs # <<>> THEN {RandomElement(1..Len(s.objs)) : i \in 1..3} ELSE 1..Len(s.objs))}
Pokes(s) == {[ev |-> "poke", name |-> n] : n \in {x \in {"A4", "S4", "C4", "P2"} : s.arrs[x].q[1] # 32}}
(* the objects the others need are created first                            *)
Stage == <<New("core.Canvas", <<<<I("64"), I("32"), F("100.0")>>, NoKw>>, TRUE),
           New("core.Viewport", <<<<Ref(1), I("0"), I("0"), F("1.0"), F("0.5"), Col>>, NoKw>>, TRUE),
           New("core.Buffer", <<<<I("2"), V("dtype", "|u1::1"), L("bytes", <<U, 2 * U>>)>>, NoKw>>, TRUE),
           New("transform.Out", <<<<Str("screen.z")>>, NoKw>>, TRUE)>>
Replay(s) == IF \E i \in 1..Len(s.objs) : s.objs[i].cls = "core.Data" THEN {} ELSE {[ev |-> "replay"]} \* (not implemented by the backend)
Events(s) ==
  IF s.done THEN {}
  ELSE IF Len(s.cmds) < 4 THEN {Stage[Len(s.cmds) + 1]}
  ELSE IF Profile = "calls" THEN
         (IF Len(s.objs) = 4 THEN UNION {One({New(c, f, TRUE) : f \in Plain(s, Sig(c))}) : c \in
               {"core.Data", "transform.Add", "transform.Operator", "transform.Colormap", "transform.X", "transform.Pixel"} \cup Visuals}
          ELSE IF Len(s.cmds) = 5 THEN {e \in Calls(s) : e.i \in {3, 5}}
          ELSE Replay(s))
  ELSE IF Profile = "news" THEN IF Len(s.cmds) = 4 THEN News(s) ELSE Replay(s)
  ELSE (IF Len(s.objs) < 12 THEN News(s) ELSE {}) \cup (IF Len(s.cmds) < 20 THEN Calls(s) ELSE {}) \cup Pokes(s)
       \cup (IF Len(hist) >= MaxDepth - 1 THEN Replay(s) ELSE {})

(* -------------------------------------------------------------- properties *)
(* every reference of a stream is to an object created before               *)
Closed == \A i \in 1..Len(st.cmds) : \A j \in 1..Len(st.cmds[i].sig) :
            st.cmds[i].vals[j].t = "ref" =>
              \E k \in 1..(i - 1) : ToString(st.cmds[k].id) = st.cmds[i].vals[j].v /\ st.cmds[k].m \in Classes
Inv == Closed /\ \A i \in 1..Len(st.cmds) : \A j \in 1..Len(st.cmds[i].sig) : Admitted(st.cmds[i].vals[j], st.cmds[i].sig[j].types)

Canon(stream) == [i \in 1..Len(stream) |-> [m |-> stream[i].m, id |-> stream[i].id,
                    p |-> {<<stream[i].p[j].k, stream[i].p[j].x.t, stream[i].p[j].x.v, stream[i].p[j].x.q>> : j \in 1..Len(stream[i].p)}]]
Bad(e, r) ==
  LET x == Canon(r.o.stream)
      bad(o, which) == (IF o.err # r.o.err THEN {which \o "-admission"} ELSE {})
                       \cup (IF Canon(o.stream) # x THEN {which \o "-stream"} ELSE {})
                       \cup (IF \E i \in 1..Len(o.stream) : \E j \in 1..Len(o.stream[i].p) : o.stream[i].p[j].x.t = "dangling"
                             THEN {which \o "-dangling"} ELSE {})
                       \cup (IF Has(r.o, "built")
                             THEN IF [i \in 1..Len(o.built) |-> [c |-> o.built[i].c, p |-> ToSet(o.built[i].p)]] # r.o.built
                                  THEN {which \o "-replay"} ELSE {}
                             ELSE {})
      \* references that are not marked as such: a mere number at replay
      unmarked(o) == \E i \in 1..Min2(Len(o.stream), Len(r.o.stream)) : \E j \in 1..Len(o.stream[i].p), k \in 1..Len(r.o.stream[i].p) :
                        /\ o.stream[i].p[j].k = r.o.stream[i].p[k].k /\ o.stream[i].p[j].x.t = "num"
                        /\ r.o.stream[i].p[k].x.t \in {"ref", "buffer", "vlist"}
  IN (IF unmarked(e.o.gsp) THEN {"generic-dangling"} ELSE {}) \cup (IF unmarked(e.o.mpl) THEN {"backend-dangling"} ELSE {}) \cup
     bad(e.o.gsp, "generic") \cup bad(e.o.mpl, "backend")

(* ----------------------------------------------------------- specification *)
GenInit == st = Init0 /\ hist = <<>> /\ l = 0 /\ tid = 0 /\ skip = FALSE
GenNext == /\ Len(hist) < MaxDepth
           /\ \E e \in Pick(Events(st)) : /\ hist' = Append(hist, e)
                                          /\ st' = Do(st, e).st
           /\ UNCHANGED <<l, tid, skip>>
GenSpec == GenInit /\ [][GenNext]_vars
View == <<st, Len(hist)>>
Emit == EmitPath(hist')

TraceInit == GenInit
TraceNext ==
  /\ l < Len(Log)
  /\ l' = l + 1 /\ hist' = <<>>
  /\ LET e == Log[l + 1] IN
     /\ tid' = e.tid
     /\ IF e.ev = "begin" THEN st' = Init0 /\ skip' = FALSE
        ELSE IF skip THEN UNCHANGED <<st, skip>>
        ELSE \E r \in {Do(st, e)} : \E bad \in {Bad(e, r)} :
                /\ st' = r.st
                /\ skip' = (bad # {})
                /\ bad # {} => Report(e.nn, e, SetToSeq(bad), r.o)
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceInv == TRUE
=============================================================================
