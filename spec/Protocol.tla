------------------------------ MODULE Protocol ------------------------------
(***************************************************************************)
(* The command layer of GSP: objects and their identifiers, the registry,  *)
(* command recording, type admission and deferred conversion, command      *)
(* queues, replay, and saving / loading of command streams.                *)
(*                                                                         *)
(* The classes Foo, Bar, Baz are declared by the harness with the public   *)
(* API (Object, @command): signatures are given by Sig below.              *)
(*                                                                         *)
(* Values are records [t |-> type, v |-> text]; identifiers are numbered   *)
(* in order of first appearance (the harness renames the real ones).       *)
(***************************************************************************)
EXTENDS Conf

VARIABLES st, hist, l, tid, skip
vars == <<st, hist, l, tid, skip>>

Profile == IOEnv.PROFILE

V(t, v) == [t |-> t, v |-> v]
None == V("none", "")
RefTo(id) == V("ref", ToString(id))
Empty == [x \in {} |-> 0]

(* ------------------------------------------------------------- signatures *)
Req == V("req", "")
P(k, types, def) == [k |-> k, types |-> types, def |-> def]
SigFoo == << P("value", <<"int">>, Req),
             P("scale", <<"float", "int">>, V("float", "1.5")),
             P("tag",   <<"str">>, V("str", "t")) >>
SigBaz == << P("value", <<"int">>, Req), P("other", <<"Foo">>, None) >>
Sig(m) == CASE m = "Foo"  -> SigFoo
            [] m = "Bar"  -> << P("value", <<"int">>, Req),
                                P("scale", <<"float", "int">>, V("float", "2.5")),
                                P("tag",   <<"str">>, V("str", "b")) >>
            [] m = "Baz"  -> SigBaz
            [] m = "set_value" -> << P("value", <<"int">>, Req),
                                     P("scale", <<"float", "int">>, V("int", "3")) >>
            [] m = "link" -> << P("other", <<"Foo">>, None),
                                P("weight", <<"int">>, V("int", "1")) >>
            [] m = "mix"  -> << P("x", <<"int", "str">>, Req), P("y", <<"int">>, V("int", "1")) >>
            [] m = "mox"  -> << P("x", <<"str", "int">>, Req), P("y", <<"int">>, V("int", "2")) >>
            [] m = "attach" -> << P("other", <<"Object">>, Req) >>
            [] m = "data" -> << P("x", <<"list", "dict">>, Req) >>
            [] m = "boom" -> << P("value", <<"int">>, Req) >>

(* name under which a call is recorded: link is recorded as "renamed"      *)
Recorded(cls, m) ==
  CASE m = "Foo" -> "Foo/__init__" [] m = "Bar" -> "Bar/__init__"
    [] m = "Baz" -> "mod.Baz"      [] m = "link" -> cls \o "/renamed"
    [] OTHER -> cls \o "/" \o m
IsCreation(m) == m \in {"Foo/__init__", "Bar/__init__", "mod.Baz"}
ClassOf(m) == CASE m = "Foo/__init__" -> "Foo" [] m = "Bar/__init__" -> "Bar"
                [] m = "mod.Baz" -> "Baz"
CallOf(m) == LET k == SelectLastInSeq(<<"set_value", "renamed", "mix", "mox", "attach", "data", "boom">>,
                         LAMBDA x : m \in {c \o "/" \o x : c \in {"Foo", "Bar", "Baz"}})
                 x == <<"set_value", "renamed", "mix", "mox", "attach", "data", "boom">>[k]
             IN IF x = "renamed" THEN "link" ELSE x

(* All the parameters of a call: positional, then named, then defaults     *)
Bind(sig, args, kw) ==
  [i \in 1..Len(sig) |->
     IF i <= Len(args) THEN args[i]
     ELSE IF Has(kw, sig[i].k) THEN kw[sig[i].k] ELSE sig[i].def]

(* ------------------------------------------------ admission / conversion *)
Mro(t) == CASE t = "bool" -> <<"bool", "int">> [] t = "kel" -> <<"kel", "cel">>
            [] t = "ran" -> <<"ran", "kel", "cel">>
            [] OTHER -> <<t>>
Converters == { <<"cel", "int">>, <<"cel", "str">>, <<"kel", "str">>, <<"wrap", "Foo">> }
IsA(t, types) == \E i \in 1..Len(types), j \in 1..Len(Mro(t)) : Mro(t)[j] = types[i]

(* "" : accepted as it is;  "!" : refused;  otherwise "source>target"      *)
Admit(types, v) ==
  IF v.t \in {"ref", "none"} \/ IsA(v.t, types) THEN ""
  ELSE LET usable == { i \in 1..Len(types) :
                         \E b \in ToSet(Mro(v.t)) : <<b, types[i]>> \in Converters }
       IN IF usable = {} THEN "!"
          ELSE LET dst == types[Max(usable)]
                   src == SelectInSeq(Mro(v.t), LAMBDA b : <<b, dst>> \in Converters)
               IN Mro(v.t)[src] \o ">" \o dst
Convert(c, v) == CASE c = "cel>int" -> V("int", "1" \o v)
                   [] c = "cel>str" -> V("str", "c" \o v)
                   [] c = "kel>str" -> V("str", "k" \o v)

(* parameter of a recorded command: c # "" is a pending conversion         *)
Param(p, v) == [k |-> p.k, t |-> v.t, v |-> v.v, c |-> Admit(p.types, v)]
Params(sig, vals) == [i \in 1..Len(sig) |-> Param(sig[i], vals[i])]

(* ----------------------------------------------------------------- state *)
NewQueue == [cmds |-> <<>>, ro |-> FALSE]
Init0 == [heap |-> <<>>, reg |-> Empty, queues |-> Empty, active |-> "none",
          rec |-> TRUE, orec |-> TRUE, next |-> 1, files |-> Empty, fresh |-> TRUE,
          moved |-> {}, burst |-> FALSE]

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

WithActive(s) == IF s.active # "none" THEN s
                 ELSE [s EXCEPT !.active = "default",
                                !.queues = Put(@, "default", NewQueue)]

Instance(cls, id, value, scale, tag, lnk, weight) ==
  [cls |-> cls, id |-> id, value |-> value, scale |-> scale, tag |-> tag,
   link |-> lnk, weight |-> weight, by |-> ""]
\* (instances of the classes of backend "*" tell who sets their value)
Label(cls) == IF cls \in {"Foo*", "Bar*", "Baz*"} THEN "*" ELSE ""

(* Effect of a constructor / method on given (bound) values.               *)
(* The result is [s, err]; links are indices of the heap (0: none).        *)
LinkOf(s, v) == CASE v.t = "ref" -> (CHOOSE i \in 1..Len(s.heap) : ToString(i) = v.v)
                  [] OTHER -> 0
Construct(s, cls, lab, vals, id) ==
  LET inst == IF cls = "Baz"
              THEN Instance("Baz" \o lab, id, vals[1], V("float", "1.5"), V("str", "t"),
                            LinkOf(s, vals[2]), None)
              ELSE Instance(cls \o lab, id, vals[1], vals[2], vals[3], 0, None)
      i == Len(s.heap) + 1
  IN [s EXCEPT !.heap = Append(@, inst),
               !.next = IF id = @ THEN @ + 1 ELSE @,
               !.reg = IF s.orec THEN Put(@, id, i) ELSE @]
Apply(s, i, m, vals) ==
  CASE m = "set_value" -> [s |-> [s EXCEPT !.heap[i].value = vals[1],
                                           !.heap[i].scale = vals[2],
                                           !.heap[i].by = Label(s.heap[i].cls)], err |-> ""]
    [] m = "attach" -> [s |-> [s EXCEPT !.heap[i].link = LinkOf(s, vals[1])], err |-> ""]
    [] m = "link" -> [s |-> [s EXCEPT !.heap[i].link = LinkOf(s, vals[1]),
                                      !.heap[i].weight = vals[2]], err |-> ""]
    [] m \in {"mix", "mox", "data"} -> [s |-> [s EXCEPT !.heap[i].value = vals[1]], err |-> ""]
    [] m = "boom" -> IF vals[1].t = "int" /\ vals[1].v \in {"2", "12"}
                     THEN [s |-> s, err |-> "Boom"]
                     ELSE [s |-> [s EXCEPT !.heap[i].value = vals[1]], err |-> ""]

(* A reference argument [t |-> "ref", v |-> index of the instance]: what is *)
(* recorded is the identifier of the instance.                             *)
Recordable(s, p) ==
  IF p.t = "ref" THEN [p EXCEPT !.v = ToString(s.heap[LinkOf(s, p)].id)] ELSE p

\* (a call that asks for no command is admitted like any other)
Record(s, m, id, params, kw) ==
  IF ~s.rec THEN [s |-> s, err |-> ""]
  ELSE LET s1 == WithActive(s) IN
       IF \E i \in 1..Len(params) : params[i].c = "!"
       THEN [s |-> s1, err |-> "ValueError"]
       ELSE IF s1.queues[s1.active].ro \/ Has(kw, "__no_command__") THEN [s |-> s1, err |-> ""]
       ELSE [s |-> [s1 EXCEPT !.queues[s1.active].cmds =
                      Append(@, [m |-> m, id |-> id,
                                 p |-> [i \in 1..Len(params) |-> Recordable(s, params[i])]])],
             err |-> ""]

(* ------------------------------------------------- deferred conversions  *)
(* Resolve(s, p): the value a parameter has when a command is executed or  *)
(* saved; a conversion to Foo creates an object (just in time).            *)
JitFoo(s, v) == Construct(s, "Foo", "", <<V("int", v), V("float", "1.5"), V("str", "t")>>, s.next)
RECURSIVE ResolveAll(_, _, _, _)
ResolveAll(s, ps, i, acc) ==
  IF i > Len(ps) THEN [s |-> s, vals |-> acc, jit |-> FALSE]
  ELSE LET p == ps[i] IN
       IF p.c = "wrap>Foo"
       THEN LET s1 == JitFoo(s, p.v)
                r == ResolveAll(s1, ps, i + 1, Append(acc, V("ref", ToString(Len(s1.heap)))))
            IN [r EXCEPT !.jit = TRUE]
       ELSE IF p.c # "" THEN ResolveAll(s, ps, i + 1, Append(acc, Convert(p.c, p.v)))
       ELSE IF p.t = "ref"
       THEN LET id == {n \in DOMAIN s.reg : ToString(n) = p.v}
            IN IF id = {} THEN [s |-> s, vals |-> <<>>, jit |-> FALSE]  \* unknown object
               ELSE ResolveAll(s, ps, i + 1, Append(acc, V("ref", ToString(s.reg[CHOOSE n \in id : TRUE]))))
       ELSE ResolveAll(s, ps, i + 1, Append(acc, V(p.t, p.v)))

(* a failing reference is reported before later conversions are applied    *)
Known(s, p) == p.t # "ref" \/ \E n \in DOMAIN s.reg : ToString(n) = p.v

RECURSIVE RunFrom(_, _, _, _)
RunFrom(s, cmds, k, lab) ==
  IF k > Len(cmds) THEN [s |-> s, err |-> ""]
  ELSE LET c == cmds[k] IN
       IF \E i \in 1..Len(c.p) : ~Known(s, c.p[i])
       THEN LET n == Min({i \in 1..Len(c.p) : ~Known(s, c.p[i])})
            IN [s |-> ResolveAll(s, SubSeq(c.p, 1, n - 1), 1, <<>>).s, err |-> "Error"]
       ELSE LET r == ResolveAll(s, c.p, 1, <<>>) IN
            IF IsCreation(c.m)
            THEN LET s1 == Construct([r.s EXCEPT !.orec = TRUE], ClassOf(c.m), lab, r.vals, c.id)
                 IN RunFrom([s1 EXCEPT !.orec = s.orec], cmds, k + 1, lab)
            ELSE IF c.id \notin DOMAIN r.s.reg
            THEN [s |-> r.s, err |-> "Error"]
            ELSE LET a == Apply(r.s, r.s.reg[c.id], CallOf(c.m), r.vals)
                 IN IF a.err # "" THEN a ELSE RunFrom(a.s, cmds, k + 1, lab)

(* ------------------------------------------------------- saved streams   *)
(* Commands of the stream have no pending conversion; an object created by *)
(* a conversion is created by a command of the stream, before its use.     *)
Plain(k, v) == [k |-> k, t |-> v.t, v |-> v.v, c |-> ""]
RECURSIVE DumpParams(_, _, _, _, _)
DumpParams(s, ps, i, acc, made) ==
  IF i > Len(ps) THEN [s |-> s, p |-> acc, made |-> made]
  ELSE LET p == ps[i] IN
       IF p.c = "wrap>Foo"
       THEN LET s1 == JitFoo(s, p.v)
                id == s.next
                cmd == [m |-> "Foo/__init__", id |-> id,
                        p |-> <<Plain("value", V("int", p.v)),
                                Plain("scale", V("float", "1.5")),
                                Plain("tag", V("str", "t"))>>]
            IN DumpParams(s1, ps, i + 1, Append(acc, Plain(p.k, RefTo(id))), Append(made, cmd))
       ELSE IF p.c # "" THEN DumpParams(s, ps, i + 1, Append(acc, Plain(p.k, Convert(p.c, p.v))), made)
       ELSE DumpParams(s, ps, i + 1, Append(acc, p), made)
RECURSIVE Dump(_, _, _, _)
Dump(s, cmds, k, acc) ==
  IF k > Len(cmds) THEN [s |-> s, out |-> acc]
  ELSE LET d == DumpParams(s, cmds[k].p, 1, <<>>, <<>>)
       IN Dump(d.s, cmds, k + 1, acc \o d.made \o <<[cmds[k] EXCEPT !.p = d.p]>>)

(* ---------------------------------------------------------- observation  *)
SetOf(seq) == ToSet(seq)
ObsParam(p) == IF p.c # "" THEN [k |-> p.k, t |-> "conv", v |-> ""]
               ELSE [k |-> p.k, t |-> p.t, v |-> p.v]
ObsCmd(c) == [m |-> c.m, id |-> c.id, p |-> {ObsParam(c.p[i]) : i \in 1..Len(c.p)}]
ObsCmds(cs) == [i \in 1..Len(cs) |-> ObsCmd(cs[i])]
ObsInst(s, i) == LET o == s.heap[i] IN
  [o EXCEPT !.link = IF o.link = 0 THEN 0 ELSE s.heap[o.link].id]
Obs(s, err, ret, stream) ==
  [err |-> err, ret |-> ret,
   insts |-> [i \in 1..Len(s.heap) |-> ObsInst(s, i)],
   reg |-> {<<n, s.reg[n]>> : n \in DOMAIN s.reg},
   active |-> s.active,
   queues |-> {[name |-> q, ro |-> s.queues[q].ro, cmds |-> ObsCmds(s.queues[q].cmds)]
               : q \in DOMAIN s.queues},
   stream |-> ObsCmds(stream)]

(* ---------------------------------------------------------------- events *)
R(s, err, ret) == [st |-> s, o |-> Obs(s, err, ret, <<>>)]

DoCreate(s, e) ==
  LET sig == Sig(e.cls)
      vals == Bind(sig, e.args, e.kw)
      s1 == Construct(s, e.cls, "", vals, s.next)
      r == Record(s1, Recorded("", e.cls), s.next, Params(sig, vals), e.kw)
  IN R(r.s, r.err, IF r.err = "" THEN RefTo(s.next) ELSE None)

BaseClass(lab) == IF lab \in {"Foo", "Foo*"} THEN "Foo"
                  ELSE IF lab \in {"Bar", "Bar*"} THEN "Bar" ELSE "Baz"
DoCall(s, e) ==
  LET sig == Sig(e.m)
      vals == Bind(sig, e.args, e.kw)
      a == Apply(s, e.i, e.m, vals)
  IN IF a.err # "" THEN R(s, a.err, None)
     ELSE LET r == Record(a.s, Recorded(BaseClass(s.heap[e.i].cls), e.m),
                          s.heap[e.i].id, Params(sig, vals), e.kw)
          IN R(r.s, r.err, IF r.err = "" /\ e.m = "link" THEN V("int", "42") ELSE None)

DoQueue(s, e) ==   \* queue(name): existing or new (a new queue becomes active)
  IF e.name = "active" THEN LET s1 == WithActive(s) IN R(s1, "", V("str", s1.active))
  ELSE IF e.name \in DOMAIN s.queues THEN R(s, "", V("str", e.name))
  ELSE R([s EXCEPT !.queues = Put(@, e.name, NewQueue), !.active = e.name],
         "", V("str", e.name))

DoRun(s, e) ==
  LET r == RunFrom(s, s.queues[e.name].cmds, 1, e.lab)
  IN R([r.s EXCEPT !.queues = s.queues, !.active = s.active], r.err, None)

Target(s, e) == IF e.name = "active" THEN WithActive(s).active ELSE e.name
DoSave(s, e) ==
  LET s1 == WithActive(s)
      s0 == IF e.name = "active" THEN s1 ELSE s
      d == Dump(s0, s0.queues[Target(s, e)].cmds, 1, <<>>)
      s2 == [d.s EXCEPT !.files = Put(@, e.file, d.out)]
  IN [st |-> s2, o |-> Obs(s2, "", None, d.out)]
DoLoad(s, e) ==
  LET s0 == IF e.name = "active" THEN WithActive(s) ELSE s
      t == Target(s, e)
      s1 == IF e.reset THEN [s0 EXCEPT !.reg = Empty] ELSE s0
      s2 == [s1 EXCEPT !.queues[t].cmds = s.files[e.file]]
  IN R(s2, "", V("str", t))
DoForeign(s, e) ==  \* a stream written elsewhere: identifiers of its own
  LET c == [m |-> "Foo/__init__", id |-> s.next,
            p |-> <<Plain("value", V("int", "7")), Plain("scale", V("float", "0.5")),
                    Plain("tag", V("str", "f"))>>]
      s1 == [s EXCEPT !.next = @ + 1, !.queues[e.name].cmds = <<c>>, !.fresh = FALSE]
  IN R(s1, "", None)
DoSetId(s, e) ==
  LET old == s.heap[e.i].id
      s1 == [s EXCEPT !.heap[e.i].id = s.next, !.next = @ + 1, !.fresh = FALSE, !.moved = @ \cup {e.i}]
      s2 == IF old \in DOMAIN s.reg THEN [s1 EXCEPT !.reg = Put(Del(@, old), s.next, e.i)] ELSE s1
  IN R(s2, "", None)

Do(s, e) ==
  CASE e.ev = "create" -> DoCreate(s, e)
    [] e.ev = "call" -> DoCall(s, e)
    [] e.ev = "queue" -> DoQueue(s, e)
    [] e.ev = "empty" -> R([s EXCEPT !.queues[e.name].cmds = <<>>], "", None)
    [] e.ev = "setro" -> R([s EXCEPT !.queues[e.name].ro = e.b], "", None)
    [] e.ev = "record" -> R([s EXCEPT !.rec = e.b], "", None)
    [] e.ev = "orecord" -> R([s EXCEPT !.orec = e.b], "", None)
    [] e.ev = "run" -> DoRun(s, e)
    [] e.ev = "save" -> DoSave(s, e)
    [] e.ev = "load" -> DoLoad(s, e)
    [] e.ev = "foreign" -> DoForeign(s, e)
    [] e.ev = "setid" -> DoSetId(s, e)
    [] e.ev = "burst" -> R([s EXCEPT !.burst = TRUE], "", None)
    [] e.ev = "sameid" -> R(s, "", None) \* (the identifier it has already)
    [] e.ev = "push" -> \* a command made by hand
         LET ps == Params(Sig("link"), <<e.other, e.weight>>) IN
         R([s EXCEPT !.queues[e.name].cmds = Append(@, [m |-> Recorded(BaseClass(s.heap[e.i].cls), "link"), id |-> s.heap[e.i].id,
              p |-> [i \in 1..Len(ps) |-> Recordable(s, ps[i])]])], "", None)
    [] e.ev = "reset" -> R([s EXCEPT !.reg = Empty], "", None)

(* --------------------------------------------------- events to explore   *)
I(v) == V("int", v)
NoKw == [x \in {} |-> 0]
Create(cls, args, kw) == [ev |-> "create", cls |-> cls, args |-> args, kw |-> kw]
Call(i, m, args, kw) == [ev |-> "call", i |-> i, m |-> m, args |-> args, kw |-> kw]
Inst(s) == 1..Len(s.heap)
Refs(s) == {V("ref", ToString(i)) : i \in {j \in Inst(s) : s.heap[j].id \in DOMAIN s.reg
                                                   /\ s.reg[s.heap[j].id] = j}}
Mk == Create("Foo", <<I("1")>>, NoKw)
QNames(s) == DOMAIN s.queues
Movable(s) == {i \in Inst(s) : s.heap[i].id \in DOMAIN s.reg /\ s.reg[s.heap[i].id] = i}

EvId(s) ==
  {Mk, [ev |-> "orecord", b |-> ~s.orec]}
  \cup (IF s.burst \/ Len(s.heap) # 1 \/ ~s.orec \/ ~s.fresh \/ s.reg = Empty THEN {}
        ELSE {[ev |-> "burst"]})
  \cup {[ev |-> "sameid", i |-> i] : i \in {j \in Inst(s) : s.heap[j].id \notin DOMAIN s.reg \/ s.reg[s.heap[j].id] = j}}
  \cup {[ev |-> "setid", i |-> i] : i \in {j \in Movable(s) \ s.moved : j <= 2}}
  \cup (IF s.active = "default" /\ ~s.queues["default"].ro
        THEN {[ev |-> "foreign", name |-> "default"]} ELSE {})
  \cup {[ev |-> "run", name |-> q, lab |-> "*"] : q \in QNames(s)}
  \cup (IF s.fresh THEN {[ev |-> "reset"]} ELSE {})
  \cup {Create("Baz", <<I("1"), r>>, NoKw) : r \in {x \in Refs(s) : x.v = "1"}}

\* objects made, and methods called, without a command
NoCmd == [x \in {"__no_command__"} |-> V("bool", "1")]
EvNoCmd(s) ==
  {Create("Foo", <<I("3")>>, NoCmd), Create("Foo", <<>>, NoCmd @@ [value |-> I("3")]),
   Create("Foo", <<V("list", "1")>>, NoCmd)}
  \cup (IF Len(s.heap) = 0 THEN {} ELSE
   {Call(1, "set_value", <<I("4")>>, NoCmd), Call(1, "link", <<>>, NoCmd), Call(1, "boom", <<I("2")>>, NoCmd),
    Call(1, "attach", <<>>, NoCmd @@ [other |-> V("ref", "1")]), Call(1, "mix", <<V("float", "1.5")>>, NoCmd)})

EvRec(s) ==
  EvNoCmd(s) \cup
  {Create("Foo", <<I("1")>>, NoKw),
   Create("Foo", <<>>, [value |-> I("1"), tag |-> V("str", "u")]),
   Create("Bar", <<I("2"), V("int", "4")>>, [tag |-> V("str", "w")]),
   Create("Foo", <<V("cel", "1"), V("float", "0.5")>>, NoKw),
   Create("Foo", <<V("list", "1")>>, NoKw),
   Create("Foo", <<I("-123456789012345678901"), V("float", "0.30000000000000004"), V("str", "$1")>>, NoKw),
   Create("Foo", <<I("0"), V("float", "1e-300")>>, [tag |-> V("str", "$2")]),
   [ev |-> "record", b |-> ~s.rec]}
  \cup (IF Len(s.heap) = 0 THEN {} ELSE
   LET i == Len(s.heap) IN
   {Create("Baz", <<I("1")>>, [other |-> V("ref", ToString(i))]),
    Create("Baz", <<V("bool", "1"), V("wrap", "5")>>, NoKw),
    Call(i, "set_value", <<I("2")>>, NoKw),
    Call(i, "set_value", <<>>, [value |-> I("2"), scale |-> V("float", "0.5")]),
    Call(i, "link", <<V("ref", "1")>>, NoKw),
    Call(i, "link", <<>>, NoKw),
    Call(i, "link", <<>>, [weight |-> V("cel", "1"), other |-> V("ref", "1")]),
    Call(i, "link", <<None, V("float", "1.5")>>, NoKw),
    Call(i, "mix", <<V("kel", "1")>>, NoKw), Call(i, "mox", <<V("kel", "1")>>, NoKw),
    Call(i, "mix", <<V("str", "z")>>, NoKw),
    Call(i, "mix", <<V("ran", "3")>>, NoKw), Call(i, "set_value", <<V("ran", "4")>>, NoKw), Call(i, "mox", <<V("cel", "1")>>, NoKw),
    Call(i, "attach", <<V("ref", "1")>>, NoKw), Call(i, "attach", <<None>>, NoKw), Call(i, "attach", <<>>, [other |-> None]),
    Call(i, "data", <<V("list", "$L")>>, NoKw), Call(i, "data", <<V("dict", "$D")>>, NoKw), Call(i, "data", <<I("1")>>, NoKw),
    Call(i, "boom", <<I("1")>>, NoKw), Call(i, "boom", <<I("2")>>, NoKw)})
  \cup {[ev |-> "setro", name |-> q, b |-> ~s.queues[q].ro] : q \in QNames(s)}

EvQueue(s) ==
  {Mk, [ev |-> "queue", name |-> "active"], [ev |-> "queue", name |-> "a"],
   [ev |-> "queue", name |-> ""], [ev |-> "queue", name |-> "default"]}
  \cup {[ev |-> "empty", name |-> q] : q \in QNames(s)}
  \cup {[ev |-> "setro", name |-> q, b |-> ~s.queues[q].ro] : q \in QNames(s)}
  \cup {[ev |-> "run", name |-> q, lab |-> "*"] : q \in QNames(s)}
  \cup (IF Len(s.heap) = 0 THEN {} ELSE {Call(1, "boom", <<V("cel", "2")>>, NoKw)})

EvRun(s) ==
  {Mk} \cup {[ev |-> "run", name |-> q, lab |-> lab] : q \in QNames(s), lab \in {"", "*"}}
  \cup (IF Len(s.heap) = 0 THEN {} ELSE
   {Create("Baz", <<V("ran", "1"), V("ref", "1")>>, NoKw),
    Create("Bar", <<I("2")>>, NoKw),
    Call(1, "link", <<V("wrap", "3")>>, NoKw), Call(1, "mix", <<V("kel", "1")>>, NoKw),
    Call(Len(s.heap), "link", <<V("ref", "1")>>, NoKw),
    Call(Len(s.heap), "set_value", <<V("bool", "1")>>, NoKw),
    Call(1, "boom", <<V("cel", "2")>>, NoKw)})
  \cup (IF s.fresh THEN {[ev |-> "reset"]} ELSE {})

Pushes(s) == UNION {{[ev |-> "push", name |-> q, i |-> 1, other |-> r, weight |-> I("6")] : r \in {None} \cup {x \in Refs(s) : x.v \in {"1", "2"}}}
                   : q \in {x \in QNames(s) : ~s.queues[x].ro /\ s.heap # <<>> /\ 1 \in Movable(s)}}
\* commands about objects that do not exist (any more)
EvLost(s) ==
  {Mk} \cup {[ev |-> "empty", name |-> q] : q \in QNames(s)} \cup {[ev |-> "run", name |-> q, lab |-> "*"] : q \in QNames(s)}
  \cup (IF Len(s.heap) = 0 THEN {} ELSE {Create("Baz", <<I("1"), V("ref", "1")>>, NoKw), Call(Len(s.heap), "set_value", <<I("2")>>, NoKw)})
  \cup (IF s.fresh THEN {[ev |-> "reset"]} ELSE {}) \cup Pushes(s)
EvStream(s) ==
  {Mk} \cup (IF Len(s.heap) = 0 THEN {} ELSE
   {Create("Baz", <<V("cel", "1"), V("wrap", "4")>>, NoKw),
    Call(1, "link", <<V("wrap", "3"), V("cel", "2")>>, NoKw),
    Call(1, "link", <<V("ref", "1")>>, NoKw),
    Call(1, "set_value", <<I("123456789012345678901"), V("float", "0.30000000000000004")>>, NoKw),
    Call(1, "mix", <<V("str", "$1")>>, NoKw), Call(1, "mix", <<V("str", "12")>>, NoKw), Call(1, "attach", <<None>>, NoKw),
    Call(1, "data", <<V("list", "$L")>>, NoKw), Call(1, "data", <<V("dict", "$D")>>, NoKw),
    Call(1, "mix", <<V("kel", "1")>>, NoKw), Call(1, "mix", <<V("ran", "2")>>, NoKw)})
  \cup {[ev |-> "save", name |-> q, file |-> "f", api |-> "json"] : q \in QNames(s) \cup {"active"}}
  \cup {[ev |-> "save", name |-> "active", file |-> "f", api |-> "gsp"]}
  \cup {[ev |-> "load", name |-> q, file |-> f, api |-> "json", reset |-> FALSE]
         : q \in {x \in QNames(s) : ~s.queues[x].ro}, f \in DOMAIN s.files}
  \cup (IF s.active # "none" /\ ~s.queues[s.active].ro
        THEN {[ev |-> "load", name |-> "active", file |-> f, api |-> "gsp", reset |-> TRUE]
               : f \in DOMAIN s.files} ELSE {})
  \cup {[ev |-> "run", name |-> q, lab |-> "*"] : q \in QNames(s)}
  \cup {[ev |-> "queue", name |-> "a"], [ev |-> "record", b |-> ~s.rec]}

EvAll(s) == Pushes(s) \cup EvRec(s) \cup EvQueue(s) \cup EvRun(s) \cup EvStream(s)
            \cup (IF s.fresh THEN {} ELSE EvId(s))
            \cup {[ev |-> "queue", name |-> "c"], [ev |-> "orecord", b |-> ~s.orec]}

Events(s) == CASE Profile = "id" -> EvId(s) [] Profile = "rec" -> EvRec(s)
               [] Profile = "queue" -> EvQueue(s) [] Profile = "run" -> EvRun(s)
               [] Profile = "lost" -> EvLost(s)
               [] Profile = "stream" -> EvStream(s)
               [] Profile = "all" -> IF Len(s.heap) < 14 /\ (\A q \in QNames(s) : Len(s.queues[q].cmds) < 14)
                                     THEN EvAll(s) ELSE EvQueue(s) \ {Mk}

(* ------------------------------------------------------------ properties *)
(* C01 *)
UniqueIds == \A a, b \in DOMAIN st.reg : (st.reg[a] = st.reg[b]) => a = b
RegistryResolves == \A a \in DOMAIN st.reg : st.heap[st.reg[a]].id = a
NextIsFree == st.next \notin DOMAIN st.reg
(* C04 *)
ActiveExists == st.active = "none" \/ st.active \in DOMAIN st.queues
(* C03 *)
OnlyAdmitted == \A q \in DOMAIN st.queues : \A i \in 1..Len(st.queues[q].cmds) :
                  \A j \in 1..Len(st.queues[q].cmds[i].p) :
                     st.queues[q].cmds[i].p[j].c # "!"
(* C07: a saved stream refers to nothing it has not created, provided the  *)
(* queue it was saved from was itself closed.                              *)
Closed(cmds) == \A i \in 1..Len(cmds) : \A j \in 1..Len(cmds[i].p) :
                   cmds[i].p[j].t = "ref" =>
                     \E k \in 1..(i - 1) : IsCreation(cmds[k].m) /\ ToString(cmds[k].id) = cmds[i].p[j].v
FilesHaveNoPending == \A f \in DOMAIN st.files : \A i \in 1..Len(st.files[f]) :
                        \A j \in 1..Len(st.files[f][i].p) : st.files[f][i].p[j].c = ""
SavedClosed == \A q \in DOMAIN st.queues : Closed(st.queues[q].cmds) =>
                  Closed(Dump(st, st.queues[q].cmds, 1, <<>>).out)
(* C06: saving what was loaded writes the same stream                       *)
Fixpoint == \A f \in DOMAIN st.files :
              LET d == Dump(st, st.files[f], 1, <<>>) IN d.out = st.files[f] /\ d.s = st
(* C05: replaying a closed queue of creations twice gives the same objects  *)
ReplayDeterministic == \A q \in DOMAIN st.queues :
   LET cs == st.queues[q].cmds
       a == RunFrom([st EXCEPT !.reg = Empty, !.heap = <<>>], cs, 1, "")
       b == RunFrom([st EXCEPT !.reg = Empty, !.heap = <<>>, !.queues = Empty,
                               !.rec = ~@, !.active = "none"], cs, 1, "")
   IN a.s.heap = b.s.heap /\ a.err = b.err

Inv == UniqueIds /\ RegistryResolves /\ NextIsFree /\ ActiveExists /\ OnlyAdmitted
       /\ FilesHaveNoPending /\ SavedClosed /\ Fixpoint /\ ReplayDeterministic

(* -------------------------------------------------------- specification  *)
GenInit == st = Init0 /\ hist = <<>> /\ l = 0 /\ tid = 0 /\ skip = FALSE
GenNext == /\ Len(hist) < MaxDepth
           /\ \E e \in Pick(Events(st)) : /\ hist' = Append(hist, e)
                                    /\ st' = Do(st, e).st
           /\ UNCHANGED <<l, tid, skip>>
GenSpec == GenInit /\ [][GenNext]_vars
View == <<st, Len(hist)>>
Emit == EmitPath(hist')

(* number of conversions that are pending in a sequence of commands         *)
RECURSIVE Pending(_)
Pending(cmds) == IF cmds = <<>> THEN 0
                 ELSE Cardinality({j \in 1..Len(cmds[1].p) : cmds[1].p[j].c # ""})
                      + Pending(Tail(cmds))
ClosedObs(cmds) == \A i \in 1..Len(cmds) : \A p \in cmds[i].p :
                   p.t = "ref" =>
                     \E k \in 1..(i - 1) : IsCreation(cmds[k].m) /\ ToString(cmds[k].id) = p.v

(* queues never change but by recording, empty, load, or foreign pushes     *)
Bad(e, r) ==
  LET o == e.o
      x == r.o
      xq == {[name |-> q.name, ro |-> q.ro,
              cmds |-> [i \in 1..Len(q.cmds) |-> [m |-> q.cmds[i].m, id |-> q.cmds[i].id,
                                                  p |-> ToSet(q.cmds[i].p)]]] : q \in ToSet(o.queues)}
      os == [i \in 1..Len(o.stream) |-> [m |-> o.stream[i].m, id |-> o.stream[i].id,
                                         p |-> ToSet(o.stream[i].p)]]
      run == e.ev = "run"
      names(s) == {q.name : q \in s}
      cmdsOf(s) == {<<q.name, q.cmds>> : q \in s}
      roOf(s) == {<<q.name, q.ro>> : q \in s}
  IN (IF o.err # x.err THEN {IF run THEN "run-error" ELSE IF e.ev \in {"save", "load"} THEN "io-error"
                             ELSE IF "ValueError" \in {o.err, x.err} THEN "admission" ELSE "error"} ELSE {})
     \cup (IF o.ret # x.ret THEN {IF e.ev \in {"create", "call"} THEN "return" ELSE "handle"} ELSE {})
     \cup (IF [i \in 1..Len(o.insts) |-> o.insts[i].id] # [i \in 1..Len(x.insts) |-> x.insts[i].id]
           THEN {IF run THEN "run-ids" ELSE "ids"} ELSE {})
     \cup (IF {<<p[1], p[2]>> : p \in ToSet(o.reg)} # x.reg
           THEN {IF run THEN "run-registry" ELSE "registry"} ELSE {})
     \cup (IF [i \in 1..Len(o.insts) |-> [o.insts[i] EXCEPT !.id = 0]]
              # [i \in 1..Len(x.insts) |-> [x.insts[i] EXCEPT !.id = 0]]
           THEN {IF run THEN "run-objects" ELSE "effect"} ELSE {})
     \cup (IF ~o.regok THEN {IF run THEN "run-registry" ELSE "registry"} ELSE {})
     \cup (IF o.active # x.active THEN {IF run THEN "run-active" ELSE "active"} ELSE {})
     \cup (IF names(xq) # names(x.queues) THEN {"queue-names"} ELSE {})
     \cup (IF cmdsOf(xq) # cmdsOf(x.queues)
           THEN {IF run THEN "run-recorded" ELSE IF e.ev \in {"create", "call"} THEN "recorded"
                 ELSE IF e.ev = "load" THEN "loaded" ELSE IF e.ev = "save" THEN "save-changes-queue"
                 ELSE "queue-contents"} ELSE {})
     \cup (IF roOf(xq) # roOf(x.queues) THEN {IF run THEN "run-mode" ELSE "mode"} ELSE {})
     \cup (IF os # x.stream THEN {"stream"} ELSE {})
     \cup (IF ~o.cidok THEN {"command-ids"} ELSE {})
     \cup (IF e.ev = "save" /\ o.conv # Pending(r.st.queues[Target(r.st, e)].cmds)
           THEN {"conversions"} ELSE {})
     \cup (IF run /\ o.err = "" /\ o.conv # Pending(st.queues[e.name].cmds)
           THEN {"conversions"} ELSE {})
     \cup (IF ~run /\ e.ev # "save" /\ o.conv # 0 THEN {"conversions"} ELSE {})
     \cup (IF e.ev = "save" /\ Closed(r.st.queues[Target(r.st, e)].cmds) /\ ~ClosedObs(os)
           THEN {"dangling"} ELSE {})

TraceInit == st = Init0 /\ hist = <<>> /\ l = 0 /\ tid = 0 /\ skip = FALSE
TraceNext ==
  /\ l < Len(Log)
  /\ l' = l + 1 /\ hist' = <<>>
  /\ LET e == Log[l + 1] IN
     /\ tid' = e.tid
     /\ IF e.ev = "begin" THEN st' = Init0 /\ skip' = FALSE
        ELSE IF skip THEN UNCHANGED <<st, skip>>
        ELSE \E r \in {Do(st, e)} : \E bad \in {Bad(e, r)} :
                /\ st' = r.st
                /\ skip' = (bad # {})
                /\ bad # {} => Report(e.nn, e, SetToSeq(bad), r.o)
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceInv == UniqueIds /\ RegistryResolves
=============================================================================
