----------------------------- MODULE Transform -----------------------------
(***************************************************************************)
(* Transforms: chaining, binding, copy, arithmetic, units and evaluation.  *)
(*                                                                         *)
(* A heap of transforms refers to each other by `next' (applied first),    *)
(* operands and bound transforms; handles are the transforms the user      *)
(* holds.  Calls and arithmetic work on deep copies: a handle never        *)
(* changes but through its own setters (or those of a transform it was     *)
(* explicitly linked to).  Values are arrays of rationals.                 *)
(***************************************************************************)
EXTENDS Conf

VARIABLES st, hist, l, tid, skip
vars == <<st, hist, l, tid, skip>>
Profile == IOEnv.PROFILE

(* ----------------------------------------------------------------- values *)
Num(sh, d) == [k |-> "num", sh |-> sh, d |-> d]
Ints(sh, d) == Num(sh, [i \in 1..Len(d) |-> Q(d[i])])
Struc(sh, f) == [k |-> "struct", sh |-> sh, d |-> <<>>, f |-> f]
Err == [k |-> "error", sh |-> <<>>, d |-> <<>>]
Val(n) ==
  CASE n = "A" -> Ints(<<3, 4>>, <<1, 2, 3, 4, 5, 7, 9, 11, 6, 4, 2, 8>>)
    [] n = "B" -> Ints(<<2, 3>>, <<4, 2, 10, 6, 8, 12>>)      \* a gsp Buffer
    [] n = "C" -> Ints(<<4, 2>>, <<8, 2, 4, 4, 16, 6, 2, 1>>)
    [] n = "T" -> Ints(<<3>>, <<10, 20, 5>>)                  \* a tuple
    [] n = "U" -> Ints(<<2>>, <<6, 4>>)                       \* a tuple
    [] n = "f" -> Num(<<>>, << <<5, 2>> >>)
    [] n = "i" -> Num(<<>>, << Q(4) >>)
    [] n = "z" -> Num(<<>>, << Q(0) >>)
    [] n = "-1" -> Num(<<>>, << Q(-1) >>)
    [] n = "n" -> Num(<<>>, << Q(-3) >>)
    [] n = "S" -> Struc(<<3>>, << <<"x", Ints(<<3>>, <<1, 2, 3>>)>>, <<"y", Ints(<<3>>, <<4, 6, 8>>)>>,
                                 <<"pos", Ints(<<3, 2>>, <<7, 1, 5, 2, 3, 9>>)>> >>)
    [] n = "N" -> \* a structure in a structure, in another order
         Struc(<<3>>, << <<"pos", Struc(<<3>>, << <<"y", Ints(<<3>>, <<2, 4, 1>>)>>, <<"b", Ints(<<3>>, <<3, 9, 8>>)>>,
                                                 <<"x", Ints(<<3>>, <<6, 5, 7>>)>> >>)>>,
                         <<"x", Ints(<<3>>, <<1, 0, 2>>)>> >>)
    [] n = "screen" -> Ints(<<3, 3>>, <<1, 2, 8, 3, 5, 2, 9, 4, 6>>)
    [] n = "color" -> Ints(<<2, 4>>, <<1, 0, 0, 1, 0, 2, 3, 4>>)
Size(v) == Len(v.d)
Skip == [k |-> "skip", sh |-> <<>>, d |-> <<>>]  \* not specified

(* components: b is the 0-based last index                                  *)
RowLen(v) == v.sh[Len(v.sh)]
Pick1(v, b) ==
  IF v.k # "num" \/ v.sh = <<>> THEN Err
  ELSE IF b >= RowLen(v) THEN Err
  ELSE Num(SubSeq(v.sh, 1, Len(v.sh) - 1),
           [i \in 1..(Size(v) \div RowLen(v)) |-> v.d[(i - 1) * RowLen(v) + b + 1]])
PickMany(v, bs) ==
  IF v.k # "num" \/ v.sh = <<>> THEN Err
  ELSE IF \E j \in 1..Len(bs) : bs[j] >= RowLen(v) THEN Err
  ELSE Num([v.sh EXCEPT ![Len(v.sh)] = Len(bs)],
           [i \in 1..((Size(v) \div RowLen(v)) * Len(bs)) |->
              v.d[((i - 1) \div Len(bs)) * RowLen(v) + bs[((i - 1) % Len(bs)) + 1] + 1]])
Comp(key) == CASE key \in {"x", "r"} -> 0 [] key \in {"y", "g"} -> 1
               [] key \in {"z", "b"} -> 2 [] key \in {"w", "a"} -> 3 [] OTHER -> 99
Access(v, key) ==
  IF v.k = "struct"
  THEN (IF \E j \in 1..Len(v.f) : v.f[j][1] = key
        THEN v.f[CHOOSE j \in 1..Len(v.f) : v.f[j][1] = key][2] ELSE Err)
  ELSE IF v.k \in {"error", "skip"} THEN v
  ELSE Pick1(v, Comp(key))

(* the items (0-based) of a value: <<>> stands for all of them              *)
RECURSIVE Items(_, _)
Items(v, ix) ==
  IF ix = <<>> \/ v.k \in {"error", "skip"} THEN v
  ELSE IF v.sh = <<>> \/ (\E j \in 1..Len(ix) : ix[j] >= v.sh[1]) THEN Err
  ELSE IF v.k = "struct"
  THEN Struc([v.sh EXCEPT ![1] = Len(ix)], [j \in 1..Len(v.f) |-> <<v.f[j][1], Items(v.f[j][2], ix)>>])
  ELSE LET n == Size(v) \div v.sh[1]
       IN Num([v.sh EXCEPT ![1] = Len(ix)],
              [i \in 1..(n * Len(ix)) |-> v.d[ix[((i - 1) \div n) + 1] * n + ((i - 1) % n) + 1]])

(* broadcast of two arrays (at most two dimensions)                         *)
Dim(v, i) == \* i = 1: last dimension, i = 2: the one before
  IF Len(v.sh) < i THEN 1 ELSE v.sh[Len(v.sh) + 1 - i]
BinOp(op, a, b) ==
  IF a.k = "skip" \/ b.k = "skip" THEN Skip
  ELSE IF a.k # "num" \/ b.k # "num" THEN Err
  ELSE LET rc(i) == Max2(Dim(a, i), Dim(b, i))
           ok(i) == Dim(a, i) = Dim(b, i) \/ Dim(a, i) = 1 \/ Dim(b, i) = 1
           nd == Max2(Len(a.sh), Len(b.sh))
           at(v, r, c) == v.d[(IF Dim(v, 2) = 1 THEN 0 ELSE r) * Dim(v, 1)
                              + (IF Dim(v, 1) = 1 THEN 0 ELSE c) + 1]
           f(x, y) == CASE op = "Add" -> QAdd(x, y) [] op = "Sub" -> QSub(x, y)
                        [] op = "Mul" -> QMul(x, y) [] op = "Div" -> QDiv(x, y)
       IN IF ~(ok(1) /\ ok(2)) THEN Err
          ELSE Num(IF nd = 0 THEN <<>> ELSE IF nd = 1 THEN <<rc(1)>> ELSE <<rc(2), rc(1)>>,
                   [i \in 1..(rc(1) * rc(2)) |->
                      LET r == (i - 1) \div rc(1) c == (i - 1) % rc(1)
                      IN f(at(a, r, c), at(b, r, c))])

(* ------------------------------------------------------------- evaluation *)
(* environments: what a visual or a viewport gives to the transforms        *)
Env(n) ==
  CASE n = "none" -> [ix |-> <<>>, vars |-> <<>>, dpi |-> 0, w |-> 0, h |-> 0, sx |-> Q(1), sy |-> Q(1)]
    [] n = "visual" -> \* a visual rendered in a 127 x 50 pixels viewport
         [ix |-> <<>>, vars |-> <<"screen", "color">>, dpi |-> 127, w |-> 127, h |-> 50,
          sx |-> Q(2), sy |-> Q(2)]
    [] n = "visual-tall" -> \* 64 x 128 pixels at 5 dpi
         [ix |-> <<>>, vars |-> <<"screen">>, dpi |-> 5, w |-> 64, h |-> 128, sx |-> Q(2), sy |-> Q(2)]
    [] n = "visual-zoomed" -> \* 100 x 40 pixels showing [-3, 1] x [0, 1/2]
         [ix |-> <<>>, vars |-> <<"screen">>, dpi |-> 9, w |-> 100, h |-> 40, sx |-> Q(4), sy |-> <<1, 2>>]
    [] n = "canvas" -> [ix |-> <<>>, vars |-> <<>>, dpi |-> 127, w |-> 254, h |-> 100, sx |-> Q(1), sy |-> Q(1)]
    [] n = "canvas-x" -> [ix |-> <<>>, vars |-> <<>>, dpi |-> 127, w |-> 254, h |-> 254, sx |-> Q(1), sy |-> Q(1)]
    [] n = "items" -> \* some items of the visual only
         [ix |-> <<2, 0, 1, 1>>, vars |-> <<"screen", "color">>, dpi |-> 127, w |-> 127, h |-> 50,
          sx |-> Q(2), sy |-> Q(2)]
    [] n = "dpi" -> [ix |-> <<>>, vars |-> <<>>, dpi |-> 9, w |-> 1, h |-> 1, sx |-> Q(1), sy |-> Q(1)]
Var(env, n) == IF n \in ToSet(env.vars) THEN Val(n) ELSE Err

Unit(c, dpi) ==
  CASE c \in {"Pixel", "Measure"} -> Q(1) [] c = "Inch" -> Q(dpi) [] c = "Point" -> QN(dpi, 72)
    [] c = "Centimeter" -> QN(dpi * 50, 127) [] c = "Millimeter" -> QN(dpi * 5, 127)
    [] c = "Meter" -> QN(dpi * 5000, 127) [] c = "Kilometer" -> QMul(Q(1000), QN(dpi * 5000, 127))
Units == {"Pixel", "Inch", "Point", "Centimeter", "Millimeter", "Meter", "Kilometer", "Measure"}
Measured(c, v, env) ==
  IF v.k = "skip" THEN v
  ELSE IF env.dpi = 0 \/ v.k # "num" THEN Err
  ELSE LET ax == <<QMul(Unit(c, env.dpi), QMul(env.sx, <<1, env.w>>)),
                   QMul(Unit(c, env.dpi), QMul(env.sy, <<1, env.h>>)), Q(0)>>
           n == IF v.sh = <<>> THEN 1 ELSE RowLen(v)
       IN IF n > 3 THEN Err
          ELSE Num(v.sh, [i \in 1..Size(v) |-> QMul(QN(ax[((i - 1) % n) + 1][1], ax[((i - 1) % n) + 1][2]), v.d[i])])

(* index in a map of 256 colors                                             *)
Level(v, lo, hi) ==
  IF lo = hi THEN (IF QLt(v, lo) \/ v = lo THEN 0 ELSE 255)
  ELSE LET x == QDiv(QSub(v, lo), QSub(hi, lo)) IN
       IF QLt(x, Q(0)) THEN 0 ELSE Min2(255, (256 * x[1]) \div x[2])
QMinSeq(d) == CHOOSE x \in ToSet(d) : \A y \in ToSet(d) : QLe(x, y)
QMaxSeq(d) == CHOOSE x \in ToSet(d) : \A y \in ToSet(d) : QLe(y, x)
Mapped(o, v) ==
  IF v.k = "skip" THEN v
  ELSE IF v.k # "num" THEN Err
  ELSE LET lo == IF o.lo = 99 THEN QMinSeq(v.d) ELSE Q(o.lo)
           hi == IF o.hi = 99 THEN QMaxSeq(v.d) ELSE Q(o.hi)
       IN IF v.sh = <<>> \/ lo = hi THEN Skip
          ELSE IF QLt(hi, lo) THEN Err
          ELSE [k |-> o.key, sh |-> v.sh, d |-> [i \in 1..Size(v) |-> Q(Level(v.d[i], lo, hi))]]

Accessors == {"X", "Y", "Z", "W", "R", "G", "B", "A", "Accessor"}
Ops == {"Add", "Sub", "Mul", "Div"}
None == [k |-> "none", v |-> "", o |-> 0]
Cst(v) == [k |-> "value", v |-> v, o |-> 0]
Ref(o) == [k |-> "ref", v |-> "", o |-> o]

RECURSIVE Fam(_, _)
Fam(os, i) ==  \* families of transforms found below i
  LET o == os[i]
      f(x) == IF x.k = "ref" THEN Fam(os, x.o) ELSE {}
  IN (IF o.c \in Accessors THEN {"accessor"} ELSE {}) \cup
     {IF o.c \in Ops THEN "arith" ELSE IF o.c \in Units THEN "units" ELSE "access"}
     \cup f(o.left) \cup f(o.right) \cup f(o.buf)
     \cup (IF o.next = 0 THEN {} ELSE Fam(os, o.next))

(* items are designated among those of the source of an accessor (what this *)
(* means for an accessor of what an accessor gives is not specified)        *)
RECURSIVE Ev(_, _, _)
Operand(os, x, env) == CASE x.k = "ref" -> Ev(os, x.o, env) [] x.k = "value" -> Val(x.v) [] OTHER -> Err
Ev(os, i, env) ==
  LET o == os[i]
      src == IF o.next # 0 THEN Ev(os, o.next, env)
             ELSE IF o.buf.k = "none" THEN Err ELSE Operand(os, o.buf, env)
      below == (IF o.next = 0 THEN {} ELSE Fam(os, o.next)) \cup (IF o.buf.k = "ref" THEN Fam(os, o.buf.o) ELSE {})
  IN CASE o.c \in Accessors -> IF env.ix # <<>> /\ "accessor" \in below THEN Skip ELSE Items(Access(src, o.key), env.ix)
       [] o.c = "Out" -> LET v == Var(env, o.key)
                         IN IF o.sub = <<>> THEN v ELSE IF o.sub = <<99>> THEN Err ELSE PickMany(v, o.sub)
       [] o.c \in Units -> Measured(o.c, IF o.next = 0 /\ o.buf.k = "none" THEN Num(<<>>, <<Q(1)>>) ELSE src, env)
       [] o.c = "Colormap" -> IF o.next = 0 /\ o.buf.k = "none" THEN Skip ELSE Mapped(o, src)
       [] o.c \in Ops -> BinOp(o.c, Operand(os, o.left, env), Operand(os, o.right, env))

(* ------------------------------------------------------------------- heap *)
Obj(c) == [c |-> c, key |-> "", sub |-> <<>>, lo |-> 99, hi |-> 99, base |-> 0, next |-> 0,
           buf |-> None, left |-> None, right |-> None]
RECURSIVE BaseOf(_, _)
BaseOf(os, i) == IF os[i].base = 0 THEN i ELSE BaseOf(os, os[i].base)   \* the original
RECURSIVE Bases(_, _)
Bases(os, i) == {i} \cup (IF os[i].base = 0 THEN {} ELSE Bases(os, os[i].base))
RECURSIVE Tip(_, _)
Tip(os, i) == IF os[i].next = 0 THEN i ELSE Tip(os, os[i].next)
RECURSIVE IsBound(_, _)
IsBound(os, i) ==
  LET o == os[i]
      ok(x) == x.k # "ref" \/ IsBound(os, x.o)
  IN IF o.c \in Ops THEN ok(o.left) /\ ok(o.right)
     ELSE IF o.next # 0 THEN IsBound(os, o.next) ELSE o.buf.k # "none"
(* deep copy: [os, i]                                                       *)
RECURSIVE Copy(_, _)
CopyOperand(os, x) == IF x.k = "ref" THEN LET r == Copy(os, x.o) IN [os |-> r.os, x |-> Ref(r.i)]
                      ELSE [os |-> os, x |-> x]
Copy(os, i) ==
  LET o == os[i]
      n == IF o.next = 0 THEN [os |-> os, i |-> 0] ELSE Copy(os, o.next)
      a == IF o.c \in Ops THEN CopyOperand(n.os, o.left) ELSE [os |-> n.os, x |-> None]
      b == IF o.c \in Ops THEN CopyOperand(a.os, o.right) ELSE [os |-> a.os, x |-> None]
  IN [os |-> Append(b.os, [o EXCEPT !.base = BaseOf(os, i), !.next = n.i, !.left = a.x, !.right = b.x]),
      i |-> Len(b.os) + 1]

(* state: heap and handles                                                  *)
Init0 == [os |-> <<>>, hs |-> <<>>]
Position(hs, i) == IF \E k \in 1..Len(hs) : hs[k] = i THEN Min({k \in 1..Len(hs) : hs[k] = i}) ELSE 0

Empty == [c |-> "none", base |-> 0, bound |-> FALSE, buf |-> "", kids |-> <<>>]
RECURSIVE Struct(_, _, _)
Kid(os, hs, x) == CASE x.k = "ref" -> Struct(os, hs, x.o)
                    [] x.k = "value" -> [Empty EXCEPT !.c = "value", !.buf = x.v]
                    [] OTHER -> Empty
Struct(os, hs, i) ==
  LET o == os[i] IN
  [c |-> o.c, base |-> Position(hs, BaseOf(os, i)), bound |-> IsBound(os, i),
   buf |-> IF o.buf.k = "ref" THEN "transform" ELSE o.buf.v,
   kids |-> IF o.c \in Ops THEN <<Kid(os, hs, o.left), Kid(os, hs, o.right)>>
            ELSE IF o.next # 0 THEN <<Struct(os, hs, o.next)>>
            ELSE IF o.buf.k = "ref" THEN <<Struct(os, hs, o.buf.o)>> ELSE <<>>]

Obs(s, err, val) == [err |-> err, hs |-> [k \in 1..Len(s.hs) |-> Struct(s.os, s.hs, s.hs[k])], val |-> val]
R(s, err, val) == [st |-> s, o |-> Obs(s, err, val)]
NoVal == [k |-> "", sh |-> <<>>, d |-> <<>>]
Hold(s, os, i) == [os |-> os, hs |-> Append(s.hs, i)]

\* operand given by an event: [t |-> "h", h |-> handle] or [t |-> "v", v |-> value]
Arg(s, a) == CASE a.t = "h" -> Ref(s.hs[a.h]) [] a.t = "v" -> Cst(a.v) [] OTHER -> None
MakeOp(s, c, x, y) ==
  LET a == CopyOperand(s.os, x)
      b == CopyOperand(a.os, y)
  IN Hold(s, Append(b.os, [Obj(c) EXCEPT !.left = a.x, !.right = b.x]), Len(b.os) + 1)

Call(s, h, arg) ==
  LET i == s.hs[h] IN
  IF s.os[i].c = "Out" THEN R(s, "ValueError", NoVal)
  ELSE IF arg.t = "h"
  THEN LET a == Copy(s.os, i)
           b == Copy(a.os, s.hs[arg.h])
           la == Tip(a.os, a.i)
       IN R(Hold(s, [b.os EXCEPT ![la].next = b.i, ![la].buf = None], a.i), "", NoVal)
  ELSE IF IsBound(s.os, i) THEN R(s, "ValueError", NoVal)
  ELSE LET a == Copy(s.os, i) la == Tip(a.os, a.i)
       IN R(Hold(s, [a.os EXCEPT ![la].buf = Cst(arg.v)], a.i), "", NoVal)

Do(s, e) ==
  CASE e.ev = "new" ->
        R(Hold(s, Append(s.os, [Obj(e.c) EXCEPT !.key = e.key, !.sub = e.sub, !.lo = e.lo, !.hi = e.hi,
                                               !.buf = Arg(s, e.arg)]), Len(s.os) + 1), "", NoVal)
    [] e.ev = "newop" -> R(MakeOp(s, e.c, Arg(s, e.a), Arg(s, e.b)), "", NoVal)
    [] e.ev = "call" -> Call(s, e.h, e.arg)
    [] e.ev = "arith" ->   \* a op b where a and b are handles or constants
        LET unit(x) == x.t = "h" /\ s.os[s.hs[x.h]].c \in Units IN
        IF e.op = "Mul" /\ ((unit(e.a) /\ e.b.t = "v") \/ (unit(e.b) /\ e.a.t = "v"))
        THEN (IF unit(e.a) THEN Call(s, e.a.h, e.b) ELSE Call(s, e.b.h, e.a))
        ELSE IF e.op = "Add" /\ e.a.t = "v" THEN R(MakeOp(s, e.op, Arg(s, e.b), Arg(s, e.a)), "", NoVal)
        ELSE R(MakeOp(s, e.op, Arg(s, e.a), Arg(s, e.b)), "", NoVal)
    [] e.ev = "neg" -> R(MakeOp(s, "Mul", Ref(s.hs[e.h]), Cst("-1")), "", NoVal)
    [] e.ev = "copy" -> LET a == Copy(s.os, s.hs[e.h]) IN R(Hold(s, a.os, a.i), "", NoVal)
    [] e.ev = "set_buffer" -> R([s EXCEPT !.os[s.hs[e.h]].buf = Arg(s, e.arg)], "", NoVal)
    [] e.ev = "set_next" -> R([s EXCEPT !.os[s.hs[e.h]].next = IF e.arg.t = "h" THEN s.hs[e.arg.h] ELSE 0], "", NoVal)
    [] e.ev = "set_base" -> R([s EXCEPT !.os[s.hs[e.h]].base = IF e.arg.t = "h" THEN s.hs[e.arg.h] ELSE 0], "", NoVal)
    [] e.ev = "set_left" -> R([s EXCEPT !.os[s.hs[e.h]].left = Arg(s, e.arg)], "", NoVal)
    [] e.ev = "set_right" -> R([s EXCEPT !.os[s.hs[e.h]].right = Arg(s, e.arg)], "", NoVal)
    [] e.ev = "set_colormap" -> R([s EXCEPT !.os[s.hs[e.h]].key = e.key], "", NoVal)
    [] e.ev = "eval" ->
        LET v == Ev(s.os, s.hs[e.h], Env(e.env)) IN
        R(s, IF v.k = "error" THEN "Error" ELSE "", IF v.k = "error" THEN NoVal ELSE v)

(* ------------------------------------------------------ events to explore *)
H(i) == [t |-> "h", h |-> i]
Vv(v) == [t |-> "v", v |-> v]
No == [t |-> "none"]
NewEv(c, key, sub, lo, hi, arg) ==
  [ev |-> "new", c |-> c, key |-> key, sub |-> sub, lo |-> lo, hi |-> hi, arg |-> arg]
KeyOf(c) == CASE c = "X" -> "x" [] c = "Y" -> "y" [] c = "Z" -> "z" [] c = "W" -> "w"
              [] c = "R" -> "r" [] c = "G" -> "g" [] c = "B" -> "b" [] c = "A" -> "a" [] OTHER -> ""
Acc(c, arg) == NewEv(c, KeyOf(c), <<>>, 99, 99, arg)
Hs(s) == 1..Len(s.hs)
C(s, h) == s.os[s.hs[h]].c
RECURSIVE Count(_, _)
Count(os, i) == LET o == os[i]
                    f(x) == IF x.k = "ref" THEN Count(os, x.o) ELSE 0
                IN 1 + f(o.left) + f(o.right) + f(o.buf) + (IF o.next = 0 THEN 0 ELSE Count(os, o.next))
RECURSIVE Reach(_, _)
Reach(os, i) == LET o == os[i]
                    f(x) == IF x.k = "ref" THEN Reach(os, x.o) ELSE {}
                IN {i} \cup f(o.left) \cup f(o.right) \cup f(o.buf)
                       \cup (IF o.next = 0 THEN {} ELSE Reach(os, o.next))
Size1(s, h) == Count(s.os, s.hs[h])
Chainable(s, h) == C(s, h) = "Out" \/ s.os[Tip(s.os, s.hs[h])].c \notin (Ops \cup {"Out"})
\* what may be given to a transform of this class
Feeds(c, s, h) == CASE c \in Accessors -> C(s, h) \in (Accessors \cup {"Out"} \cup Ops)
                    [] c = "Colormap" -> C(s, h) \in (Accessors \cup {"Out"} \cup Ops)
                    [] c \in Units -> C(s, h) \in (Accessors \cup {"Out"} \cup Ops) /\ "units" \notin Fam(s.os, s.hs[h])
                    [] OTHER -> TRUE
MaxH == CASE Profile = "deep" -> 7 [] OTHER -> 4
MaxSize == CASE Profile = "deep" -> 6 [] OTHER -> 4

Classes ==
  CASE Profile = "chain" ->
        {Acc("X", No), Acc("Y", Vv("A")), NewEv("Accessor", "pos", <<>>, 99, 99, No),
         NewEv("Out", "screen", <<>>, 99, 99, No), NewEv("Colormap", "viridis", <<>>, 99, 99, No),
         Acc("Pixel", No)}
    [] Profile = "units" -> {Acc(u, No) : u \in Units} \cup {Acc("X", Vv("A"))}
    [] Profile = "arith" -> {Acc("X", Vv("A")), Acc("Y", Vv("A")), Acc("Z", No), Acc("Pixel", No)}
    [] Profile = "bases" -> {Acc("X", No)}
    [] Profile = "maps" ->
        {Acc("X", No), Acc("B", No), NewEv("Accessor", "pos", <<>>, 99, 99, No), NewEv("Accessor", "pos", <<>>, 99, 99, Vv("N")),
         NewEv("Accessor", "pos", <<>>, 99, 99, Vv("S")), NewEv("Out", "screen", <<>>, 99, 99, No),
         NewEv("Out", "color", <<2, 0>>, 99, 99, No),
         NewEv("Colormap", "viridis", <<>>, 99, 99, No), NewEv("Colormap", "gray", <<>>, 0, 8, No)}
    [] Profile = "access" ->
        {Acc(c, b) : c \in Accessors \ {"Accessor"}, b \in {No, Vv("A"), Vv("B"), Vv("S"), Vv("C")}}
        \cup {NewEv("Accessor", k, <<>>, 99, 99, b) :
               k \in {"x", "b", "pos", "xy", "q", "", "wrong"}, b \in {No, Vv("A"), Vv("S"), Vv("N")}}
        \cup {NewEv("Out", n, sub, 99, 99, No) :
               n \in {"screen", "color", "missing"},
               sub \in {<<>>, <<0>>, <<2>>, <<2, 0>>, <<0, 1, 2>>, <<1, 1>>, <<3>>, <<99>>}}
        \cup {NewEv("Colormap", m, <<>>, lo, hi, No) : m \in {"viridis", "gray"},
               lo \in {99, 0, 1, 4, -4}, hi \in {99, 8, 0, 12}}
    [] OTHER ->
        {Acc(c, b) : c \in {"X", "Y", "Z", "W"}, b \in {No, Vv("A"), Vv("B")}}
        \cup {Acc(c, No) : c \in {"Pixel", "Inch", "Centimeter", "Point"}}
        \cup {NewEv("Out", "screen", <<>>, 99, 99, No), NewEv("Out", "screen", <<1>>, 99, 99, No),
              NewEv("Accessor", "pos", <<>>, 99, 99, No),
              NewEv("Colormap", "gray", <<>>, 99, 99, No), NewEv("Colormap", "viridis", <<>>, 0, 12, No)}

BindVals(c) == CASE c \in Units -> {"f", "i", "T", "U", "B", "C", "z"}
                 [] c = "Colormap" -> {"A", "B"}
                 [] Profile = "maps" -> {"A", "N"}
                 [] OTHER -> {"A", "S", "B", "z"}
FreshBuf(s) == {Acc(c, H(h)) : c \in {"X", "Y"}, h \in {x \in Hs(s) : C(s, x) \in (Accessors \cup {"Out"})
                                                              /\ Size1(s, x) < MaxSize}}
Creations(s) == IF Len(s.hs) >= MaxH THEN {} ELSE
  (Classes \cup (IF Profile \in {"chain", "deep"} THEN FreshBuf(s) ELSE {}))
Calls(s) == IF Len(s.hs) >= MaxH THEN {} ELSE
  UNION {{[ev |-> "call", h |-> h, arg |-> Vv(v)] : v \in BindVals(C(s, h))}
         \cup {[ev |-> "call", h |-> h, arg |-> H(g)] :
                 g \in {x \in Hs(s) : Feeds(s.os[Tip(s.os, s.hs[h])].c, s, x)
                                      /\ Size1(s, h) + Size1(s, x) <= MaxSize}}
         : h \in {x \in Hs(s) : Chainable(s, x) /\ C(s, x) \notin Ops}}
Copies(s) == IF Len(s.hs) >= MaxH THEN {} ELSE {[ev |-> "copy", h |-> h] : h \in Hs(s)}
Setters(s) ==
  UNION {{[ev |-> "set_buffer", h |-> h, arg |-> x] : x \in {No} \cup {Vv(v) : v \in BindVals(C(s, h))}}
         \cup {[ev |-> "set_next", h |-> h, arg |-> No]}
         \cup {[ev |-> "set_next", h |-> h, arg |-> H(g)] :
                 g \in {x \in Hs(s) : x # h /\ s.hs[h] \notin Reach(s.os, s.hs[x]) /\ Feeds(C(s, h), s, x)
                                      /\ Size1(s, h) + Size1(s, x) <= MaxSize}}
         : h \in {x \in Hs(s) : C(s, x) \notin (Ops \cup {"Out"})}}
  \cup UNION {{[ev |-> "set_colormap", h |-> h, key |-> k] : k \in {"gray", "viridis"}}
         : h \in {x \in Hs(s) : C(s, x) = "Colormap"}}
SetBases(s) ==
  UNION {{[ev |-> "set_base", h |-> h, arg |-> No]}
         \cup {[ev |-> "set_base", h |-> h, arg |-> H(g)] :
                 g \in {x \in Hs(s) : s.hs[h] \notin Bases(s.os, s.hs[x])}} : h \in Hs(s)}
OpSetters(s) ==
  UNION {{[ev |-> m, h |-> h, arg |-> Vv(v)] : m \in {"set_left", "set_right"}, v \in {"i", "B"}}
         \cup {[ev |-> "set_left", h |-> h, arg |-> H(g)] :
                 g \in {x \in Hs(s) : x # h /\ s.hs[h] \notin Reach(s.os, s.hs[x])
                                      /\ C(s, x) \in (Accessors \cup Ops) /\ "units" \notin Fam(s.os, s.hs[x])
                                      /\ Size1(s, h) + Size1(s, x) <= MaxSize}}
         : h \in {x \in Hs(s) : C(s, x) \in Ops}}
Pure(s, h) == C(s, h) \in (Accessors \cup Ops)
Factor(s, h) == C(s, h) \in Accessors /\ Size1(s, h) = 1
Arithmetic(s) == IF Len(s.hs) >= MaxH THEN {} ELSE
  UNION {LET small == Size1(s, h) < MaxSize IN
     IF ~small THEN {} ELSE
     {[ev |-> "arith", op |-> op, a |-> H(h), b |-> Vv(v)] : op \in Ops, v \in {"i", "f", "n"}}
     \cup {[ev |-> "arith", op |-> op, a |-> Vv(v), b |-> H(h)] : op \in {"Add", "Sub", "Mul"}, v \in {"i", "f"}}
     \cup {[ev |-> "neg", h |-> h]}
     \cup {[ev |-> "newop", c |-> op, a |-> H(h), b |-> Vv(v)] : op \in {"Add", "Sub", "Mul"}, v \in {"i", "B"}}
     \cup {[ev |-> "newop", c |-> op, a |-> Vv(v), b |-> H(h)] : op \in {"Sub", "Mul"}, v \in {"f", "B"}}
     \cup {[ev |-> "arith", op |-> op, a |-> H(h), b |-> H(g)] :
             op \in {"Add", "Sub"}, g \in {x \in Hs(s) : C(s, x) # "Colormap" /\ Size1(s, h) + Size1(s, x) < MaxSize}}
     \cup {[ev |-> "arith", op |-> op, a |-> H(h), b |-> H(g)] : op \in {"Mul", "Div"}, g \in {x \in Hs(s) : Factor(s, x)}}
   : h \in {x \in Hs(s) : Pure(s, x) \/ C(s, x) \in Units \/ C(s, x) = "Out"}}
Constants(s) == IF Len(s.hs) >= MaxH THEN {} ELSE
  {[ev |-> "newop", c |-> op, a |-> Vv(v), b |-> Vv(w)] : op \in Ops, v \in {"i", "n", "f", "B"}, w \in {"i", "n", "f"}}
Evals(s) ==
  {[ev |-> "eval", h |-> h, env |-> n] : h \in Hs(s),
     n \in CASE Profile = "units" -> {"none", "visual", "visual-tall", "visual-zoomed", "canvas", "canvas-x", "dpi"}
             [] Profile = "access" -> {"none", "visual", "items"}
             [] Profile = "maps" -> {"visual", "items"}
             [] OTHER -> {"none", "visual", "canvas", "items"}}

Events(s) ==
  CASE Profile = "chain" -> Creations(s) \cup Calls(s) \cup Copies(s) \cup Setters(s) \cup SetBases(s) \cup Evals(s)
    [] Profile = "bases" -> Creations(s) \cup Copies(s) \cup SetBases(s)
    [] Profile = "maps" -> Creations(s) \cup Calls(s) \cup Evals(s)
    [] Profile = "arith" -> Creations(s) \cup Arithmetic(s) \cup Constants(s) \cup OpSetters(s) \cup Evals(s)
    [] Profile = "units" -> Creations(s) \cup Calls(s) \cup Evals(s)
         \cup {e \in Arithmetic(s) : e.ev = "arith" /\ e.op \in {"Add", "Mul"}}
    [] Profile = "access" -> Creations(s) \cup Calls(s) \cup Evals(s)
    [] OTHER -> Creations(s) \cup Calls(s) \cup Copies(s) \cup Setters(s) \cup SetBases(s) \cup Arithmetic(s)
                \cup Constants(s) \cup OpSetters(s) \cup Evals(s)

(* no handle refers to a transform that reaches it, every base has no base, *)
(* and the copies made by the library are never shared by two handles       *)
Inv ==
  /\ \A i \in 1..Len(st.os) : st.os[i].next # i
  /\ \A i \in 1..Len(st.os) : st.os[i].base # 0 => st.os[BaseOf(st.os, i)].base = 0

Bad(e, r) ==
  LET o == e.o
      x == r.o
      fam == IF e.ev = "eval" THEN Fam(r.st.os, r.st.hs[e.h]) ELSE {}
      differs == x.val.k # "skip" /\ (o.err # x.err \/ o.val # x.val)
  IN (IF o.hs # x.hs THEN {"structure"} ELSE {})
     \cup (IF e.ev # "eval" /\ o.err # x.err THEN {"binding"} ELSE {})
     \cup (IF e.ev = "eval" /\ differs
           THEN {IF "arith" \in fam THEN "arith" ELSE IF "units" \in fam THEN "units" ELSE "access"}
           ELSE {})


(* ----------------------------------------------------------- specification *)
GenInit == st = Init0 /\ hist = <<>> /\ l = 0 /\ tid = 0 /\ skip = FALSE
GenNext == /\ Len(hist) < MaxDepth
           /\ \E e \in Pick(Events(st)) : /\ hist' = Append(hist, e)
                                          /\ st' = Do(st, e).st
           /\ UNCHANGED <<l, tid, skip>>
GenSpec == GenInit /\ [][GenNext]_vars
View == <<st, Len(hist)>>
Emit == EmitPath(hist')

TraceInit == GenInit
TraceNext ==
  /\ l < Len(Log)
  /\ l' = l + 1 /\ hist' = <<>>
  /\ LET e == Log[l + 1] IN
     /\ tid' = e.tid
     /\ IF e.ev = "begin" THEN st' = Init0 /\ skip' = FALSE
        ELSE IF skip THEN UNCHANGED <<st, skip>>
        ELSE \E r \in {Do(st, e)} : \E bad \in {Bad(e, r)} :
                /\ st' = r.st
                /\ skip' = (bad # {})
                /\ bad # {} => Report(e.nn, e, SetToSeq(bad), r.o)
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceInv == TRUE
=============================================================================
