--------------------------------- MODULE Svg ---------------------------------
(***************************************************************************)
(* Reading SVG paths (https://www.w3.org/TR/SVG/paths.html): a path is a   *)
(* sequence of commands (absolute or relative, the letter being omitted    *)
(* when a command is repeated) that move a pen.  What is read is the       *)
(* sequence of the segments drawn, scaled so that the coordinates of their *)
(* points span [-1/2, 1/2], y pointing up.                                 *)
(*                                                                         *)
(* Coordinates are integers, in halves of units.  lo, hi: span of the      *)
(* coordinates.  A "frame" is a first segment so large that it fixes them. *)
(***************************************************************************)
EXTENDS Conf

VARIABLES st, hist, l, tid, skip
vars == <<st, hist, l, tid, skip>>
Profile == IOEnv.PROFILE

P(x, y) == <<x, y>>
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Minus(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Init0 == [cur |-> P(0, 0), start |-> P(0, 0), last |-> "", rel |-> FALSE, ctl |-> P(0, 0), lo |-> 0, hi |-> 0, frame |-> FALSE, segs |-> <<>>]
Seg(k, p) == [k |-> k, p |-> p]
Line(a, b) == IF a = b THEN <<>> ELSE <<Seg("L", <<b>>)>>

(* segments drawn by a command, the pen after it and the control point that *)
(* a smooth command would reflect                                           *)
Pt(s, e, i) == LET q == P(e.p[i], e.p[i + 1]) IN IF e.rel THEN Plus(s.cur, q) ELSE q
Mirror(s, kinds) == IF s.last \in kinds THEN Minus(Plus(s.cur, s.cur), s.ctl) ELSE s.cur
D(segs, cur, ctl) == [segs |-> segs, cur |-> cur, ctl |-> ctl]
Draw(s, e) ==
  CASE e.c = "M" -> LET p == Pt(s, e, 1) IN IF s.last # "" /\ e.imp THEN D(Line(s.cur, p), p, p) ELSE D(<<Seg("M", <<p>>)>>, p, p)
    [] e.c = "L" -> LET p == Pt(s, e, 1) IN D(Line(s.cur, p), p, p)
    [] e.c = "H" -> LET p == P(IF e.rel THEN s.cur[1] + e.p[1] ELSE e.p[1], s.cur[2]) IN D(Line(s.cur, p), p, p)
    [] e.c = "V" -> LET p == P(s.cur[1], IF e.rel THEN s.cur[2] + e.p[1] ELSE e.p[1]) IN D(Line(s.cur, p), p, p)
    [] e.c = "C" -> LET a == Pt(s, e, 1) b == Pt(s, e, 3) p == Pt(s, e, 5) IN D(<<Seg("C", <<a, b, p>>)>>, p, b)
    [] e.c = "S" -> LET a == Mirror(s, {"C", "S"}) b == Pt(s, e, 1) p == Pt(s, e, 3) IN D(<<Seg("C", <<a, b, p>>)>>, p, b)
    [] e.c = "Q" -> LET a == Pt(s, e, 1) p == Pt(s, e, 3) IN D(<<Seg("Q", <<a, p>>)>>, p, a)
    [] e.c = "T" -> LET a == Mirror(s, {"Q", "T"}) p == Pt(s, e, 1) IN D(<<Seg("Q", <<a, p>>)>>, p, a)
    [] e.c = "Z" -> D(Line(s.cur, s.start) \o <<Seg("Z", <<>>)>>, s.start, s.start)
    [] e.c = "A" -> LET p == Pt(s, e, 6) IN D(IF e.p[1] = 0 \/ e.p[2] = 0 THEN Line(s.cur, p) ELSE <<>>, p, p)
Coords(segs) == UNION {UNION {{segs[i].p[j][1], segs[i].p[j][2]} : j \in 1..Len(segs[i].p)} : i \in 1..Len(segs)}
Do(s, e) ==
  IF e.ev = "frame" THEN
    LET sg == <<Seg("M", <<P(-80, -80)>>), Seg("L", <<P(80, 80)>>)>> IN
    [st |-> [s EXCEPT !.cur = P(80, 80), !.start = P(-80, -80), !.last = "L", !.lo = -80, !.hi = 80, !.frame = TRUE],
     o |-> [segs |-> sg]]
  ELSE
    LET d == Draw(s, e)
        \* (the last point of a closed path is its start)
        xs == Coords(d.segs) all == IF s.frame \/ s.last # "" THEN xs \cup {s.lo, s.hi} ELSE xs
        lo == IF all = {} THEN s.lo ELSE Min(all) hi == IF all = {} THEN s.hi ELSE Max(all)
        sg == IF s.frame THEN <<>> ELSE s.segs \o d.segs
    IN [st |-> [s EXCEPT !.cur = d.cur, !.ctl = d.ctl, !.last = IF e.c = "M" THEN "L" ELSE e.c, !.rel = e.rel, !.lo = lo, !.hi = hi, !.segs = sg,
                         !.start = IF e.c = "M" /\ ~e.imp THEN d.cur ELSE @],
        o |-> [segs |-> IF s.frame THEN d.segs ELSE sg]]

(* ------------------------------------------------------------------- arcs *)
(* Arcs explored: the ends are on the axes of the ellipse (quarters of it)  *)
(* or the radii are too small (half circles around the middle)              *)
Sq(x) == x * x
Radii(e) == IF e.p[3] = 90 THEN <<Abs(e.p[2]), Abs(e.p[1])>> ELSE <<Abs(e.p[1]), Abs(e.p[2])>>
\* possible arcs: centers with which both ends are on the ellipse
Centers(s, e) ==
  LET r == Radii(e) a == s.cur b == Pt(s, e, 6) IN
  {c \in {Plus(a, v) : v \in {P(r[1], 0), P(-r[1], 0), P(0, r[2]), P(0, -r[2])}} :
     Minus(b, c) \in {P(r[1], 0), P(-r[1], 0), P(0, r[2]), P(0, -r[2])}}
Half(s, e) == \* the ends are opposite, or too far (only circles)
  LET r == Radii(e) v == Minus(Pt(s, e, 6), s.cur) IN 4 * Sq(r[1]) * Sq(r[2]) <= Sq(v[1]) * Sq(r[2]) + Sq(v[2]) * Sq(r[1])
\* direction and quarters of an arc around c (y down: sweep is clockwise on the screen, positive angles)
Quarters(s, e, c) ==
  LET r == Radii(e) a == Minus(s.cur, c) b == Minus(Pt(s, e, 6), c)
      x == (a[1] * b[2] - a[2] * b[1]) \* sign of the turn from a to b
  IN IF x = 0 THEN 2 ELSE IF (x > 0) = (e.p[5] = 1) THEN 1 ELSE 3
\* the arc of the command: [c (doubled), r2 (doubled radii), n (quarters)]
Arc(s, e) ==
  IF Half(s, e) THEN LET v == Minus(Pt(s, e, 6), s.cur) r == Radii(e)
                         k == IF v[2] = 0 THEN Abs(v[1]) ELSE Abs(v[2]) \* along an axis
                     IN [c2 |-> Plus(s.cur, Pt(s, e, 6)), n |-> 2,
                         r2 |-> IF v[2] = 0 THEN <<k, (k * r[2]) \div r[1]>> ELSE <<(k * r[1]) \div r[2], k>>]
  ELSE LET c == CHOOSE d \in Centers(s, e) : Quarters(s, e, d) = (IF e.p[4] = 1 THEN 3 ELSE 1)
           r == Radii(e)
       IN [c2 |-> Plus(c, c), n |-> Quarters(s, e, c), r2 |-> <<2 * r[1], 2 * r[2]>>]
IsArc(s, e) == e.ev # "frame" /\ e.c = "A" /\ e.p[1] # 0 /\ e.p[2] # 0 /\ Pt(s, e, 6) # s.cur
Near(a, b, tol) == Abs(a - b) <= tol
\* samples, in hundredths of halves of units (the frame spans [-80, 80])
Raw(p) == <<(p[1] * 2) \div 125, -((p[2] * 2) \div 125)>>
GoodArc(s, e, o) ==
  LET a == Arc(s, e) q == [i \in 1..Len(o.samples) |-> Raw(o.samples[i])] n == Len(q)
      \* as points of a circle of radius 1000
      u(i) == <<((q[i][1] * 2 - a.c2[1] * 100) * 1000) \div (100 * a.r2[1]), ((q[i][2] * 2 - a.c2[2] * 100) * 1000) \div (100 * a.r2[2])>>
      x(i) == u(i)[1] * u(i + 1)[2] - u(i)[2] * u(i + 1)[1]
      sign == IF e.p[5] = 1 THEN 1 ELSE -1
      turn == FoldSeq(LAMBDA c, d : c + d, 0, [i \in 1..(n - 1) |-> (sign * x(i)) \div 100])
      end == Pt(s, e, 6)
  IN /\ o.segs = <<>> /\ n >= 3
     /\ Near(q[1][1], 100 * s.cur[1], 3) /\ Near(q[1][2], 100 * s.cur[2], 3)
     /\ Near(q[n][1], 100 * end[1], 3) /\ Near(q[n][2], 100 * end[2], 3)
     /\ \A i \in 1..n : Near(Sq(u(i)[1]) + Sq(u(i)[2]), 1000000, 20000)
     /\ \A i \in 1..(n - 1) : sign * x(i) > 0
     \* pi / 2 for each quarter
     /\ Near(turn, 15708 * a.n, 1200 * a.n)

(* ------------------------------------------------------ events to explore *)
E(c, rel, imp, p, y) == [ev |-> "seg", c |-> c, rel |-> rel, imp |-> imp, p |-> p, style |-> y]
Params(c) == CASE c \in {"M", "L", "T"} -> {<<3, -5>>, <<-4, 1>>} [] c \in {"H", "V"} -> {<<-7>>, <<4>>}
              [] c = "Z" -> {<<>>} [] c \in {"S", "Q"} -> {<<1, -6, 9, 2>>} [] c = "C" -> {<<-3, 0, 1, 8, 6, -1>>}
Vary(s) == IF Profile = "base" THEN {0} ELSE IF Simulating THEN {RandomElement(0..(4 + 0 * s.lo))} ELSE 0..4
Arcs(s) ==
  UNION {{E("A", TRUE, i, <<r[1], r[2], 0, f, g>> \o v, y)
     : f \in {0, 1}, g \in {0, 1}, v \in {<<r[1], r[2]>>, <<-r[1], r[2]>>, <<r[1], -r[2]>>, <<2 * r[1], 0>>, <<0, -2 * r[2]>>},
       i \in {FALSE} \cup {s.last = "A" /\ s.rel}, y \in Vary(s)} : r \in {<<4, 4>>, <<6, 2>>, <<3, 5>>}}
  \cup UNION {{E("A", TRUE, FALSE, <<r[1], r[2], 90, f, g>> \o v, 0) : f \in {0, 1}, g \in {0, 1}, v \in {<<r[2], r[1]>>, <<-2 * r[2], 0>>}} : r \in {<<6, 2>>}}
  \cup {E("A", TRUE, FALSE, <<2, 2, w, f, g>> \o v, 0) : w \in {0, 30}, f \in {0, 1}, g \in {0, 1}, v \in {<<2, 2>>, <<12, 0>>, <<0, -10>>}}
  \cup {E("A", TRUE, FALSE, q[1] \o <<0, f, g>> \o q[2], 0) : f \in {0, 1}, g \in {0, 1},
           q \in {<< <<2, 1>>, <<12, 0>> >>, << <<1, 2>>, <<0, -10>> >>, << <<2, 4>>, <<-8, 0>> >>}}
  \cup {E("A", TRUE, FALSE, r \o <<0, 0, 1>> \o v, 0) : r \in {<<0, 3>>, <<3, 0>>, <<4, 4>>, <<-4, 4>>}, v \in {<<0, 0>>, <<4, 4>>}}
  \cup {E("A", FALSE, FALSE, <<3, 3, 0, 0, g, s.cur[1] + 3, s.cur[2] - 3>>, 0) : g \in {0, 1}}
Letters(s) == {"M", "L", "H", "V", "C", "S", "Q", "T"} \cup (IF s.last # "Z" THEN {"Z"} ELSE {})
Far(s) == \E i \in 1..2 : Abs(s.cur[i]) > 55
Segments(s) ==
  UNION {{E(c, rel, FALSE, p, y) : rel \in (IF Far(s) THEN {FALSE} ELSE BOOLEAN), p \in Params(c), y \in Vary(s)} : c \in Letters(s)}
  \cup (IF s.last \notin {"", "Z", "A"} /\ ~(Far(s) /\ s.rel) THEN {E(s.last, s.rel, TRUE, p, y) : p \in Params(s.last), y \in Vary(s)} ELSE {})
Fits(s, e) == \A x \in Coords(Draw(s, e).segs) \cup {Draw(s, e).cur[1], Draw(s, e).cur[2]} : Abs(x) <= 68
Moves(s) == {E("M", rel, FALSE, p, y) : rel \in BOOLEAN, p \in Params("M"), y \in Vary(s)}
\* after a subpath is closed, a new one starts where it did
Open(s) == s.last = "Z"
Events(s) ==
  IF hist = <<>> THEN (IF Profile = "free" THEN Moves(s) ELSE {[ev |-> "frame"]})
  ELSE IF Len(hist) = 1 /\ s.frame THEN {e \in Moves(s) : ~e.rel}
  ELSE IF Open(s) THEN Moves(s)
  ELSE {e \in Segments(s) \cup (IF Profile # "free" /\ ~Far(s) THEN Arcs(s) ELSE {}) : Fits(s, e)}

(* -------------------------------------------------------------- properties *)
Inv == /\ st.frame => st.lo = -80 /\ st.hi = 80
       /\ \A i \in 1..2 : st.cur[i] >= st.lo /\ st.cur[i] <= st.hi

Scaled(s, v, got) == Near(got * (s.hi - s.lo), 1000000 * (v - s.lo) - 500000 * (s.hi - s.lo), 4 * (s.hi - s.lo))
Same(s, sg, got) ==
  /\ Len(got) = Len(sg)
  /\ \A i \in 1..Len(sg) : /\ got[i].k = sg[i].k /\ Len(got[i].p) = Len(sg[i].p)
                           /\ \A j \in 1..Len(sg[i].p) : /\ Scaled(s, sg[i].p[j][1], got[i].p[j][1])
                                                         /\ Scaled(s, sg[i].p[j][2], -got[i].p[j][2])
\* (the scale along y is reversed around the middle of the span)
Bad(e, r) ==
  LET o == e.o k == r.st IN
  IF k.lo = k.hi THEN {}
  ELSE IF o.err # "" THEN {"path"}
  ELSE IF IsArc(st, e) THEN (IF GoodArc(st, e, o) THEN {} ELSE {"path"})
  ELSE IF o.samples # <<>> THEN {"path"}
  ELSE IF Same(k, r.o.segs, o.segs) THEN {} ELSE {"path"}

(* ----------------------------------------------------------- specification *)
GenInit == st = Init0 /\ hist = <<>> /\ l = 0 /\ tid = 0 /\ skip = FALSE
GenNext == /\ Len(hist) < MaxDepth
           /\ \E e \in Pick(Events(st)) : /\ hist' = Append(hist, e)
                                          /\ st' = Do(st, e).st
           /\ UNCHANGED <<l, tid, skip>>
GenSpec == GenInit /\ [][GenNext]_vars
View == <<st, Len(hist)>>
Emit == EmitPath(hist')

TraceInit == GenInit
TraceNext ==
  /\ l < Len(Log)
  /\ l' = l + 1 /\ hist' = <<>>
  /\ LET e == Log[l + 1] IN
     /\ tid' = e.tid
     /\ IF e.ev = "begin" THEN st' = Init0 /\ skip' = FALSE
        ELSE IF skip THEN UNCHANGED <<st, skip>>
        ELSE \E r \in {Do(st, e)} : \E bad \in {Bad(e, r)} :
                /\ st' = r.st
                /\ skip' = (bad # {})
                /\ bad # {} => Report(e.nn, e, SetToSeq(bad), r.o)
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceInv == TRUE
=============================================================================
