--------------------------------- MODULE Glm ---------------------------------
(***************************************************************************)
(* The geometry of scenes: matrices that place the model, the camera and   *)
(* the projection; vertices that are centered or fitted; meshes; and the   *)
(* trackball, that turns a scene with the mouse.                           *)
(*                                                                         *)
(* Matrices are 4 rows of rationals and act on columns (x, y, z, w).  They *)
(* are given here by their entries; the invariant states what they do to   *)
(* points.  Rotations of the trackball are in fixed point (1 is 10000).    *)
(***************************************************************************)
EXTENDS Conf

VARIABLES st, hist, l, tid, skip
vars == <<st, hist, l, tid, skip>>
Profile == IOEnv.PROFILE

(* --------------------------------------------------------------- matrices *)
Root(n) == IF \E r \in 0..70 : r * r = n THEN CHOOSE r \in 0..70 : r * r = n ELSE -1
M4(f(_, _)) == TLCEval([i \in 1..4 |-> [j \in 1..4 |-> f(i, j)]])
Id == M4(LAMBDA i, j : IF i = j THEN Q(1) ELSE Q(0))
\* (bound variables rather than definitions: TLC evaluates them once)
The(S) == CHOOSE x \in S : TRUE
Mul(a, b) ==
  The({TLCEval([i \in 1..4 |-> [j \in 1..4 |-> QSumSeq(<<QMul(x[i][1], y[1][j]), QMul(x[i][2], y[2][j]), QMul(x[i][3], y[3][j]), QMul(x[i][4], y[4][j])>>)]])
       : x \in {a}, y \in {b}})
Tr(m) == M4(LAMBDA i, j : m[j][i])
At(m, v) == TLCEval([i \in 1..4 |-> QSumSeq([k \in 1..4 |-> QMul(m[i][k], v[k])])])
\* image of a point <<x, y, z>> of rationals
Image(m, p) == LET v == At(m, p \o <<Q(1)>>) IN [i \in 1..3 |-> QDiv(v[i], v[4])]
Rows(r1, r2, r3, r4) == <<r1, r2, r3, r4>>
V3(p) == [i \in 1..3 |-> Q(p[i])]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
QCross(a, b) == TLCEval(<<QSub(QMul(a[2], b[3]), QMul(a[3], b[2])), QSub(QMul(a[3], b[1]), QMul(a[1], b[3])), QSub(QMul(a[1], b[2]), QMul(a[2], b[1]))>>)
QDot(a, b) == QSumSeq([i \in 1..3 |-> QMul(a[i], b[i])])
Unit(a) == LET r == TLCEval(Root(Dot(a, a))) IN TLCEval([i \in 1..3 |-> QN(a[i], r)])
Translate(t) == M4(LAMBDA i, j : IF i = j THEN Q(1) ELSE IF j = 4 THEN t[i] ELSE Q(0))
Scale(t) == M4(LAMBDA i, j : IF i # j THEN Q(0) ELSE IF i = 4 THEN Q(1) ELSE t[i])
\* rotation of cosine c and sine s about the unit vector k
Rotate(k, c, s) ==
  LET K == TLCEval(<<<<Q(0), QNeg(k[3]), k[2]>>, <<k[3], Q(0), QNeg(k[1])>>, <<QNeg(k[2]), k[1], Q(0)>>>>) IN
  M4(LAMBDA i, j : IF i = 4 \/ j = 4 THEN (IF i = j THEN Q(1) ELSE Q(0))
                   ELSE QSumSeq(<<IF i = j THEN c ELSE Q(0), QMul(QSub(Q(1), c), QMul(k[i], k[j])), QMul(s, K[i][j])>>))
Axis(x) == CASE x = "x" -> V3(<<1, 0, 0>>) [] x = "y" -> V3(<<0, 1, 0>>) [] x = "z" -> V3(<<0, 0, 1>>)
Zero == Q(0)
Ortho(a, b, c, d, n, f) == \* the box a..b, c..d, -n..-f to the cube
  Rows(<<QN(2, b - a), Zero, Zero, QN(-(a + b), b - a)>>, <<Zero, QN(2, d - c), Zero, QN(-(c + d), d - c)>>,
       <<Zero, Zero, QN(-2, f - n), QN(-(f + n), f - n)>>, <<Zero, Zero, Zero, Q(1)>>)
Frustum(a, b, c, d, n, f) == \* (a, b, c, d: rationals) the pyramid that sees a..b, c..d at distance n
  Rows(<<QDiv(Q(2 * n), QSub(b, a)), Zero, QDiv(QAdd(a, b), QSub(b, a)), Zero>>,
       <<Zero, QDiv(Q(2 * n), QSub(d, c)), QDiv(QAdd(c, d), QSub(d, c)), Zero>>,
       <<Zero, Zero, QN(-(f + n), f - n), QN(-2 * n * f, f - n)>>, <<Zero, Zero, Q(-1), Zero>>)
Perspective(tan, aspect, n, f) ==
  LET h == QMul(tan, Q(n)) w == QMul(h, aspect) IN Frustum(QNeg(w), w, QNeg(h), h, n, f)
Viewport(x, y, w, h, d) ==
  Rows(<<QN(w, 2), Zero, Zero, QAdd(Q(x), QN(w, 2))>>, <<Zero, QN(h, 2), Zero, QAdd(Q(y), QN(h, 2))>>,
       <<Zero, Zero, QN(d, 2), QN(d, 2)>>, <<Zero, Zero, Zero, Q(1)>>)
\* (opposite vectors are aligned by any half turn about an orthogonal axis)
Opposite(e) == e.f = "align" /\ LET u == SubSeq(e.a, 1, 3) v == SubSeq(e.a, 4, 6) IN Cross(u, v) = <<0, 0, 0>> /\ Dot(u, v) < 0
LookAt(eye, center, up) ==
  LET z == Unit([i \in 1..3 |-> eye[i] - center[i]]) w == Cross(up, [i \in 1..3 |-> eye[i] - center[i]])
      x == Unit(w) y == QCross(z, x) row(v) == v \o <<QNeg(QDot(v, V3(eye)))>>
  IN Rows(row(x), row(y), row(z), <<Zero, Zero, Zero, Q(1)>>)
Align(u, v) ==
  LET a == Unit(u) b == Unit(v) k == QCross(a, b) c == QDot(a, b)
      K == TLCEval(<<<<Zero, QNeg(k[3]), k[2]>>, <<k[3], Zero, QNeg(k[1])>>, <<QNeg(k[2]), k[1], Zero>>>>)
      K2(i, j) == QSumSeq([n \in 1..3 |-> QMul(K[i][n], K[n][j])])
  IN M4(LAMBDA i, j : IF i = 4 \/ j = 4 THEN (IF i = j THEN Q(1) ELSE Zero)
                      ELSE QSumSeq(<<IF i = j THEN Q(1) ELSE Zero, K[i][j], QDiv(K2(i, j), QAdd(Q(1), c))>>))
\* sines and cosines of an angle: <<3, 4, 5>> is the angle of cosine 3/5 and sine 4/5
Cos(g) == QN(g[1], g[3])
Sin(g) == QN(g[2], g[3])
Angle0(n) == CASE n = 0 -> <<1, 0, 1>> [] n = 90 -> <<0, 1, 1>> [] n = 53 -> <<3, 4, 5>> [] n = 23 -> <<12, 5, 13>>
Tan25 == QN(327, 1475) \* (tangent of 12.5 degrees)
Camera(e) ==
  LET cl(x) == Angle0(Max2(0, Min2(90, x)))
      z == QMax(QN(1, 10), QN(e.z[1], e.z[2]))
      rx == Rotate(Axis("x"), Cos(cl(e.x)), Sin(cl(e.x))) ry == Rotate(Axis("y"), Cos(cl(e.y)), Sin(cl(e.y)))
      proj == IF e.mode = "ortho" THEN Ortho(-1, 1, -1, 1, 1, 100) ELSE Perspective(Tan25, Q(1), 1, 100)
  IN Mul(proj, Mul(Translate(<<Zero, Zero, QN(-9, 2)>>), Mul(Scale(<<z, z, z>>), Mul(rx, ry))))
Matrix(e) ==
  LET a == e.a IN
  CASE e.f = "translate" -> Translate([i \in 1..3 |-> QN(a[i], 4)])
    [] e.f = "scale" -> Scale([i \in 1..3 |-> QN(a[i], 4)])
    [] e.f \in {"xrotate", "yrotate", "zrotate"} -> Rotate(Axis(SubSeq(e.f, 1, 1)), Cos(a), Sin(a))
    [] e.f = "rotate" -> Rotate(Unit(SubSeq(a, 4, 6)), Cos(a), Sin(a))
    [] e.f = "ortho" -> Ortho(a[1], a[2], a[3], a[4], a[5], a[6])
    [] e.f = "frustum" -> Frustum(Q(a[1]), Q(a[2]), Q(a[3]), Q(a[4]), a[5], a[6])
    [] e.f = "perspective" -> Perspective(QN(a[1], a[2]), QN(a[3], a[4]), a[5], a[6])
    [] e.f = "viewport" -> Viewport(a[1], a[2], a[3], a[4], a[5])
    [] e.f = "lookat" -> LookAt(SubSeq(a, 1, 3), SubSeq(a, 4, 6), SubSeq(a, 7, 9))
    [] e.f = "align" -> IF Opposite(e) THEN Id ELSE Align(SubSeq(a, 1, 3), SubSeq(a, 4, 6))
    [] e.f = "camera" -> Camera(e)

(* --------------------------------------------------------------- vertices *)
Ext(V, j, f(_)) == f({V[i][j] : i \in 1..Len(V)})
Lo(V, j) == Ext(V, j, Min)
Hi(V, j) == Ext(V, j, Max)
Span(V) == Max({Hi(V, j) - Lo(V, j) : j \in 1..3})
Center(V) == [i \in 1..Len(V) |-> [j \in 1..3 |-> QN(2 * V[i][j] - Lo(V, j) - Hi(V, j), 2)]]
Fit(V) == [i \in 1..Len(V) |-> [j \in 1..3 |-> QN(2 * V[i][j] - Lo(V, j) - Hi(V, j), Span(V))]]
Clamp(V, a, b) == [i \in 1..Len(V) |-> [j \in 1..3 |-> Q(Max2(a, Min2(b, V[i][j])))]]
Norm(V) == [i \in 1..Len(V) |-> IF V[i] = <<0, 0, 0>> THEN V3(V[i]) ELSE Unit(V[i])]
\* twice the area of a triangle, positive when counter-clockwise
Area(T) == (T[2][1] - T[1][1]) * (T[3][2] - T[1][2]) - (T[3][1] - T[1][1]) * (T[2][2] - T[1][2])

(* -------------------------------------------------------------- trackball *)
F == 10000
R3(f(_, _)) == [i \in 1..3 |-> [j \in 1..3 |-> f(i, j)]]
Dv(x) == IF x >= 0 THEN (x + F \div 2) \div F ELSE -((F \div 2 - x) \div F)
Mul3(a, b) ==
  The({TLCEval([i \in 1..3 |-> [j \in 1..3 |-> Dv(x[i][1] * y[1][j] + x[i][2] * y[2][j] + x[i][3] * y[3][j])]]) : x \in {a}, y \in {b}})
I3 == R3(LAMBDA i, j : IF i = j THEN F ELSE 0)
\* Positions of the mouse (in 1/25) whose images on the ball have rational
\* coordinates: the ball has radius 4/5 = 20/25
Spots == {<<0, 0>>, <<12, 0>>, <<-12, 0>>, <<0, 12>>, <<0, -12>>}
Lift(p) == p \o <<IF p = <<0, 0>> THEN 20 ELSE 16>>
\* the smallest rotation from a to b (of length 20)
Turn(p, q) ==
  LET a == Lift(p) b == Lift(q) k == Cross(a, b) c == Dot(a, b) \* over 400
      K == <<<<0, -k[3], k[2]>>, <<k[3], 0, -k[1]>>, <<-k[2], k[1], 0>>>>
      K2(i, j) == K[i][1] * K[1][j] + K[i][2] * K[2][j] + K[i][3] * K[3][j]
  \* I + K/400 + K2/(160000 (1 + c/400))
  IN R3(LAMBDA i, j : (IF i = j THEN F ELSE 0) + K[i][j] * 25 + (K2(i, j) * 25) \div (400 + c))
\* z then x; angles by cosine and sine
Turned(g) == <<(F * g[1]) \div g[3], (F * g[2]) \div g[3]>>
Orient(th, ph) == LET ct == th[1] sn == th[2] cp == ph[1] sp == ph[2] IN
  Mul3(<<<<cp, -sp, 0>>, <<sp, cp, 0>>, <<0, 0, F>>>>, <<<<F, 0, 0>>, <<0, ct, -sn>>, <<0, sn, ct>>>>)

\* angles of an orientation, when the ball has been dragged
RECURSIVE Newton(_, _)
Newton(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Newton(n, y)
Direction(c, n) == LET h == Newton(c * c + n * n + 1, 20000) IN IF h < 3000 THEN <<>> ELSE <<(c * F) \div h, (n * F) \div h>>
ThetaOf(m) == Direction(m[3][3], m[3][2])
PhiOf(m) == Direction(m[1][1], m[2][1])

(* ----------------------------------------------------------------- shapes *)
Counts == [cube |-> <<8, 6, 4>>, tetrahedron |-> <<4, 4, 3>>, octahedron |-> <<6, 8, 3>>, dodecahedron |-> <<20, 36, 3>>, icosahedron |-> <<12, 20, 3>>]
Radius == [cube |-> 6124, octahedron |-> 5000, dodecahedron |-> 5000, icosahedron |-> 5000]
\* faces of a mesh, its vertices being merged when they are at the same place
Merge(V) == [i \in 1..Len(V) |-> Min({j \in 1..i : \A k \in 1..3 : Abs(V[i][k] - V[j][k]) <= 5})]
EdgesOf(f) == {{f[k], f[(k % Len(f)) + 1]} : k \in 1..Len(f)}
Closed(V, Fs) ==
  LET m == Merge(V)
      faces == {i \in 1..Len(Fs) : Cardinality({m[Fs[i][k] + 1] : k \in 1..Len(Fs[i])}) = Len(Fs[i])}
      g == [i \in faces |-> [k \in 1..Len(Fs[i]) |-> m[Fs[i][k] + 1]]]
      es == UNION {EdgesOf(g[i]) : i \in faces}
      vs == UNION {ToSet(g[i]) : i \in faces}
  IN /\ \A e \in es : Cardinality({i \in faces : e \in EdgesOf(g[i])}) = 2
     /\ Cardinality(vs) - Cardinality(es) + Cardinality(faces) = 2
     /\ vs = {m[i] : i \in 1..Len(V)}
Near(a, b, tol) == Abs(a - b) <= tol
OnSphere(V, r) == \A i \in 1..Len(V) : Near(V[i][1] * V[i][1] + V[i][2] * V[i][2] + V[i][3] * V[i][3], r * r, 8 * r)

(* ------------------------------------------------------------------ state *)
Init0 == [ball |-> FALSE, m |-> I3, th |-> <<>>, ph |-> <<>>, at |-> <<0, 0>>, last |-> <<>>]
T3(m) == R3(LAMBDA i, j : m[j][i])
R(s, o) == [st |-> s, o |-> o]
Ball(s) == R(s, [m |-> s.m, th |-> s.th, ph |-> s.ph])
Do(s, e) ==
  CASE e.ev = "matrix" -> The({R([s EXCEPT !.last = <<e, m>>], [m |-> IF e.tr THEN Tr(m) ELSE m]) : m \in {Matrix(e)}})
    [] e.ev = "fit" -> R(s, [v |-> Fit(e.v)])
    [] e.ev = "center" -> R(s, [v |-> Center(e.v)])
    [] e.ev = "clamp" -> R(s, [v |-> Clamp(e.v, e.a, e.b)])
    [] e.ev = "normalize" -> R(s, [v |-> Norm(e.v)])
    [] e.ev = "facing" -> LET fr == [i \in 1..Len(e.t) |-> Area(e.t[i]) > 0] IN R(s, [front |-> fr, back |-> [i \in 1..Len(e.t) |-> ~fr[i]]])
    [] e.ev = "mesh" -> R(s, [v |-> Fit(e.v), f |-> e.f])
    [] e.ev = "shape" -> R(s, [nothing |-> 0])
    [] e.ev = "ball" -> Ball([s EXCEPT !.ball = TRUE, !.m = Orient(Turned(e.th), Turned(e.ph)), !.th = Turned(e.th), !.ph = Turned(e.ph)])
    [] e.ev = "drag" ->
         LET m == IF e.to = e.from THEN s.m ELSE Mul3(s.m, T3(Turn(e.from, e.to))) IN
         Ball(IF e.to = e.from THEN [s EXCEPT !.at = e.to] ELSE [s EXCEPT !.m = m, !.at = e.to, !.th = ThetaOf(m), !.ph = PhiOf(m)])
    [] e.ev = "shake" -> Ball(s) \* back and forth, any number of times
    [] e.ev = "theta" -> Ball([s EXCEPT !.m = Orient(Turned(e.a), s.ph), !.th = Turned(e.a)])
    [] e.ev = "phi" -> Ball([s EXCEPT !.m = Orient(s.th, Turned(e.a)), !.ph = Turned(e.a)])

(* ------------------------------------------------------ events to explore *)
Angles == {<<1, 0, 1>>, <<0, 1, 1>>, <<-1, 0, 1>>, <<0, -1, 1>>, <<3, 4, 5>>, <<-4, 3, 5>>, <<5, -12, 13>>, <<-7, -24, 25>>}
M(f, a) == [ev |-> "matrix", f |-> f, a |-> a]
Vs == {<<4, -8, 3>>, <<1, 2, 12>>, <<0, -4, 6>>, <<-10, 1, 1>>}
Boxes == {<<-1, 1, -1, 1, 1, 3>>, <<0, 4, -3, 2, 2, 7>>, <<-5, -1, 1, 4, 1, 9>>, <<3, -1, 2, 1, 4, 5>>}
Dirs == {<<0, 0, 2>>, <<3, 0, 4>>, <<1, 2, 2>>, <<-2, 3, 6>>, <<0, -5, 12>>, <<-1, 0, 0>>, <<2, -1, 2>>, <<0, 3, 0>>, <<-3, 0, -4>>, <<0, -1, 0>>}
Square(v) == Root(Dot(v, v)) > 0
Plain ==
  UNION {{M(f, v) : v \in Vs} : f \in {"translate", "scale"}} \cup {M(f, g) : f \in {"xrotate", "yrotate", "zrotate"}, g \in Angles}
  \cup {M("rotate", g \o d) : g \in Angles, d \in Dirs} \cup {M(f, b) : f \in {"ortho", "frustum"}, b \in Boxes}
  \cup {M("perspective", t \o r \o z) : t \in {<<1, 1>>, <<1, 2>>, <<3, 4>>}, r \in {<<1, 1>>, <<4, 3>>, <<1, 2>>}, z \in {<<1, 3>>, <<2, 7>>}}
  \cup {M("viewport", v) : v \in {<<0, 0, 640, 480, 1>>, <<10, -20, 5, 7, 2>>, <<3, 4, 100, 50, 10>>}}
  \cup {M("lookat", eye \o c \o up) : eye \in {<<3, 1, 4>>, <<0, 0, 5>>, <<2, -3, 6>>}, c \in {<<0, 0, 0>>, <<3, 1, -1>>, <<0, 1, 0>>},
          up \in {<<0, 1, 0>>, <<0, 0, 1>>, <<1, 0, 0>>, <<0, 0, -2>>, <<2, 1, 2>>}}
  \cup {M("align", u \o v) : u \in Dirs, v \in Dirs}
Right(e) ==
  CASE e.f = "lookat" -> LET d == [i \in 1..3 |-> e.a[i] - e.a[i + 3]] IN Square(d) /\ Square(Cross(SubSeq(e.a, 7, 9), d))
    [] OTHER -> TRUE
With(e, tr, dt) == [tr |-> tr, dt |-> dt] @@ e
Matrices == {With(e, p[1], p[2]) : e \in {x \in Plain : Right(x)}, p \in {<<FALSE, "">>, <<TRUE, "f8">>, <<TRUE, "f4">>}}
            \cup {With([ev |-> "matrix", f |-> "camera", x |-> x, y |-> y, z |-> z, mode |-> m, a |-> <<>>], FALSE, "")
                  : x \in {-20, 0, 53, 90, 120}, y \in {-1, 0, 23, 53, 90, 300}, z \in {<<1, 1>>, <<1, 2>>, <<0, 1>>, <<-3, 1>>, <<25, 2>>, <<1, 10>>}, m \in {"ortho", "perspective"}}
Clouds == {<<<<0, 0, 0>>, <<4, 2, 1>>>>, <<<<-1, 5, 2>>, <<3, -3, 2>>, <<1, 1, 9>>>>, <<<<7, 7, 7>>, <<8, 9, 7>>, <<7, 8, 12>>, <<2, 7, 8>>>>,
           <<<<3, 4, 0>>, <<0, 0, 0>>, <<-2, -3, 6>>>>, <<<<-4, -5, -6>>, <<-1, -2, -2>>, <<-4, -4, -7>>>>}
Normal(V) == \A i \in 1..Len(V) : Root(Dot(V[i], V[i])) >= 0
Tri == {<<<<0, 0, 1>>, <<4, 0, 1>>, <<0, 3, 2>>>>, <<<<0, 0, 0>>, <<0, 3, 0>>, <<4, 0, 0>>>>, <<<<-1, -1, 5>>, <<-3, 2, 0>>, <<-2, -7, 1>>>>, <<<<1, 1, 0>>, <<2, 2, 0>>, <<3, 3, 4>>>>,
        <<<<5, -2, 0>>, <<1, 6, 0>>, <<-4, -3, 0>>>>}
FaceSets == {<<<<0, 1, 0>>>>, <<<<0, 1, 1>>, <<1, 0, 1>>>>}
Meshes == {[ev |-> "mesh", v |-> V, f |-> f, style |-> y] : V \in Clouds, f \in FaceSets, y \in 0..4}
Geometry ==
  UNION {{[ev |-> x, v |-> V] : V \in Clouds} : x \in {"fit", "center"}} \cup {[ev |-> "clamp", v |-> V, a |-> p[1], b |-> p[2]] : V \in Clouds, p \in {<<0, 1>>, <<-3, 4>>, <<2, 2>>}}
  \cup {[ev |-> "normalize", v |-> V] : V \in {W \in Clouds : Normal(W)}} \cup {[ev |-> "facing", t |-> <<a, b, c>>] : a, b, c \in Tri} \cup Meshes
Shapes == {[ev |-> "shape", f |-> f, r |-> 0, n |-> 0, k |-> 0] : f \in DOMAIN Counts}
          \cup {[ev |-> "shape", f |-> "sphere", r |-> r, n |-> n, k |-> k] : r \in {10000, 15000, 4000}, n \in {3, 4, 7}, k \in {2, 3, 5}}
Set(s) == IF s.th = <<>> \/ s.ph = <<>> THEN {} ELSE {[ev |-> x, a |-> a] : x \in {"theta", "phi"}, a \in Angles}
Balls(s) ==
  IF ~s.ball THEN {[ev |-> "ball", th |-> a, ph |-> b] : a, b \in Angles}
  ELSE {[ev |-> "drag", from |-> p, to |-> q] : p \in (IF Profile = "deep" THEN {s.at} ELSE Spots), q \in Spots} \cup Set(s)
       \cup {[ev |-> "shake", from |-> p, to |-> q, n |-> n] : p \in {<<0, 0>>, <<12, 0>>, <<3, -4>>, <<30, 10>>}, q \in {<<1, 2>>, <<-18, 15>>, <<0, 40>>}, n \in {1, 60}}
Events(s) == CASE Profile = "matrix" -> Matrices [] Profile = "geometry" -> Geometry \cup Shapes [] OTHER -> Balls(s)

(* -------------------------------------------------------------- properties *)
\* what matrices do
Eq(a, b) == \A i \in 1..3 : a[i] = b[i]
Rotation(m) == Mul(m, Tr(m)) = Id /\ QDot(QCross(SubSeq(m[1], 1, 3), SubSeq(m[2], 1, 3)), SubSeq(m[3], 1, 3)) = Q(1)
Sign2 == {1, -1}
Means(e, m) ==
  LET a == e.a IN
  CASE e.f = "translate" -> \A p \in Dirs : Eq(Image(m, V3(p)), [i \in 1..3 |-> QAdd(Q(p[i]), QN(a[i], 4))])
    [] e.f \in {"xrotate", "yrotate", "zrotate"} -> Rotation(m)
    [] e.f = "rotate" -> Rotation(m) /\ Eq(Image(m, V3(SubSeq(a, 4, 6))), V3(SubSeq(a, 4, 6)))
    [] e.f = "ortho" -> \A x, y, z \in Sign2 :
         Eq(Image(m, V3(<<IF x = 1 THEN a[2] ELSE a[1], IF y = 1 THEN a[4] ELSE a[3], IF z = 1 THEN -a[6] ELSE -a[5]>>)), V3(<<x, y, z>>))
    [] e.f = "frustum" -> \A x, y, z \in Sign2 : \* corners at distance n, and their projections at distance f
         LET k == IF z = 1 THEN QN(a[6], a[5]) ELSE Q(1) IN
         Eq(Image(m, [i \in 1..3 |-> QMul(k, Q(<<IF x = 1 THEN a[2] ELSE a[1], IF y = 1 THEN a[4] ELSE a[3], -a[5]>>[i]))]), V3(<<x, y, z>>))
    [] e.f = "viewport" -> \A x, y, z \in Sign2 :
         Eq(Image(m, V3(<<x, y, z>>)), V3(<<IF x = 1 THEN a[1] + a[3] ELSE a[1], IF y = 1 THEN a[2] + a[4] ELSE a[2], IF z = 1 THEN a[5] ELSE 0>>))
    [] e.f = "lookat" ->
         LET eye == SubSeq(a, 1, 3) c == SubSeq(a, 4, 6) u == SubSeq(a, 7, 9) d == [i \in 1..3 |-> eye[i] - c[i]]
             top == Image(m, V3([i \in 1..3 |-> eye[i] + u[i]])) IN
         /\ Eq(Image(m, V3(eye)), V3(<<0, 0, 0>>)) /\ Eq(Image(m, V3(c)), V3(<<0, 0, -Root(Dot(d, d))>>))
         /\ top[1] = Zero /\ QLt(Zero, top[2])
    [] e.f = "align" -> Opposite(e) \/ (Rotation(m) /\ Eq(Image(m, Unit(SubSeq(a, 1, 3))), Unit(SubSeq(a, 4, 6))))
    [] OTHER -> TRUE
Inv == /\ st.last # <<>> => Means(st.last[1], st.last[2])
       /\ \A i, j \in 1..3 : Near((st.m[i][1] * st.m[j][1] + st.m[i][2] * st.m[j][2] + st.m[i][3] * st.m[j][3]) \div F, IF i = j THEN F ELSE 0, 300)

\* observed numbers are in 1/10000
\* (without large products)
CloseQ(got, q, tol) == Near(got, (q[1] \div q[2]) * 10000 + (((q[1] % q[2]) * 10000) \div q[2]), tol)
Angle(got, a) == a = <<>> \/ (Near(got[1], a[1], 300) /\ Near(got[2], a[2], 300))
SameV(o, v) == Len(o) = Len(v) /\ \A i \in 1..Len(v) : Len(o[i]) = 3 /\ \A j \in 1..3 : CloseQ(o[i][j], v[i][j], 2)
ShapeOk(e, o) ==
  IF e.f = "sphere" THEN OnSphere(o.v, e.r) /\ Closed(o.v, o.f) /\ \A i \in 1..Len(o.f) : Len(o.f[i]) = 3
  ELSE /\ <<Len(o.v), Len(o.f), Len(o.f[1])>> = Counts[e.f] /\ Closed(o.v, o.f)
       /\ e.f \in DOMAIN Radius => OnSphere(o.v, Radius[e.f])
\* a half turn that reverses u (numbers in 1/10000): symmetric, of trace -1, rows of length 1
HalfTurn(e, m) ==
  /\ \A i, j \in 1..3 : Near(m[i][j], m[j][i], 2)
  /\ Near(m[1][1] + m[2][2] + m[3][3], -F, 6) /\ \A i \in 1..3 : m[i][4] = 0 /\ m[4][i] = 0
  /\ m[4][4] = F
  /\ \A i, j \in 1..3 : Near(m[i][1] * m[j][1] + m[i][2] * m[j][2] + m[i][3] * m[j][3], IF i = j THEN F * F ELSE 0, 60000)
  /\ \A i \in 1..3 : Near(m[i][1] * e.a[1] + m[i][2] * e.a[2] + m[i][3] * e.a[3], -F * e.a[i], 40)
Bad(e, r) ==
  LET o == e.o x == r.o
      c == CASE e.ev = "matrix" -> "matrix" [] e.ev \in {"fit", "center", "clamp", "normalize", "facing"} -> "vertices" [] e.ev \in {"mesh", "shape"} -> "mesh" [] OTHER -> "ball"
  IN IF o.err # "" THEN {c}
     ELSE CASE e.ev = "matrix" ->
                 IF o.dt = (IF e.dt = "f8" THEN "float64" ELSE IF e.f = "camera" THEN o.dt ELSE "float32") /\ Len(o.m) = 4
                    /\ IF Opposite(e) THEN HalfTurn(e, o.m) ELSE \A i, j \in 1..4 : CloseQ(o.m[i][j], x.m[i][j], IF e.f = "camera" THEN 40 ELSE 4) THEN {} ELSE {c}
            [] e.ev \in {"fit", "center", "clamp", "normalize"} -> IF SameV(o.v, x.v) THEN {} ELSE {c}
            [] e.ev = "facing" -> IF o.front = x.front /\ o.back = x.back THEN {} ELSE {c}
            [] e.ev = "mesh" -> IF SameV(o.v, x.v) /\ o.f = x.f THEN {} ELSE {c}
            [] e.ev = "shape" -> IF ShapeOk(e, o) THEN {} ELSE {c}
            [] OTHER -> IF /\ \A i, j \in 1..3 : Near(o.m[i][j], x.m[i][j], 300)
                           /\ Angle(o.th, x.th) /\ Angle(o.ph, x.ph)
                        THEN {} ELSE {c}

(* ----------------------------------------------------------- specification *)
GenInit == st = Init0 /\ hist = <<>> /\ l = 0 /\ tid = 0 /\ skip = FALSE
GenNext == /\ Len(hist) < MaxDepth
           /\ \E e \in Pick(Events(st)) : /\ hist' = Append(hist, e)
                                          /\ st' = Do(st, e).st
           /\ UNCHANGED <<l, tid, skip>>
GenSpec == GenInit /\ [][GenNext]_vars
View == <<st, Len(hist)>>
Emit == EmitPath(hist')

TraceInit == GenInit
TraceNext ==
  /\ l < Len(Log)
  /\ l' = l + 1 /\ hist' = <<>>
  /\ LET e == Log[l + 1] IN
     /\ tid' = e.tid
     /\ IF e.ev = "begin" THEN st' = Init0 /\ skip' = FALSE
        ELSE IF skip THEN UNCHANGED <<st, skip>>
        ELSE \E r \in {Do(st, e)} : \E bad \in {Bad(e, r)} :
                /\ st' = r.st
                /\ skip' = (bad # {})
                /\ bad # {} => Report(e.nn, e, SetToSeq(bad), r.o)
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceInv == TRUE
=============================================================================
