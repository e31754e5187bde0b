------------------------------- MODULE Scene -------------------------------
(***************************************************************************)
(* A scene: a canvas, viewports laid out on it, and visuals rendered on    *)
(* the viewports with model, view and projection matrices.  The state is   *)
(* what is displayed: for each viewport its place and limits and, for each *)
(* visual rendered on it, its items (points, segments, paths, polygons) in *)
(* drawing order with their attributes.                                    *)
(***************************************************************************)
EXTENDS Conf

VARIABLES st, hist, l, tid, skip
vars == <<st, hist, l, tid, skip>>
Profile == IOEnv.PROFILE
Dpi == 64

(* ---------------------------------------------------------------- layout *)
(* extents of a viewport: [t, n, d]                                         *)
Place(v, size) ==   \* fraction of the canvas along an axis of that size
  CASE v.t = "px"     -> QN(v.n, size)                 \* an integer: pixels
    [] v.t = "fr"     -> QN(v.n, v.d)                  \* a float: fraction of the canvas
    [] v.t = "pixel"  -> QN(v.n, size)                 \* v.n * pixel
    [] v.t = "inch"   -> QN(v.n * Dpi, size * v.d)     \* v.n/v.d * inch
    [] v.t = "margin" -> QSub(Q(1), QN(v.n, size))     \* 1.0 - v.n * pixel
    [] v.t = "mid"    -> QAdd(<<1, 2>>, QN(v.n, size)) \* 0.5 + v.n * pixel
    [] v.t = "cst"    -> QN(v.n, size)
Placed(vp, w, h) == <<Place(vp.x, w), Place(vp.y, h), Place(vp.w, w), Place(vp.h, h)>>
PxSize(pos, w, h) == <<QMul(pos[3], Q(w)), QMul(pos[4], Q(h))>>
\* limits keep the aspect of the viewport once it has been resized
Limits(sz) == IF QLt(sz[2], sz[1]) THEN <<QDiv(sz[1], sz[2]), Q(1)>> ELSE <<Q(1), QDiv(sz[2], sz[1])>>

(* -------------------------------------------------------------- matrices *)
D(a, b, c, d) == << <<a, Q(0), Q(0), Q(0)>>, <<Q(0), b, Q(0), Q(0)>>, <<Q(0), Q(0), c, Q(0)>>, <<Q(0), Q(0), Q(0), d>> >>
M(n) ==
  CASE n = "I" -> D(Q(1), Q(1), Q(1), Q(1))
    [] n = "flip" -> D(Q(1), Q(1), Q(-1), Q(1))
    [] n = "scale" -> D(<<1, 2>>, Q(2), <<1, 4>>, Q(1))
    [] n = "half" -> D(Q(1), Q(1), Q(1), Q(2))
    [] n = "move" -> << <<Q(1), Q(0), Q(0), <<1, 4>> >>, <<Q(0), Q(1), Q(0), <<-1, 8>> >>,
                        <<Q(0), Q(0), Q(1), <<1, 2>> >>, <<Q(0), Q(0), Q(0), Q(1)>> >>
    [] n = "turn" -> << <<Q(0), Q(0), Q(1), Q(0)>>, <<Q(0), Q(1), Q(0), Q(0)>>,
                        <<Q(-1), Q(0), Q(0), Q(0)>>, <<Q(0), Q(0), Q(0), Q(1)>> >>
    [] n = "spin" -> << <<Q(0), Q(-1), Q(0), Q(0)>>, <<Q(1), Q(0), Q(0), Q(0)>>,
                        <<Q(0), Q(0), Q(1), Q(0)>>, <<Q(0), Q(0), Q(0), Q(1)>> >>
    [] n = "persp" -> << <<Q(1), Q(0), Q(0), Q(0)>>, <<Q(0), Q(1), Q(0), Q(0)>>,
                         <<Q(0), Q(0), Q(1), Q(0)>>, <<Q(0), Q(0), Q(1), Q(2)>> >>
Dot(a, b) == QSumSeq([i \in 1..Len(a) |-> QMul(a[i], b[i])])
App(m, p) == [i \in 1..4 |-> Dot(m[i], p)]
\* projection of a point by model, then view, then proj
Proj(mats, p) ==
  LET h1 == TLCEval(App(M(mats[1]), <<p[1], p[2], p[3], Q(1)>>))
      h2 == TLCEval(App(M(mats[2]), h1))
      h == TLCEval(App(M(mats[3]), h2))
  IN <<QDiv(h[1], h[4]), QDiv(h[2], h[4]), QDiv(h[3], h[4])>>

(* --------------------------------------------------------------- visuals *)
Sum(s) == FoldSeq(LAMBDA a, b : a + b, 0, s)
(* vertices of each item (1-based); indices: [t, k, s, ll]; k vertices that *)
(* no list mentions come before the others                                  *)
Groups(v) ==
  LET n == Len(v.pts) IN
  CASE v.kind \in {"Pixels", "Points", "Markers"} -> [i \in 1..n |-> <<i>>]
    [] v.kind = "Segments" -> [i \in 1..(n \div 2) |-> <<2 * i - 1, 2 * i>>]
    [] v.ix.t = "int" -> [i \in 1..(n \div v.ix.k) |-> [j \in 1..v.ix.k |-> (i - 1) * v.ix.k + j]]
    [] v.ix.t \in {"sizes", "buffer"} -> [i \in 1..Len(v.ix.s) |->
                              [j \in 1..v.ix.s[i] |-> Sum(SubSeq(v.ix.s, 1, i - 1)) + j]]
    [] v.ix.t \in {"list", "List", "arrays"} -> [i \in 1..Len(v.ix.ll) |-> [j \in 1..Len(v.ix.ll[i]) |-> v.ix.ll[i][j] + 1]]
QMean(s) == QMul(QSumSeq(s), <<1, Len(s)>>)
\* attribute of item i
Attr(a, i) == CASE a.f \in {"one", "row", "tuple", "obj"} -> a.v [] a.f \in {"each", "list", "buffer", "tracked"} -> a.v + i [] OTHER -> 0
\* a number may be a function of the depth: v * (2 - depth/2)
Num(a, i, stored) == IF a.f = "depth" THEN QMul(Q(a.v), QSub(Q(2), QMul(<<1, 2>>, stored))) ELSE Q(Attr(a, i))
\* color map of a depth: level among 256 colors
Level(z, zs) ==
  LET lo == CHOOSE a \in ToSet(zs) : \A b \in ToSet(zs) : QLe(a, b)
      hi == CHOOSE a \in ToSet(zs) : \A b \in ToSet(zs) : QLe(b, a)
      x == QDiv(QSub(z, lo), QSub(hi, lo))
  IN Min2(255, (256 * x[1]) \div x[2])
\* positions of the vertices in a viewport
Vertices(v, scale) == [i \in 1..Len(v.pts) |->
  LET p == v.pts[i] IN
  IF v.px THEN <<QMul(Q(p[1]), scale[1]), QMul(Q(p[2]), scale[2]), Q(0)>>
  ELSE <<QN(p[1], 8), QN(p[2], 8), QN(p[3], 8)>>]
Depths(v, scale, mats) ==
  LET vs == TLCEval(Vertices(v, scale))
      pr == TLCEval([i \in 1..Len(vs) |-> Proj(mats, vs[i])])
      g == TLCEval(Groups(v))
  IN TLCEval([i \in 1..Len(g) |-> QMean([j \in 1..Len(g[i]) |-> pr[g[i][j]][3]])])
\* what the visual calls depth: points and markers store 1 - z
Stored(v, z) == CASE v.kind \in {"Points", "Markers"} -> QSub(Q(1), z)
                  [] v.kind = "Segments" -> QNeg(z)
                  [] OTHER -> z
Items(v, scale, mats) ==
  LET vs == TLCEval(Vertices(v, scale))
      pr == TLCEval([i \in 1..Len(vs) |-> Proj(mats, vs[i])])
      g == TLCEval(Groups(v))
      z == Depths(v, scale, mats)
      stored == TLCEval([i \in 1..Len(g) |-> Stored(v, z[i])])
      order == TLCEval(SortSeq([i \in 1..Len(g) |-> i], LAMBDA a, b : QLt(z[b], z[a])))  \* farthest first
      color(a, i) == IF a.f = "map" THEN 1000 + Level(stored[i], stored) ELSE Attr(a, i)
  IN TLCEval([k \in 1..Len(order) |-> LET i == order[k] IN
        [p |-> [j \in 1..Len(g[i]) |-> <<pr[g[i][j]][1], pr[g[i][j]][2]>>],
         fill |-> color(v.fill, i), edge |-> color(v.edge, i),
         width |-> Num(v.width, i, stored[i]), size |-> Num(v.size, i, stored[i]),
         \* markers are turned by their angle (tens of degrees)
         mark |-> Attr(v.mark, i) + 100 * Attr(v.ang, i), cap |-> v.cap]])

(* ----------------------------------------------------------------- scene *)
(* shown: sequence of [v, vp, mats, items] in the order of first rendering  *)
Init0 == [w |-> 128, h |-> 64, brk |-> FALSE, vps |-> <<>>, vis |-> <<>>, shown |-> <<>>, cur |-> <<>>]
Pos(s, k) == Placed(s.vps[k].ext, s.w, s.h)
Lim(s, k) == IF s.vps[k].rs THEN Limits(PxSize(Pos(s, k), s.w, s.h)) ELSE <<Q(1), Q(1)>>
\* one pixel in the coordinates of viewport k
PixelScale(s, k) == LET sz == PxSize(Pos(s, k), s.w, s.h) lm == Lim(s, k)
                    IN <<QDiv(QMul(Q(2), lm[1]), sz[1]), QDiv(QMul(Q(2), lm[2]), sz[2])>>
Seen(s, k) == SelectSeq(s.shown, LAMBDA x : x.vp = k)
\* one item holds the five attributes, a collection the kind and the items
Collections(s, k) == LET x == Seen(s, k) IN
  [i \in 1..Len(x) |-> [kind |-> s.vis[x[i].v].kind, items |-> x[i].items]]
Screen(s) == [k \in 1..Len(s.vps) |->
   [bg |-> k, pos |-> Pos(s, k), size |-> PxSize(Pos(s, k), s.w, s.h), lim |-> Lim(s, k), cols |-> Collections(s, k)]]
Show(s, v, k, mats) == [v |-> v, vp |-> k, mats |-> mats, items |-> Items(s.vis[v], PixelScale(s, k), mats)]
Where(s, v, k) == {i \in 1..Len(s.shown) : s.shown[i].v = v /\ s.shown[i].vp = k}
Mats(s, v, k, e) ==
  LET old == IF Where(s, v, k) # {} THEN s.shown[Max(Where(s, v, k))].mats ELSE s.cur[v]
  IN [i \in 1..3 |-> IF e.mats[i] = "" THEN old[i] ELSE e.mats[i]]
Rendered(s, v, k, mats) ==
  LET x == Show(s, v, k, mats)
  IN [s EXCEPT !.cur[v] = mats,
               !.shown = IF Where(s, v, k) = {} THEN Append(@, x) ELSE [@ EXCEPT ![Max(Where(s, v, k))] = x]]
Refresh(s) == [s EXCEPT !.shown = [i \in 1..Len(s.shown) |-> Show(s, s.shown[i].v, s.shown[i].vp, s.shown[i].mats)]]
Resized(s, w, h) == Refresh([s EXCEPT !.w = w, !.h = h, !.vps = [k \in 1..Len(@) |-> [@[k] EXCEPT !.rs = TRUE]]])
(* ------------------------------------------------------------- the image *)
(* value of the pixel at column x and row y (from the bottom): the color of *)
(* what covers it, 0 when nothing does, -1 when it is covered in part only  *)
Side(x, lo, hi, olo, ohi) == \* 1: inside of lo..hi, 0: outside of olo..ohi, -1: neither
  IF QLe(lo, Q(x)) /\ QLe(Q(x + 1), hi) THEN 1
  ELSE IF QLe(Q(x + 1), olo) \/ QLe(ohi, Q(x)) THEN 0 ELSE -1
Both(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a = 1 /\ b = 1 THEN 1 ELSE -1
\* a shape contains the rectangle in (left, right, bottom, top), and is in the rectangle out
Covers(p, z) == Both(Side(p[1], z.in[1], z.in[2], z.out[1], z.out[2]), Side(p[2], z.in[3], z.in[4], z.out[3], z.out[4]))
Grow(r, h, v) == TLCEval(<<QSub(r[1], h), QAdd(r[2], h), QSub(r[3], v), QAdd(r[4], v)>>)
Frame(s, k) == LET q == Pos(s, k) IN
  TLCEval(<<QMul(q[1], Q(s.w)), QMul(QAdd(q[1], q[3]), Q(s.w)), QMul(q[2], Q(s.h)), QMul(QAdd(q[2], q[4]), Q(s.h))>>)
\* rectangle around the vertices of an item shown in viewport k, in pixels
QMinS(S) == CHOOSE a \in S : \A b \in S : QLe(a, b)
QMaxS(S) == CHOOSE a \in S : \A b \in S : QLe(b, a)
Rectangle(s, k, item) ==
  LET f == Frame(s, k) lm == Lim(s, k)
      px(v, i) == QAdd(f[2 * i - 1], QMul(QDiv(QAdd(v, lm[i]), QMul(Q(2), lm[i])), QSub(f[2 * i], f[2 * i - 1])))
      c(i) == {px(item.p[j][i], i) : j \in 1..Len(item.p)}
  IN TLCEval(<<QMinS(c(1)), QMaxS(c(1)), QMinS(c(2)), QMaxS(c(2))>>)
\* half the width of a path, radius of a point, in pixels (72 points are Dpi pixels)
HalfWidth(w) == QMul(w, <<Dpi, 144>>)
Radius(size) == CHOOSE r \in 0..100 : QMul(size, Q(Dpi * Dpi)) = Q(4 * 72 * 72 * r * r)
(* polygons are rectangles and paths horizontal: shapes are known but for   *)
(* the smoothing of their edges (one pixel)                                 *)
Shape(s, k, kind, item) ==
  LET r == Rectangle(s, k, item)
      h == HalfWidth(item.width)
      n == Radius(item.size)
      z == CASE kind = "Polygons" -> <<r, r>>
             [] kind = "Paths" ->
                  <<Grow(r, IF item.cap = 3 THEN h ELSE Q(0), h), Grow(r, IF item.cap = 1 THEN Q(0) ELSE h, h)>>
             [] kind = "Points" -> <<Grow(r, QN(7 * n, 10), QN(7 * n, 10)), Grow(r, Q(n), Q(n))>>
             [] kind = "Markers" -> <<Grow(r, Q(n), Q(n)), Grow(r, Q(n), Q(n))>>
  IN [in |-> Grow(z[1], Q(-1), Q(-1)), out |-> Grow(z[2], Q(1), Q(1)), line |-> kind = "Paths",
      c |-> IF kind = "Paths" THEN item.edge ELSE item.fill]
Painted(s) ==
  [k \in 1..Len(s.vps) |->
     [f |-> [in |-> Frame(s, k), out |-> Frame(s, k)],
      clip |-> [in |-> Grow(Frame(s, k), Q(-1), Q(-1)), out |-> Grow(Frame(s, k), Q(1), Q(1))],
      items |-> FlattenSeq([i \in 1..Len(Seen(s, k)) |-> LET x == Seen(s, k)[i] IN
                   [j \in 1..Len(x.items) |-> Shape(s, k, s.vis[x.v].kind, x.items[j])]])]]
RECURSIVE TopItem(_, _, _, _, _), Top(_, _, _)
TopItem(xs, clip, n, p, below) ==
  IF n = 0 THEN below
  ELSE LET o == Both(clip, Covers(p, xs[n])) IN
       IF o = 1 THEN xs[n].c ELSE IF o = 0 THEN TopItem(xs, clip, n - 1, p, below)
       ELSE IF TopItem(xs, clip, n - 1, p, below) = xs[n].c THEN xs[n].c ELSE -1
Top(ps, n, p) ==
  IF n = 0 THEN 0
  ELSE LET z == ps[n]
           o == Covers(p, z.f)
           clip == Covers(p, z.clip)
           near == {i \in 1..Len(z.items) : Both(clip, Covers(p, z.items[i])) # 0}
           below == IF o = 1 THEN n ELSE Top(ps, n - 1, p)
           under == IF o = -1 /\ below # n THEN -1 ELSE below
       IN IF near = {} THEN under
          \* which of a line and another shape is above is not specified
          ELSE IF {z.items[i].line : i \in near} = BOOLEAN THEN -1
          ELSE TopItem(z.items, clip, Len(z.items), p, under)
\* every eighth column and row and the one before, from the top
Sampled(n) == [i \in 1..(2 * (n \div 8)) |-> IF i % 2 = 1 THEN (i \div 2) * 8 ELSE (i \div 2) * 8 - 1]
Image(s) ==
  LET ps == TLCEval(Painted(s)) xs == Sampled(s.w) ys == Sampled(s.h)
  IN TLCEval([j \in 1..Len(ys) |-> [i \in 1..Len(xs) |-> Top(ps, Len(ps), <<xs[i], s.h - 1 - ys[j]>>)]])

(* the scene made by running the saved commands: nothing has been resized   *)
(* and variables are those the visuals have been created with               *)
Replayed(s) == Refresh([s EXCEPT !.w = 128, !.h = 64, !.vps = [k \in 1..Len(@) |-> [@[k] EXCEPT !.rs = FALSE]]])
\* every visual shows its current content
Fresh(s) == s.shown = Refresh(s).shown /\ \A i \in 1..Len(s.vis) : ~s.vis[i].changed

Obs(s, err, other) ==
  [err |-> err, screen |-> Screen(s), other |-> other, shape |-> <<>>, image |-> <<>>,
   pts |-> [i \in 1..Len(s.vis) |-> s.vis[i].pts], tracking |-> TRUE]
R(s, err, other) == [st |-> s, o |-> Obs(s, err, other)]
\* matrices of each visual after rendering at resize
Do(s, e) ==
  CASE e.ev = "viewport" ->
        R([s EXCEPT !.vps = Append(@, [ext |-> e.ext, rs |-> FALSE])], "", <<>>)
    [] e.ev = "visual" ->
        R([s EXCEPT !.vis = Append(@, e.v), !.cur = Append(@, <<"I", "I", "I">>)], "", <<>>)
    [] e.ev = "render" -> R(Rendered(s, e.v, e.k, Mats(s, e.v, e.k, e)), "", <<>>)
    [] e.ev = "broken" -> R([s EXCEPT !.brk = TRUE], "ValueError", <<>>)   \* a visual that cannot be evaluated
    [] e.ev = "move" ->     \* the array of positions is modified in place
        R([s EXCEPT !.vis[e.v].pts[e.i] = e.p], "", <<>>)
    [] e.ev = "attr" ->     \* an attribute is given another value
        R([s EXCEPT !.vis[e.v] = [[@ EXCEPT ![e.name] = e.a] EXCEPT !.changed = TRUE]], "", <<>>)
    [] e.ev = "resize" -> R(Resized(s, e.w, e.h), "", <<>>)
    [] e.ev = "replay" -> R(s, "", Screen(Replayed(s)))
    [] e.ev = "image" -> LET r == R(s, "", <<>>) IN [r EXCEPT !.o.shape = <<s.h, s.w>>, !.o.image = Image(s)]

(* ------------------------------------------------------ events to explore *)
E(t, n, d) == [t |-> t, n |-> n, d |-> d]
Ext(x, y, w, h) == [x |-> x, y |-> y, w |-> w, h |-> h]
Full == Ext(E("px", 0, 1), E("px", 0, 1), E("px", 128, 1), E("px", 64, 1))
Exts ==
  CASE Profile = "layout" ->
        \* both axes are independent
        {Ext(x, E("px", 8, 1), w, E("fr", 1, 2)) :
           x \in {E("px", 0, 1), E("px", 16, 1), E("fr", 1, 4), E("pixel", 8, 1), E("inch", 1, 4), E("mid", 4, 1)},
           w \in {E("px", 32, 1), E("fr", 1, 2), E("fr", 1, 1), E("margin", 16, 1), E("inch", 1, 2)}}
        \cup {Ext(E("fr", 1, 4), y, E("px", 32, 1), h) :
           y \in {E("px", 8, 1), E("fr", 1, 2), E("pixel", 8, 1), E("inch", 1, 8)},
           h \in {E("px", 16, 1), E("fr", 1, 2), E("margin", 16, 1), E("pixel", 24, 1)}}
        \cup {Ext(E("fr", 0, 1), E("fr", 0, 1), E("fr", 1, 1), E("fr", 1, 1))}
    [] Profile = "image" ->
        {Full, Ext(E("px", 16, 1), E("px", 8, 1), E("px", 64, 1), E("px", 32, 1)),
         Ext(E("fr", 1, 4), E("fr", 1, 4), E("fr", 1, 2), E("fr", 1, 2)),
         Ext(E("inch", 1, 4), E("pixel", 24, 1), E("margin", 40, 1), E("margin", 24, 1)),
         Ext(E("px", 40, 1), E("px", 24, 1), E("fr", 1, 1), E("fr", 1, 1))}
    [] OTHER -> {Full, Ext(E("fr", 1, 2), E("px", 0, 1), E("fr", 1, 2), E("fr", 1, 1)),
                 Ext(E("px", 8, 1), E("px", 8, 1), E("margin", 16, 1), E("margin", 16, 1))}
Sizes2 == {<<128, 64>>, <<64, 64>>, <<64, 128>>, <<256, 128>>, <<96, 160>>}
          \cup (IF Profile = "layout" THEN {<<160, 159>>, <<127, 128>>} ELSE {})

A(f, v) == [f |-> f, v |-> v]
NA == A("none", 0)
NoIx == [t |-> "none", k |-> 0, s |-> <<>>, ll |-> <<>>]
Ix(t, k, s, ll) == [t |-> t, k |-> k, s |-> s, ll |-> ll]
Vis2(kind, pts, px, ix, fill, edge, width, size, mark, ang, cap) ==
  [kind |-> kind, pts |-> pts, px |-> px, ix |-> ix, fill |-> fill, edge |-> edge, width |-> width,
   size |-> size, mark |-> mark, ang |-> ang, cap |-> cap, changed |-> FALSE]
Vis(kind, pts, px, ix, fill, edge, width, size, mark) ==
  Vis2(kind, pts, px, ix, fill, edge, width, size, mark, NA, IF kind = "Paths" THEN 1 ELSE 0)
P1 == << <<3, 2, 1>> >>
P3 == << <<1, 2, 3>>, <<-3, 5, 1>>, <<2, -1, -4>> >>
P4 == << <<1, 2, -2>>, <<-3, 6, 3>>, <<4, -1, 1>>, <<-5, 3, 7>> >>
P6 == << <<1, 2, 3>>, <<-3, 5, 1>>, <<2, -1, -4>>, <<6, 4, 9>>, <<-7, 1, 5>>, <<3, -6, -8>> >>
P7 == Append(P6, <<5, 7, 2>>)
Colors == {A("one", 7), A("tuple", 9), A("row", 11), A("each", 20), A("map", 0)}
Numbers == {A("one", 3), A("each", 10)}
Colors2 == {A("one", 7), A("each", 40)}
Visuals ==
  {Vis("Pixels", p, FALSE, NoIx, c, NA, NA, NA, NA) : p \in {P1, P3, P4}, c \in Colors}
  \cup {Vis("Points", p, FALSE, NoIx, c, d, w, z, NA) : p \in {P3, P4}, c \in Colors, d \in Colors2, w \in Numbers, z \in Numbers}
  \cup {Vis("Markers", p, FALSE, NoIx, c, d, A("one", 2), z, m) :
          p \in {P3, P4}, c \in {A("one", 7), A("each", 20), A("map", 0)}, d \in Colors2, z \in Numbers,
          m \in {A("one", 3), A("each", 2)}}
  \cup {Vis("Segments", p, FALSE, NoIx, NA, c, w, NA, NA) : p \in {P4, P6}, c \in Colors, w \in Numbers}
  \cup {Vis("Paths", p, FALSE, ix, NA, c, w, NA, NA) :
          p \in {P6, P7}, c \in {A("one", 7), A("tuple", 9), A("each", 20), A("map", 0)}, w \in Numbers,
          ix \in {Ix("int", 2, <<>>, <<>>), Ix("int", 3, <<>>, <<>>), Ix("sizes", 0, <<2, 4>>, <<>>),
                  Ix("sizes", 0, <<1, 3, 2>>, <<>>), Ix("list", 0, <<>>, <<<<0, 3>>, <<5, 1, 2>>>>),
                  Ix("list", 0, <<>>, <<<<0, 1, 2>>, <<4, 3, 0>>, <<2, 5>>>>)}}
  \cup {Vis("Polygons", p, FALSE, ix, c, d, w, NA, NA) :
          p \in {P6, P7}, c \in {A("one", 7), A("each", 20), A("map", 0)}, d \in Colors2, w \in Numbers,
          ix \in {Ix("int", 3, <<>>, <<>>), Ix("sizes", 0, <<3, 3>>, <<>>),
                  Ix("list", 0, <<>>, <<<<0, 3, 1>>, <<5, 1, 2, 4>>>>)}}
\* attributes given as functions of the depth, buffers, tracked arrays; angles
\* of markers, caps of paths
Depth2 == {A("depth", 4), A("buffer", 10), A("tracked", 10)}
Colors3 == {A("buffer", 20), A("tracked", 20), A("obj", 9)}
Visuals2 ==
  {Vis("Pixels", P4, FALSE, NoIx, c, NA, NA, NA, NA) : c \in Colors3}
  \cup {Vis("Points", P3, FALSE, NoIx, c, A("one", 7), w, A("each", 10), NA) : c \in Colors3, w \in Depth2}
  \cup {Vis("Points", P3, FALSE, NoIx, A("one", 7), c, A("each", 10), z, NA) : c \in Colors3, z \in Depth2}
  \cup {Vis2("Markers", P3, FALSE, NoIx, c, A("one", 7), A("one", 2), A("one", 9), m, a, 0) :
          c \in Colors3, m \in {A("one", 3), A("each", 7), A("list", 4)}, a \in {A("one", 2), A("one", 5), A("each", 1), A("buffer", 0), A("tracked", 2)}}
  \cup {Vis2("Markers", P4, FALSE, NoIx, A("one", 7), c, w, z, A("one", 12), A("each", 0), 0) :
          c \in Colors3, w \in Depth2, z \in Depth2}
  \cup {Vis("Segments", P6, FALSE, NoIx, NA, c, w, NA, NA) : c \in Colors3, w \in Depth2}
  \cup {Vis2("Paths", P6, FALSE, ix, NA, c, w, NA, NA, NA, cap) : c \in Colors3 \cup {A("map", 0)}, w \in Depth2, cap \in 1..3,
          ix \in {Ix("int", 2, <<>>, <<>>), Ix("list", 0, <<>>, <<<<0, 3>>, <<5, 1, 2>>>>)}}
  \cup {Vis("Polygons", P6, FALSE, ix, c, d, w, NA, NA) : c \in Colors3, d \in {A("one", 7), A("buffer", 40)}, w \in Depth2,
          ix \in {Ix("int", 3, <<>>, <<>>), Ix("sizes", 0, <<3, 3>>, <<>>)}}
Sizes(n) == {z \in UNION {[1..k -> 1..3] : k \in 1..4} : Sum(z) <= n}
Lists == {<<a, b>> : a, b \in {<<0>>, <<3, 0>>, <<5, 1, 2>>, <<2, 4, 5, 3>>}} \cup {<<a, b, c>> : a, c \in {<<0, 1, 2>>, <<4, 5>>}, b \in {<<3, 0>>, <<5, 2, 1>>}}
Indices(n) ==
  {Ix("int", k, <<>>, <<>>) : k \in 1..n}
  \cup {Ix(t, 0, z, <<>>) : t \in {"sizes", "buffer"}, z \in Sizes(n)}
  \cup {Ix(t, 0, <<>>, z) : t \in {"list", "List", "arrays"}, z \in Lists}
  \cup {Ix(t, k, <<>>, <<<<5, 1, 2>>, <<3, 0>>>>) : t \in {"list", "List", "arrays"}, k \in {250, 40000}}
Grouped ==
  UNION {{Vis("Paths", p, FALSE, ix, NA, A("each", 20), A("one", 3), NA, NA),
          Vis("Polygons", p, FALSE, ix, A("each", 20), A("one", 7), A("each", 10), NA, NA)} :
         <<p, ix>> \in ({P6} \X Indices(6)) \cup ({P7} \X {Ix("int", 2, <<>>, <<>>), Ix("sizes", 0, <<3, 3, 1>>, <<>>)})}
\* rectangles, some of them larger than any viewport
Rects ==
  {Vis("Polygons", << <<a, b, 1>>, <<c, b, 1>>, <<c, d, 1>>, <<a, d, 1>> >>, FALSE, Ix("int", 4, <<>>, <<>>), A("one", col), A("one", col), A("one", 0), NA, NA)
     : <<a, b, c, d, col>> \in {<<-4, -4, 4, 4, 20>>, <<0, -40, 40, 0, 21>>, <<-6, 0, 2, 6, 22>>}}
Shapes ==
  Rects
  \cup {Vis2("Paths", << <<-4, a, 1>>, <<5, a, 1>>, <<-60, a + 3, 2>>, <<2, a + 3, 2>> >>, FALSE, Ix("int", 2, <<>>, <<>>), NA, A("each", 25), w, NA, NA, NA, cap) :
          a \in {-3, 1}, w \in {A("one", 9), A("each", 6)}, cap \in 1..3}
  \cup {Vis2(kind, << <<-4, 2, 1>>, <<5, -3, 2>>, <<12, 4, 3>> >>, FALSE, NoIx, A("each", 22), A("one", 20), A("one", 0), A("one", 324),
             IF kind = "Markers" THEN A("one", 3) ELSE NA, NA, 0) : kind \in {"Points", "Markers"}}
\* a few visuals, including one whose positions are in pixels
PxVis == {Vis("Points", << <<16, 8, 0>> >>, TRUE, NoIx, A("one", 5), A("one", 6), A("one", 1), A("one", 3), NA),
          Vis("Segments", << <<-16, -8, 0>>, <<32, 8, 0>> >>, TRUE, NoIx, NA, A("one", 5), A("one", 2), NA, NA)}
Few == {Vis("Points", P3, FALSE, NoIx, A("each", 20), A("one", 7), A("one", 1), A("each", 10), NA),
        Vis("Pixels", P3, FALSE, NoIx, A("map", 0), NA, NA, NA, NA),
        Vis("Paths", P6, FALSE, Ix("sizes", 0, <<2, 4>>, <<>>), NA, A("each", 20), A("each", 10), NA, NA)} \cup PxVis

Mats3 ==
  CASE Profile = "order" -> {<<"I", "I", "I">>, <<"turn", "move", "">>, <<"flip", "", "persp">>}
    [] Profile = "orders" -> {<<m, v, p>> : m \in {"I", "turn", "flip", "spin"}, v \in {"I", "move", "scale"}, p \in {"I", "persp", "half"}}
    [] Profile \in {"groups", "pair"} -> {<<"I", "I", "I">>}
    [] Profile \in {"image", "images"} -> {<<"I", "I", "I">>, <<"scale", "move", "">>}
    [] Profile = "replay" -> {<<"turn", "move", "">>}
    [] OTHER -> {<<"I", "I", "I">>, <<"turn", "", "">>, <<"flip", "move", "">>, <<"", "", "persp">>, <<"", "", "">>,
                 <<"spin", "scale", "half">>}
Distinct(z) == \A i, j \in 1..Len(z) : i # j => z[i] # z[j]
HasDepth(v) == v.width.f = "depth" \/ v.size.f = "depth"
HasMap(v) == v.fill.f = "map" \/ v.edge.f = "map"
Allowed(s, e) ==
  LET v == s.vis[e.v]
      mats == Mats(s, e.v, e.k, e)
      z == Depths(v, PixelScale(s, e.k), mats)
  IN /\ Distinct(z)
     /\ HasMap(v) => mats[3] # "persp" /\ Len(z) > 1
     /\ HasDepth(v) /\ v.kind \in {"Segments", "Paths", "Polygons"} => mats[3] # "persp"
     \* first rendering on a viewport: all matrices are given (or none ever was)
     /\ (Where(s, e.v, e.k) = {} /\ \E i \in 1..Len(s.shown) : s.shown[i].v = e.v) => \A i \in 1..3 : e.mats[i] # ""
(* when simulating, a few elements drawn at random                          *)
Draw(S) == IF Simulating /\ S # {} THEN {RandomElement(S) : i \in 1..3} ELSE S
Renders(s) ==
  {e \in Draw({[ev |-> "render", v |-> v, k |-> k, mats |-> m] : v \in 1..Len(s.vis), k \in 1..Len(s.vps), m \in Mats3})
     : Allowed(s, e)}
MaxV == CASE Profile \in {"pair", "order", "orders", "replay", "groups"} -> 1 [] Profile \in {"layout", "image"} -> 2 [] OTHER -> 3
MaxP == CASE Profile \in {"order", "orders", "replay", "groups"} -> 1 [] Profile = "images" -> 3 [] OTHER -> 2
NewViewports(s) == IF Len(s.vps) >= MaxP THEN {}
  ELSE {[ev |-> "viewport", ext |-> x] :
          x \in IF Profile \in {"order", "orders", "replay", "groups"} \/ (Profile = "layout" /\ s.vps # <<>>) THEN {Full} ELSE Exts}
NewVisuals(s) == IF Len(s.vis) >= MaxV \/ s.vps = <<>> THEN {}
  ELSE {[ev |-> "visual", v |-> v] :
          v \in CASE Profile = "groups" -> Grouped [] Profile = "image" -> Rects [] Profile = "images" -> Shapes
                 [] Profile \in {"order", "orders", "replay", "deep"} -> Draw(Visuals \cup Visuals2) \cup (IF Profile = "deep" THEN Draw(Few) \cup Draw(PxVis) ELSE {})
                 [] Profile \in {"layout", "pair"} -> PxVis [] OTHER -> Draw(Few)}
Resizes(s) == {[ev |-> "resize", w |-> z[1], h |-> z[2]] : z \in Sizes2}
CanResize(s) == ~s.brk /\ \A i \in 1..Len(s.shown) : Distinct(Depths(s.vis[s.shown[i].v], PixelScale(s, s.shown[i].vp), s.shown[i].mats))
Moves(s) == {e \in Draw({[ev |-> "move", v |-> v, i |-> i, p |-> p] :
                      v \in {x \in 1..Len(s.vis) : ~s.vis[x].px}, i \in {1, 2, 3}, p \in {<<2, 7, 6>>, <<-1, 0, -6>>}}) :
             /\ e.i <= Len(s.vis[e.v].pts)
             /\ \A j \in 1..Len(s.vis[e.v].pts) : j # e.i => \A c \in 1..3 : s.vis[e.v].pts[j][c] # e.p[c]
             \* the groups must stay at different depths wherever they are shown
             /\ LET v2 == [s.vis[e.v] EXCEPT !.pts[e.i] = e.p] IN
                \A k \in 1..Len(s.shown) : s.shown[k].v = e.v =>
                   Distinct(Depths(v2, PixelScale(s, s.shown[k].vp), s.shown[k].mats))}
Attrs(s) ==
  Draw(UNION {{[ev |-> "attr", v |-> v, name |-> n, a |-> a] :
            n \in {x \in {"fill", "edge", "width", "size"} : s.vis[v][x].f # "none"},
            a \in {A("one", 13), A("each", 30), A("buffer", 7)}}
         \cup {[ev |-> "attr", v |-> v, name |-> n, a |-> A("depth", 6)] : n \in {x \in {"width", "size"} : s.vis[v].kind = "Points"}}
         : v \in {x \in 1..Len(s.vis) : s.vis[x].kind \in {"Points", "Pixels", "Paths"}}})
Events(s) ==
  CASE Profile \in {"image", "images"} ->
         IF hist # <<>> /\ hist[Len(hist)].ev = "image" /\ ~Simulating THEN {}
         ELSE NewViewports(s) \cup NewVisuals(s) \cup Renders(s) \cup Resizes(s)
              \cup {[ev |-> "image", file |-> f] : f \in IF s.vps = <<>> THEN {} ELSE BOOLEAN}
    [] Profile = "pair" -> IF Len(s.vps) < 2 THEN NewViewports(s) ELSE NewVisuals(s) \cup Renders(s) \cup Resizes(s)
    [] Profile \in {"order", "orders", "groups"} -> NewViewports(s) \cup NewVisuals(s) \cup Renders(s)
    [] Profile = "replay" -> IF s.shown = <<>> THEN NewViewports(s) \cup NewVisuals(s) \cup Renders(s) ELSE {[ev |-> "replay"]}
    [] Profile = "layout" -> NewViewports(s) \cup NewVisuals(s) \cup Renders(s) \cup Resizes(s)
    [] OTHER -> NewViewports(s) \cup NewVisuals(s) \cup Renders(s) \cup (IF CanResize(s) THEN Resizes(s) ELSE {})
                \cup Moves(s) \cup Attrs(s)
                \cup (IF s.vps # <<>> /\ ~s.brk THEN {[ev |-> "broken", k |-> k] : k \in 1..Len(s.vps)} ELSE {})
                \cup (IF s.shown # <<>> /\ ~s.brk /\ Fresh(s) THEN {[ev |-> "replay"]} ELSE {})

(* no visual is twice on a viewport, items are drawn farthest first, every  *)
(* vertex group is drawn exactly once                                       *)
Inv == /\ \A i, j \in 1..Len(st.shown) : i # j => <<st.shown[i].v, st.shown[i].vp>> # <<st.shown[j].v, st.shown[j].vp>>
       /\ \A i \in 1..Len(st.shown) : Len(st.shown[i].items) = Len(Groups(st.vis[st.shown[i].v]))

Bag(s) == [x \in ToSet(s) |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
Ps(items) == [i \in 1..Len(items) |-> items[i].p]
ColBad(o, x) ==
  IF o = x THEN {}
  ELSE IF o.kind # x.kind THEN {"collections"}
  ELSE IF Len(o.items) # Len(x.items) \/ Bag(Ps(o.items)) # Bag(Ps(x.items))
  THEN {IF x.kind \in {"Paths", "Polygons"} THEN "partition" ELSE "projection"}
  ELSE IF Ps(o.items) # Ps(x.items) THEN {"order"} ELSE {"attributes"}
VpBad(o, x) ==
  (IF o.pos # x.pos \/ o.size # x.size \/ o.bg # x.bg THEN {"layout"} ELSE {})
  \cup (IF o.lim # x.lim THEN {"limits"} ELSE {})
  \cup (IF Len(o.cols) # Len(x.cols) THEN {"collections"}
        ELSE UNION {ColBad(o.cols[i], x.cols[i]) : i \in 1..Len(o.cols)})
ScreenBad(o, x) == IF Len(o) # Len(x) THEN {"layout"} ELSE UNION {VpBad(o[k], x[k]) : k \in 1..Len(o)}
Bad(e, r) ==
  LET o == e.o
      x == r.o
  IN (IF o.err # x.err THEN {"error"} ELSE {})
     \cup ScreenBad(o.screen, x.screen)
     \cup (IF o.pts # x.pts THEN {"source"} ELSE {})
     \cup (IF o.tracking # x.tracking THEN {"tracking"} ELSE {})
     \cup (IF ScreenBad(o.other, x.other) # {} THEN {"replay"} ELSE {})
     \cup (IF o.shape # x.shape \/ Len(o.image) # Len(x.image)
              \/ \E j \in 1..Len(x.image) : Len(o.image[j]) # Len(x.image[j])
                   \/ \E i \in 1..Len(x.image[j]) : x.image[j][i] \notin {-1, o.image[j][i]}
           THEN {"image"} ELSE {})
     \* an event must not change what the other visuals and viewports show
     \cup (IF e.ev \notin {"resize", "replay", "image"} /\ Len(o.screen) = Len(x.screen)
              /\ \E k \in 1..Len(x.screen) : Get(e, "k", 0) # k /\ o.screen[k] # x.screen[k] /\ e.ev # "viewport"
           THEN {"isolation"} ELSE {})


(* ----------------------------------------------------------- specification *)
GenInit == st = Init0 /\ hist = <<>> /\ l = 0 /\ tid = 0 /\ skip = FALSE
GenNext == /\ Len(hist) < MaxDepth
           /\ \E e \in Pick(Events(st)) : /\ hist' = Append(hist, e)
                                          /\ st' = Do(st, e).st
           /\ UNCHANGED <<l, tid, skip>>
GenSpec == GenInit /\ [][GenNext]_vars
View == <<st, Len(hist)>>
Emit == EmitPath(hist')

TraceInit == GenInit
TraceNext ==
  /\ l < Len(Log)
  /\ l' = l + 1 /\ hist' = <<>>
  /\ LET e == Log[l + 1] IN
     /\ tid' = e.tid
     /\ IF e.ev = "begin" THEN st' = Init0 /\ skip' = FALSE
        ELSE IF skip THEN UNCHANGED <<st, skip>>
        ELSE \E r \in {Do(st, e)} : \E bad \in {Bad(e, r)} :
                /\ st' = r.st
                /\ skip' = (bad # {})
                /\ bad # {} => Report(e.nn, e, SetToSeq(bad), r.o)
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceInv == TRUE
=============================================================================
