-------------------------------- MODULE Conf --------------------------------
(***************************************************************************)
(* Vocabulary shared by every specification of this directory.             *)
(*                                                                         *)
(* Each module M describes one part of GSP as a deterministic machine:     *)
(*                                                                         *)
(*    Init0            the initial abstract state                          *)
(*    Events(s)        the events the exhaustive configuration explores    *)
(*    Do(s, e)         [st |-> next state, o |-> expected observation]     *)
(*    Clauses(s, e, r) the names of the clauses an observed event breaks   *)
(*    Inv              the invariants / properties checked on the model    *)
(*                                                                         *)
(* and is used in two ways by TLC:                                         *)
(*                                                                         *)
(*    GenSpec    exhaustive exploration of the model (small constants);    *)
(*               checks the invariants and prints, for every transition of *)
(*               the state graph, the sequence of events that reaches it:  *)
(*               these behaviours are executed by the real code.           *)
(*    TraceSpec  validation of what the real code did (a recorded trace,   *)
(*               one JSON object per line) against Do.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils,
        SequencesExt, FiniteSetsExt, Functions

Log == ndJsonDeserialize(IOEnv.TRACE)
MaxDepth == atoi(IOEnv.DEPTH)

Simulating == IOEnv.SIM = "1"

(* Events explored from a state: all of them, or one drawn at random when  *)
(* simulating.  A behaviour is emitted for each transition of the state    *)
(* graph, or once it is complete when simulating.                          *)
(* (first the kind of event, so that rare kinds are drawn as often as       *)
(* those which have many variants)                                         *)
PickOne(S) == LET k == RandomElement({e.ev : e \in S})
              IN {RandomElement({e \in S : e.ev = k})}
Pick(S) == IF ~Simulating THEN S
           ELSE LET T == TLCEval(S) IN IF T = {} THEN {} ELSE TLCEval(PickOne(T))
EmitPath(h) == IF Simulating /\ Len(h) < MaxDepth THEN TRUE
               ELSE PrintT("PATH " \o ToJson(h))

Has(r, f) == f \in DOMAIN r
Get(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d

(* Report of a rejected trace line: everything needed to name the clause.  *)
Report(n, e, bad, exp) ==
  PrintT("REJECT " \o ToJson([tid |-> e.tid, n |-> n, ev |-> e.ev,
                               clauses |-> bad, expected |-> exp]))

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

(* ---- python slices; 99 stands for an absent bound -------------------------- *)
Absent == 99
Clip(x, lo, hi) == Max2(lo, Min2(x, hi))
Bound(x, n, lo, hi) == Clip(IF x < 0 THEN x + n ELSE x, lo, hi)
SliceIx(n, a, b, s) ==
  IF s > 0
  THEN LET i == IF a = Absent THEN 0 ELSE Bound(a, n, 0, n)
           j == IF b = Absent THEN n ELSE Bound(b, n, 0, n)
           m == IF j <= i THEN 0 ELSE (j - i + s - 1) \div s
       IN [k \in 1..m |-> i + (k - 1) * s]
  ELSE LET i == IF a = Absent THEN n - 1 ELSE Bound(a, n, -1, n - 1)
           j == IF b = Absent THEN -1 ELSE Bound(b, n, -1, n - 1)
           m == IF j >= i THEN 0 ELSE (i - j - s - 1) \div (-s)
       IN [k \in 1..m |-> i + (k - 1) * s]

(* ---- rationals: <<n, d>> with d > 0, normalised ------------------------ *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
QN(n, d) == LET s == IF d < 0 THEN -1 ELSE 1
                g == Gcd(Abs(n), Abs(d))
            IN IF n = 0 THEN <<0, 1>> ELSE <<(s * n) \div g, (s * d) \div g>>
Q(n) == <<n, 1>>
QAdd(a, b) == LET g == Gcd(a[2], b[2])
              IN QN(a[1] * (b[2] \div g) + b[1] * (a[2] \div g),
                    a[2] * (b[2] \div g))
QNeg(a) == <<-a[1], a[2]>>
QSub(a, b) == QAdd(a, QNeg(b))
QMul(a, b) == LET g == Gcd(Abs(a[1]), b[2])
                  h == Gcd(Abs(b[1]), a[2])
                  gg == IF g = 0 THEN 1 ELSE g
                  hh == IF h = 0 THEN 1 ELSE h
              IN QN((a[1] \div gg) * (b[1] \div hh), (a[2] \div hh) * (b[2] \div gg))
QInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
QDiv(a, b) == QMul(a, QInv(b))
QLt(a, b) == a[1] * b[2] < b[1] * a[2]
QLe(a, b) == a[1] * b[2] <= b[1] * a[2]
QMax(a, b) == IF QLt(a, b) THEN b ELSE a
QMin(a, b) == IF QLt(a, b) THEN a ELSE b
RECURSIVE QSumSeq(_)
QSumSeq(s) == IF s = <<>> THEN <<0, 1>> ELSE QAdd(Head(s), QSumSeq(Tail(s)))
=============================================================================
