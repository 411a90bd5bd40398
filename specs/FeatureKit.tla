----------------------------- MODULE FeatureKit -----------------------------
(***************************************************************************)
(* The feature engine (finmlkit/feature/base.py, kit.py, utils.py): a list *)
(* of features, each an expression over the columns of a frame of bars, is *)
(* built into a matrix.                                                    *)
(*                                                                         *)
(* An expression is a record with field op:                                *)
(*   "tf"    transform t with parameters k on the sources src              *)
(*   "chain" a transform, then transforms each reading the one before      *)
(*   "ext"   an external function o of the sources (and a constant c)      *)
(*   "bin"   l o r     "const"  e o c     "un"  o(e), with parameters      *)
(* and a source is a column of the frame ([ref |-> 0, j |-> column]) or a  *)
(* column of another feature of the list ([ref |-> feature, j |-> column]).*)
(*                                                                         *)
(* A feature is [ex, nm]: its expression and the names of its columns.     *)
(* Features are built one after another in the order of the list, or in    *)
(* any order in which a feature follows those it reads.                    *)
(***************************************************************************)
EXTENDS Indicators

VARIABLES kit, X, T,
          order,   \* "defined" or "topo"
          kept,    \* the retained columns: sequence of [n |-> name, v |-> values]
          val,     \* columns of the features built so far
          out,     \* the matrix: sequence of [n, v]
          st       \* "building", "done", "refused"
kvars == <<kit, X, T, order, kept, val, out, st>>

Lift(F(_, _), a, b) == IF a = Open \/ b = Open THEN Open ELSE F(a, b)
Apply2(o, a, b) ==
    CASE o = "add" -> RAdd(a, b) [] o = "sub" -> RSub(a, b) [] o = "mul" -> RMul(a, b) [] o = "div" -> RDiv(a, b)
      [] o = "rsub" -> RSub(b, a) [] o = "rdiv" -> RDiv(b, a)
      [] o = "min" -> IF Undef(a) \/ Undef(b) THEN NaN ELSE RMin(a, b)
      [] o = "max" -> IF Undef(a) \/ Undef(b) THEN NaN ELSE RMax(a, b)
Both(o, x, y) == [i \in 1..Len(x) |-> LET F(a, b) == Apply2(o, a, b) IN Lift(F, x[i], y[i])]
\* a recursive average: a missing value keeps the last one, and lets it fade
EmaRec(x, span) ==
    LET a == RDiv("2", R(span + 1))
        Step(s, v) == IF Undef(s.y) THEN [y |-> v, w |-> R1]
                      ELSE LET w == RMul(s.w, RSub(R1, a))
                           IN  IF Undef(v) THEN [s EXCEPT !.w = w]
                               ELSE [y |-> RCut(RDiv(RAdd(RMul(w, s.y), RMul(a, v)), RAdd(w, a))), w |-> R1]
    IN  Map(LAMBDA s : s.y, Tail(Scan(Step, [y |-> NaN, w |-> R1], x)))
Each(F(_), x) == Map(LAMBDA v : IF v = Open \/ Undef(v) THEN v ELSE F(v), x)
Un(o, p, x) ==
    CASE o = "abs" -> Each(RAbs, x)
      [] o = "log" -> Each(LAMBDA v : IF RLt(R0, v) THEN RLn(v) ELSE NaN, x)
      [] o = "log1p" -> Each(LAMBDA v : IF RLe(R0, v) THEN RLn(RAdd(R1, v)) ELSE NaN, x)
      [] o = "exp" -> Each(RExp, x)
      [] o = "square" -> Each(RSq, x)
      [] o = "sqrt" -> Each(LAMBDA v : IF RLe(R0, v) THEN RSqrt(v) ELSE NaN, x)
      [] o = "clip" -> Each(LAMBDA v : LET a == IF p.lo = "" THEN v ELSE RMax(v, p.lo) IN IF p.hi = "" THEN a ELSE RMin(a, p.hi), x)
      [] o = "rmean" -> Roll(RMean, x, p.w)
      [] o = "rsum" -> Roll(RSum, x, p.w)
      [] o = "rstd" -> LET F(s) == StdOf(s, 1) IN Roll(F, x, p.w)
      [] o = "ema" -> EwmMean(x, p.w)
      [] o = "emar" -> EmaRec(x, p.w)
      [] o = "lag" -> Shift(x, p.w)
\* the functions of numpy that stand for "any function of the columns"
Ext(o, c, S) ==
    CASE o = "square" -> <<Each(RSq, S[1])>> [] o = "sqrt" -> <<Each(LAMBDA v : IF RLe(R0, v) THEN RSqrt(v) ELSE NaN, S[1])>>
      [] o = "add" -> <<Both("add", S[1], Fill(c, Len(S[1])))>>
      [] o = "maximum" -> <<Both("max", S[1], S[2])>> [] o = "subtract" -> <<Both("sub", S[1], S[2])>>
      [] o = "clip" -> <<Un("clip", [lo |-> c, hi |-> RAdd(c, R1)], S[1])>>
      [] o = "modf" -> <<Each(LAMBDA v : RSub(v, RFloor(v)), S[1]), Each(RFloor, S[1])>>

\* the columns of expression ex, when feature i has the columns V[i]
Src(s, V) == IF s.ref = 0 THEN X[s.j] ELSE V[s.ref][s.j]
Srcs(src, V) == [m \in 1..Len(src) |-> Src(src[m], V)]
RECURSIVE Eval(_, _)
Eval(ex, V) ==
    CASE ex.op = "tf" -> Ind(ex.t, ex.k, Srcs(ex.src, V), T)
      [] ex.op = "chain" -> <<FoldLeft(LAMBDA x, s : Ind(s.t, s.k, <<x>>, T)[1], Ind(ex.t, ex.k, Srcs(ex.src, V), T)[1], ex.steps)>>
      [] ex.op = "ext" -> Ext(ex.o, ex.c, Srcs(ex.src, V))
      [] ex.op = "bin" -> <<Both(ex.o, Eval(ex.l, V)[1], Eval(ex.r, V)[1])>>
      [] ex.op = "const" -> LET x == Eval(ex.e, V)[1] IN <<Both(ex.o, x, Fill(ex.c, Len(x)))>>
      [] ex.op = "un" -> <<Un(ex.o, ex.p, Eval(ex.e, V)[1])>>
RECURSIVE Refs(_)
Refs(ex) ==
    CASE ex.op \in {"tf", "chain", "ext"} -> {ex.src[m].ref : m \in 1..Len(ex.src)} \ {0}
      [] ex.op = "bin" -> Refs(ex.l) \cup Refs(ex.r)
      [] ex.op \in {"const", "un"} -> Refs(ex.e)
\* the subexpressions: each has a column of its own in the cache
RECURSIVE Nodes(_)
Nodes(ex) ==
    {ex} \cup CASE ex.op = "bin" -> Nodes(ex.l) \cup Nodes(ex.r) [] ex.op \in {"const", "un"} -> Nodes(ex.e) [] OTHER -> {}
\* what a feature means, whatever else is built: by its expression and those it refers to
RECURSIVE Pure(_)
Pure(i) == Eval(kit[i].ex, [r \in Refs(kit[i].ex) |-> Pure(r)])

\* ------------------------------------------------------------------------ building
F == 1..Len(kit)
Done == DOMAIN val
Put(m, n, v) == IF \E q \in 1..Len(m) : m[q].n = n
                THEN [q \in 1..Len(m) |-> IF m[q].n = n THEN [n |-> n, v |-> v] ELSE m[q]]
                ELSE Append(m, [n |-> n, v |-> v])
PutAll(m, ns, vs) == FoldLeft(LAMBDA a, j : Put(a, ns[j], vs[j]), m, Idx(Len(ns)))
KitInit == val = [i \in {} |-> <<>>] /\ out = kept /\ st = "building"
Ready(i) == /\ i \notin Done /\ Refs(kit[i].ex) \subseteq Done
            /\ order = "defined" => 1..i - 1 \subseteq Done
Build(i) == /\ st = "building" /\ Ready(i)
            /\ LET v == Eval(kit[i].ex, val)
               IN  /\ val' = [r \in Done \cup {i} |-> IF r = i THEN v ELSE val[r]]
                   /\ out' = PutAll(out, kit[i].nm, v)
            /\ UNCHANGED <<kit, X, T, order, kept, st>>
\* a feature that reads a column not built yet stops the build
Refuse == /\ st = "building" /\ order = "defined" /\ \E i \in F : 1..i - 1 = Done /\ ~Ready(i)
          /\ st' = "refused" /\ UNCHANGED <<kit, X, T, order, kept, val, out>>
Finish == /\ st = "building" /\ Done = F /\ st' = "done" /\ UNCHANGED <<kit, X, T, order, kept, val, out>>
KitNext == (\E i \in F : Build(i)) \/ Refuse \/ Finish

Column(m, n) == LET q == {k \in 1..Len(m) : m[k].n = n} IN m[CHOOSE k \in q : TRUE].v
Names(m) == {m[k].n : k \in 1..Len(m)}
\* the columns mean what their features mean, whatever was built before them and in which order
Confluent == \A i \in Done : val[i] = Pure(i)
Complete == st = "done" => Names(out) = Names(kept) \cup UNION {{kit[i].nm[j] : j \in 1..Len(kit[i].nm)} : i \in F}
\* only the order of the list can fail, and only when it puts a feature before one it reads
Refusal == st = "refused" => order = "defined" /\ \E i \in F : \E r \in Refs(kit[i].ex) : r > i
=============================================================================
