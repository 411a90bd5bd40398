----------------------------- MODULE Requests -----------------------------
(***************************************************************************)
(* What finmlkit is asked for, and what it must refuse.  A request is its  *)
(* kind and the facts about it that decide whether it makes sense.  A      *)
(* request that does not is refused, with an error of the class its        *)
(* documentation names, and leaves everything it was given as it was; any  *)
(* other is carried out.                                                   *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, TLC

\* ---------------------------------------------------------------- the facts
Facts == [
    \* a label set is made from features: where the target is, how they are indexed, the pair of barriers, ...
    labelset |-> [target : {"there", "absent"}, index : {"time", "number", "text"}, bars : {"pair", "list", "triple", "one", "number"},
                  minret : {"-1", "-1/1000000000", "0", "1/100"}, meta : BOOLEAN, side : {"absent", "int64", "int8", "float", "text"},
                  data : {"full", "void", "tiny"}],
    \* it is labelled on trades, for a life of vb seconds; none: no event's life ends before the trades do
    labels |-> [trades : {"trades", "frame", "none"}, vb : {"-60", "0", "60"}, none : BOOLEAN, meta : BOOLEAN],
    info |-> [trades : {"trades", "frame"}, labels : {"frame", "series", "none"}, cols : {"both", "no event", "no touch"}, norm : BOOLEAN],
    final |-> [u : {"series", "array"}, c : {"-2", "-1", "-1/2", "0", "1", "1001/1000", "nan", "inf", "text", "none"},
               r : {"none", "series", "array", "zero"}, v : {"none", "series", "list"}, lab : {"none", "series", "array"}],
    filter |-> [n : 0..4, m : 0..5],
    trades |-> [ts : {"array", "list", "series"}, px : {"array", "list"}, qty : {"array", "series"}, id : {"array", "list", "none"},
                maker : {"array", "list", "none"}, side : {"array", "list", "none"}, pre : BOOLEAN,
                unit : {"none", "ns", "us", "minute"}, res : {"none", "s", "ms", "hour"}],
    view |-> [order : {"before", "same", "after"}, form : {"text", "time"}, had : BOOLEAN],
    \* one number for every bar (typical sizes) or every trade (volatility), or by d too many
    percount |-> [what : {"sizes", "volatility"}, d : {-2, -1, 0, 1, 3}],
    slice |-> [key : {"positions", "times", "texts", "list", "number", "text", "none", "pair", "array"}],
    profile |-> [d : {-1, 0, 1}, bounds : {"none", "texts", "times", "mixed"}],
    noprices |-> [n : 0..2],
    indicator |-> [what : {"SMA", "ATR", "CUSUMTest", "CandleShape", "Return", "ReturnT", "EWMST", "BarRate", "TimeCues", "BarDuration",
                           "BarDurationEWMA", "DailyGap", "ORBBreak", "Identity", "External", "Compose", "Sum", "Min", "Abs", "Times2"},
                   given : {"frame", "series", "dict"}, cols : {"all", "first", "other"}, index : {"time", "number"}, backend : {"nb", "pd", "gpu", "none"}],
    combine |-> [op : {"add", "sub", "mul", "div", "min", "max"}, left : {"one", "two"}, right : {"one", "two", "number"}],
    rename |-> [had : {"one", "two"}, to : {"one", "two", "three"}],
    config |-> [kind : {"binary", "minmax", "const", "unary", "external"}, op : {"known", "unknown"}, func : BOOLEAN, cols : BOOLEAN],
    external |-> [gives : {"array", "tuple1", "tuple2", "tuple3", "list2"}, says : 1..3, func : {"callable", "path", "constant", "nothing"}],
    param |-> [what : {"ewma span", "return window", "range lengths", "test price"}, v : {"-1", "0", "1/2", "1", "3"}]]
Kinds == DOMAIN Facts

\* ---------------------------------------------------------------- what does not make sense
V == {"ValueError"}
T == {"TypeError"}
A == {"AssertionError"}
Some == V \cup T \cup A \cup {"AttributeError"}
Timed == {"ReturnT", "EWMST", "BarRate", "TimeCues", "BarDuration", "BarDurationEWMA", "DailyGap", "ORBBreak"}
Neg(x) == RLt(x, "0")
\* [reason |-> classes of the error that names it], for the reasons the request does not make sense
Pick(t) == LET on == {r \in DOMAIN t : t[r][1]} IN [r \in on |-> t[r][2]]
Wrong(k, f) ==
    CASE k = "labelset" -> Pick(
            [target |-> <<f.target = "absent", V>>, index |-> <<f.index # "time", V>>, bars |-> <<f.bars # "pair", V>>,
             minret |-> <<Neg(f.minret), V>>, side |-> <<f.meta /\ f.side \notin {"int64", "int8"}, V>>,
             data |-> <<f.data = "void" \/ (f.data = "tiny" /\ f.minret = "1/100"), V>>])
      [] k = "labels" -> Pick([trades |-> <<f.trades # "trades", V>>, vb |-> <<~RLt("0", f.vb), V>>, none |-> <<f.none, V>>])
      [] k = "info" -> Pick([trades |-> <<f.trades # "trades", V>>, labels |-> <<f.labels # "frame", V>>, cols |-> <<f.cols # "both", V>>])
      [] k = "final" -> Pick([u |-> <<f.u # "series", V>>, r |-> <<f.r \notin {"none", "series"}, V>>, v |-> <<f.v \notin {"none", "series"}, V>>,
             lab |-> <<f.lab \notin {"none", "series"}, V>>,
             c |-> <<f.c \in {"nan", "inf", "text", "none"} \/ RLt(f.c, "-1") \/ RLt("1", f.c), V>>])
      [] k = "filter" -> Pick([n |-> <<f.n < 2, V>>, m |-> <<f.m \notin {1, f.n}, V>>])
      [] k = "trades" -> Pick([ts |-> <<f.ts # "array", T>>, px |-> <<f.px # "array", T>>, qty |-> <<f.qty # "array", T>>,
             id |-> <<f.id = "list", T>>, maker |-> <<f.maker = "list", T>>, side |-> <<f.side = "list", T>>,
             noid |-> <<f.pre /\ f.id = "none", V>>, unit |-> <<f.pre /\ f.unit = "minute", V>>, res |-> <<f.pre /\ f.res = "hour", V>>])
      [] k = "view" -> Pick([order |-> <<f.order # "before", V>>])
      [] k = "percount" -> Pick([d |-> <<f.d # 0, V>>])
      [] k = "slice" -> Pick([key |-> <<f.key \notin {"positions", "times", "texts"}, T>>])
      [] k = "profile" -> Pick([d |-> <<f.d # 0, A>>, bounds |-> <<f.bounds = "mixed", A>>])
      [] k = "noprices" -> Pick([n |-> <<f.n = 0, V>>])
      [] k = "indicator" -> Pick([given |-> <<f.given # "frame", IF f.what = "Identity" THEN Some ELSE T>>,
             cols |-> <<f.cols = "other" \/ (f.cols = "first" /\ f.what \in {"ATR", "CandleShape", "ORBBreak", "Sum", "Min"}), V>>,
             index |-> <<f.index # "time" /\ f.what \in Timed, V>>, backend |-> <<f.backend \notin {"nb", "pd"}, V \cup A>>])
      [] k = "combine" -> Pick([left |-> <<f.left = "two", Some>>, right |-> <<f.right = "two", Some>>])
      [] k = "rename" -> Pick([to |-> <<f.had # f.to, A>>])
      [] k = "config" -> Pick([op |-> <<f.kind # "external" /\ f.op = "unknown", V>>, func |-> <<f.kind = "external" /\ ~f.func, V>>,
             cols |-> <<f.kind = "external" /\ ~f.cols, V>>])
      [] k = "external" -> Pick([gives |-> <<(f.gives = "tuple1" /\ f.says # 1) \/ (f.gives \in {"tuple2", "list2"} /\ f.says # 2)
                                             \/ (f.gives = "tuple3" /\ f.says # 3), V>>,
             constant |-> <<f.func = "constant", T>>, nothing |-> <<f.func = "nothing", V>>])
      [] k = "param" -> Pick([v |-> <<CASE f.what = "ewma span" -> RLt(f.v, "1") [] f.what = "return window" -> ~RLt("0", f.v)
                                        [] f.what = "range lengths" -> f.v # "0" [] OTHER -> ~RLt("0", f.v), V>>])

\* facts that cannot be, or about which nothing is promised
Sensible(k, f) ==
    CASE k = "labelset" -> (f.target = "absent" => f.data = "full") /\ (~f.meta => f.side # "text")
      [] k = "info" -> f.labels # "frame" => f.cols = "both"
      [] k = "trades" -> (~f.pre => f.unit \in {"ns", "us"} /\ f.res = "none")
      \* inputs that are not even numbers have no times to check; an identity and a function of one's own have no backend
      [] k = "indicator" -> /\ (f.given # "frame" => f.cols = "all" /\ f.index = "time")
                            /\ (f.what \in {"Identity", "External"} => f.backend \in {"nb", "pd"})
      [] k = "config" -> (f.kind = "external" => f.op = "known") /\ (f.kind # "external" => f.func /\ f.cols)
      [] k = "external" -> (f.func # "callable" => f.gives = "array") /\ (f.gives = "array" => f.says = 1)
                           /\ (f.gives = "tuple1" => f.says # 1)
      [] k = "profile" -> f.bounds = "mixed" => f.d = 0
      [] k = "param" -> f.what = "return window" => f.v # "1/2"
      [] OTHER -> TRUE

\* ---------------------------------------------------------------- asking
Refused(k, f) == DOMAIN Wrong(k, f) # {}
\* an answer is [done, class, kept]: whether it was carried out, else the class of the error; whether what was given is as it was
Right(k, f, a) == [refused |-> Refused(k, f) => ~a.done,
                   done |-> Refused(k, f) \/ a.done,
                   class |-> Refused(k, f) /\ ~a.done => a.class \in UNION {Wrong(k, f)[r] : r \in DOMAIN Wrong(k, f)},
                   kept |-> a.kept]
=============================================================================
