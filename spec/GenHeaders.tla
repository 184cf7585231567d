----------------------------- MODULE GenHeaders -----------------------------
(* Enumerates headers: every kind of file, number of classes, objective,       *)
(* transformation wanted or not, with no, one and two (MaxDev) deviations.     *)
EXTENDS Headers, Json
CONSTANT MaxDev

D(f, vs) == { <<f, v>> : v \in vs }
Devs(fmt) ==
  CASE fmt = "lgtext" ->
         D("ver", {"v2", "v1", "v4", "", "absent", "v3.1", "v33", "v20", "V3", "3", "v", "v2 v3", "v3beta"}) \cup D("nc", {"+1", "0", "neg", "x", "absent", "one", "three"})
         \cup D("ntpi", {"+1", "0", "neg", "x", "absent", "one", "three"}) \cup D("sizes", {"+1", "-1", "+k", "absent", "none"})
         \cup D("trees", {"+1", "-1", "0"}) \cup D("maxf", {"larger", "x", "absent", "small", "huge", "neg"})
    [] fmt = "lgjson" ->
         D("ver", {"v1", "v3", "v4", "", "absent", "v2.1", "v22", "V2", "2", "v"}) \cup D("name", {"forest", "", "absent"})
         \cup D("nc", {"+1", "0", "neg", "x", "absent", "one", "three"}) \cup D("ntpi", {"+1", "0", "neg", "x", "absent", "one", "three"})
         \cup D("trees", {"+1", "-1", "0", "absent"}) \cup D("maxf", {"larger", "x", "absent", "small", "huge", "neg"})
    [] fmt = "xgbin" ->
         D("gbm", {"gbforest", "", "gbtree", "dart", "gblinear", "gbtree2", "Gbtree"}) \cup D("nf", {"0", "larger"}) \cup D("gbf", {"less", "larger"})
         \cup D("roots", {"0", "two", "neg"}) \cup D("troots", {"0", "two", "neg"}) \cup D("lroots", {"0", "two", "neg"}) \cup D("tnf", {"larger", "last", "less"}) \cup D("trees", {"+1", "-1", "0", "neg"})
         \cup D("groups", {"+1", "0", "neg", "one", "two"}) \cup D("info", {"zero", "next", "shift", "blocks", "last", "neg", "swap", "back"})
         \cup D("nw", {"+1", "-1", "0"})
    [] fmt = "linbin" ->
         D("gbm", {"gbtree", "dart", "", "gblinear2"}) \cup D("nf", {"0"}) \cup D("groups", {"+1", "0", "neg", "one"})
         \cup D("nw", {"+1", "-1", "0", "+k", "three"}) \cup D("lnf", {"+1", "-1", "0"})
    [] fmt = "skpkl" ->
         D("ncls", {"+1", "-1", "0", "neg", "two"}) \cup D("clslen", {"+1", "-1", "0", "two"}) \cup D("nest", {"+1", "-1", "0", "neg", "none"})
         \cup D("rows", {"+1", "-1", "0"}) \cup D("cols", {"+1", "-1", "0", "one", "two"}) \cup D("items", {"+1", "-1", "0"})
         \cup D("npri", {"+1", "-1", "0", "two"}) \cup D("cls", {"GradientBoostingRegressor", "RandomForestClassifier"})
         \cup D("init", {"LogOddsEstimator", "PriorProbabilityEstimator", "ZeroEstimator"}) \cup D("maxf", {"small"})

LGObjs == {"regression", "regression_l1", "regression l2", "poisson", "gamma", "tweedie", "binary sigmoid:1", "binary sigmoid:2", "binary sigmoid:0", "binary sigmoid:-1",
           "binary sigmoid:0.5", "binary sigmoid:1.5", "binary sigmoid:x", "binary sigmoid:", "binary sigmoid:10", "multiclass num_class:4", "multiclass num_class:13", "multiclass num_class:-1",
           "multiclass num_class:x", "poisson sqrt", "Poisson", "multiclassova num_class:3",
           "multiclass num_class:1", "multiclass num_class:2", "multiclass num_class:3", "multiclassova num_class:3 sigmoid:1", "regression sqrt", "huber",
           "cross_entropy", "lambdarank", "binary", "multiclass", "absent"}
XGObjs == {"binary:logistic", "reg:linear", "reg:logistic", "multi:softmax", "multi:softprob", "binary:logitraw", "rank:pairwise", "count:poisson", ""}
B(fmt, kind, avgs, objs) == [fmt : {fmt}, kind : {kind}, k : IF kind = "sk" THEN {1, 3} ELSE {1, 2, 3}, avg : avgs, xf : BOOLEAN, obj : objs]
Bases == B("lgtext", "lg", BOOLEAN, LGObjs) \cup B("lgjson", "lg", {FALSE}, {"regression"})
         \cup B("xgbin", "xg", {FALSE}, XGObjs) \cup B("xgbin", "dart", {FALSE}, {"binary:logistic", "reg:linear"})
         \cup B("linbin", "lin", {FALSE}, XGObjs) \cup B("skpkl", "sk", {FALSE}, {""})
\* pairs of deviations for these
Main(b) == /\ b.obj \in {"regression", "binary:logistic", ""} /\ ~b.avg /\ (b.xf => b.fmt = "lgtext")
           /\ ~(b.fmt \in {"linbin", "xgbin"} /\ b.obj = "")

Case(b, dev) == [fmt |-> b.fmt, kind |-> b.kind, k |-> b.k, avg |-> b.avg, xf |-> b.xf, obj |-> b.obj, dev |-> dev]
\* weight counts belong to dart and gblinear
Fits(b, d) == d[1] = "nw" => b.kind # "xg"

VARIABLE c
Init == \E b \in Bases : c = Case(b, <<>>)
Order == <<"ver", "name", "gbm", "nc", "ntpi", "ncls", "clslen", "nf", "gbf", "maxf", "groups", "info", "roots", "troots", "lroots", "tnf", "lnf", "trees", "sizes", "nest", "rows", "cols", "items", "npri", "cls", "init", "nw">>
At(f) == CHOOSE i \in 1..Len(Order) : Order[i] = f
Next == /\ Len(c.dev) < MaxDev
        /\ Len(c.dev) > 0 => Main(c)
        /\ \E d \in Devs(c.fmt) :
              /\ Fits(c, d) /\ \A e \in RangeOf(c.dev) : At(e[1]) < At(d[1])
              /\ c' = [c EXCEPT !.dev = Append(@, d)]
Spec == Init /\ [][Next]_c

Emit == NoObligation(c) \/ PrintT("GEN " \o ToJson(c))
\* a plain file of every kind loads, whatever its objective, without transformation
Plain == (c.dev = <<>> /\ ~c.xf) => Verdict(c).ok
\* what a lone deviation may keep loadable
Single == (Len(c.dev) = 1 /\ Verdict(c).ok) =>
            LET d == c.dev[1]
            IN \/ d \in {<<"ver", "v2">>, <<"maxf", "larger">>, <<"nf", "larger">>, <<"gbf", "less">>, <<"tnf", "less">>}
               \/ d[1] \in {"nc", "ntpi", "groups", "ncls", "npri"} /\ d[2] \in {"one", "two", "three"}  \* the very number
               \/ (d[1] = "init" /\ c.k = 1) \/ d = <<"init", "PriorProbabilityEstimator">>
               \/ d[1] \in {"gbm", "cols", "clslen", "info", "nw"}     \* the value it had
               \/ d[1] = "trees" /\ c.fmt \in {"lgjson", "lgtext"}
               \/ d[1] = "sizes" /\ c.k = 1
=============================================================================
