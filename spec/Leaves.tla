------------------------------- MODULE Leaves -------------------------------
(* The library as a state machine: models are loaded into handles, views are   *)
(* made of handles, predictions are asked of handles. The only state is the    *)
(* set of handles: a prediction is a function of the handle's model and view,  *)
(* the number of estimators and the row. `memo' and `rawv' are history: the    *)
(* identity of the results seen for (model, view, n, row), and the raw scores. *)
EXTENDS Models, TLC

\* --------------------------------------------------------- transformations
\* types as the API numbers them
TRaw == 0  TLogistic == 1  TSoftmax == 2  TLeaf == 3  TExp == 4
TName(t) == <<"raw", "logistic", "softmax", "leaf_index", "exponential">>[t + 1]

RegressionObjs == {"regression", "regression_l1", "regression l2"}
ExpObjs == {"poisson", "gamma", "tweedie"}

\* The transformation a model file calls for: its type, or -1 when it has to be
\* refused. obj is the objective line of the file.
Called(m, fmt, xf, obj) ==
  CASE fmt = "lgjson" -> IF xf THEN -1 ELSE TRaw
    [] fmt = "skpkl" -> TRaw
    [] ~xf \/ m.avg -> TRaw
    [] fmt = "lgtext" ->
         CASE obj \in RegressionObjs -> TRaw
           [] obj \in ExpObjs -> IF m.k = 1 THEN TExp ELSE -1
           [] obj = "binary sigmoid:1" -> IF m.k = 1 THEN TLogistic ELSE -1
           [] \E k \in 1..9 : obj = "multiclass num_class:" \o ToString(k) /\ k = m.k -> TSoftmax
           [] OTHER -> -1
    [] OTHER -> IF obj = "binary:logistic" /\ m.k = 1 THEN TLogistic ELSE -1

FormatName(m, fmt) ==
  CASE fmt = "lgtext" -> IF m.avg THEN "lightgbm.rf" ELSE "lightgbm.gbdt"
    [] fmt = "lgjson" -> "lightgbm.gbdt"
    [] fmt = "xgbin" -> IF m.kind = "dart" THEN "xgboost.dart" ELSE "xgboost.gbtree"
    [] fmt = "linbin" -> "xgboost.gblinear"
    [] fmt = "skpkl" -> "sklearn.ensemble.GradientBoostingClassifier"

\* ----------------------------------------------------------------- handles
\* a handle: the model, the format it came from, the transformation type
Handle(m, src, fmt, t) == [m |-> m, src |-> src, fmt |-> fmt, t |-> t]
RawView(h) == [h EXCEPT !.t = TRaw]
LeafView(h) == [h EXCEPT !.t = TLeaf]

NOut(h) == IF h.t = TLeaf THEN h.m.k * NE(h.m) ELSE h.m.k

\* what a handle tells about itself
Meta(h) == [name |-> FormatName(h.m, h.fmt), nf |-> h.m.nf, ne |-> NE(h.m), nrg |-> h.m.k,
            nog |-> NOut(h), tt |-> h.t, tn |-> TName(h.t), nl |-> LeafCounts(h.m)]

\* ------------------------------------------------------------- predictions
\* rows: number of rows; ncols: width of dense rows; vlen: number of dense
\* values; plen: length of the output slice
\* sizes from Vast on are larger than any slice; products of sizes do not wrap around
Vast == 1073741824
Times(a, b) == IF a <= 0 \/ b <= 0 THEN 0 ELSE IF a > Vast \div b THEN Vast ELSE a * b
LeafN(h, n) == h.t = TLeaf /\ Eff(h.m, n) # NE(h.m)
Refused(h, api, n, rows, ncols, vlen, plen) ==
  CASE api = "single"  -> NOut(h) # 1 \/ h.m.nf > vlen \/ LeafN(h, n)
    [] api = "each" -> plen < Times(NOut(h), rows) \/ LeafN(h, n)      \* row by row through Predict
    [] api = "predict" -> plen < NOut(h) \/ h.m.nf > vlen \/ LeafN(h, n)
    [] api = "dense"   -> \/ plen < Times(NOut(h), rows) \/ ncols <= 0 \/ h.m.nf > ncols
                          \/ vlen < Times(rows, ncols) \/ LeafN(h, n)
    [] api = "csr"     -> plen < Times(NOut(h), rows) \/ LeafN(h, n)

\* who a model is the truncation of (line of the original, or of itself)
Root(h) == IF h.m.tof > 0 THEN h.m.tof ELSE h.src

\* Everything a row's result may depend on
Key(h, n, row) == <<Root(h), h.t, Eff(h.m, n), row>>
=============================================================================
