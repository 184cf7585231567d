------------------------------ MODULE Headers -------------------------------
(* Which headers a loader accepts (C14). A case is a model file described by   *)
(* what its header declares; fields deviating from a consistent file are       *)
(* listed in `dev' (<<field, value>>). T = 2*k trees are in the file unless    *)
(* `trees' deviates; the model has two features, both used.                    *)
EXTENDS Leaves

Val(c, f, def) == IF f \in { d[1] : d \in RangeOf(c.dev) } THEN (CHOOSE d \in RangeOf(c.dev) : d[1] = f)[2] ELSE def
Deviates(c, f) == f \in { d[1] : d \in RangeOf(c.dev) }

\* a number that is given relative to a base; -999 when it is none
Num(v, base) == CASE v = "=" -> base [] v = "+1" -> base + 1 [] v = "-1" -> base - 1
                  [] v = "+k" -> base + 3 [] v = "0" -> 0 [] v = "neg" -> -1
                  [] v = "one" -> 1 [] v = "two" -> 2 [] v = "three" -> 3
                  [] OTHER -> -999
T0(c) == 2 * c.k

NoModel == [ok |-> FALSE, k |-> 0, ne |-> 0, nf |-> 0, t |-> 0]
Model0(c, k, ne, nf) ==
  LET m == [kind |-> c.kind, avg |-> c.avg, k |-> k]
      t == Called(m, c.fmt, c.xf, Val(c, "obj", c.obj))
  IN IF t < 0 THEN NoModel ELSE [ok |-> TRUE, k |-> k, ne |-> ne, nf |-> nf, t |-> t]

LGText(c) ==
  LET k == Num(Val(c, "nc", "="), c.k)
      sizes == Num(Val(c, "sizes", "="), T0(c))
      \* "none": a file that declares no trees and has none
      trees == IF Val(c, "sizes", "=") = "none" THEN 0 ELSE Num(Val(c, "trees", "="), T0(c))
  IN IF /\ Val(c, "ver", "v3") \in {"v2", "v3"}
        /\ k >= 1 /\ k = Num(Val(c, "ntpi", "="), c.k)
        /\ Val(c, "maxf", "=") \in {"=", "larger"}
        /\ sizes >= 1 /\ sizes % k = 0 /\ sizes <= trees
     THEN Model0(c, k, sizes \div k, IF Val(c, "maxf", "=") = "=" THEN 2 ELSE 6)
     ELSE NoModel
LGJson(c) ==
  LET k == Num(Val(c, "nc", "="), c.k)
      trees == Num(Val(c, "trees", "="), T0(c))
  IN IF /\ Val(c, "name", "tree") = "tree" /\ Val(c, "ver", "v2") = "v2"
        /\ k >= 1 /\ k = Num(Val(c, "ntpi", "="), c.k)
        /\ Val(c, "maxf", "=") \in {"=", "larger"}
        /\ trees >= 1 /\ trees % k = 0
     THEN Model0(c, k, trees \div k, IF Val(c, "maxf", "=") = "=" THEN 2 ELSE 6)
     ELSE NoModel
\* XGBoost trees: gbm is the booster the file names. The number of trees is
\* what the rest of the file is read by, so any other number is inconsistent.
Pattern(v, k, n) ==
  CASE v = "=" -> [i \in 1..n |-> (i - 1) % k]
    [] v = "zero" -> [i \in 1..n |-> 0]
    [] v = "next" -> [i \in 1..n |-> (i - 1) % (k + 1)]
    [] v = "shift" -> [i \in 1..n |-> i % k]
    [] v = "blocks" -> [i \in 1..n |-> (i - 1) \div (n \div k)]
    [] v = "last" -> [i \in 1..n |-> IF i = n THEN k ELSE (i - 1) % k]
    [] v = "neg" -> [i \in 1..n |-> IF i = n THEN -1 ELSE (i - 1) % k]
    [] v = "swap" -> [i \in 1..n |-> IF i = n - 1 THEN (n - 1) % k ELSE IF i = n THEN (n - 2) % k ELSE (i - 1) % k]
    [] v = "back" -> [i \in 1..n |-> k - 1 - ((i - 1) % k)]
XGBin(c) ==
  LET gbm == Val(c, "gbm", IF c.kind = "dart" THEN "dart" ELSE "gbtree")
      k == Num(Val(c, "groups", "="), c.k)
  IN IF /\ gbm = (IF c.kind = "dart" THEN "dart" ELSE "gbtree")
        /\ Val(c, "nf", "=") \in {"=", "larger"}
        /\ Val(c, "gbf", "=") \in {"=", "less"} \/ (Val(c, "gbf", "=") = "larger" /\ Val(c, "nf", "=") = "larger")
        /\ Val(c, "roots", "one") = "one" /\ Val(c, "troots", "one") = "one" /\ Val(c, "lroots", "one") = "one"
        /\ Val(c, "tnf", "=") \in {"=", "less"} \/ Val(c, "nf", "=") = "larger"
        /\ Val(c, "trees", "=") = "="
        /\ k >= 1 /\ T0(c) % k = 0
        /\ Pattern(Val(c, "info", "="), c.k, T0(c)) = Pattern("=", k, T0(c))
        /\ Val(c, "nw", "=") = "="
     THEN Model0(c, k, T0(c) \div k, IF Val(c, "nf", "=") = "=" THEN 2 ELSE 6)
     ELSE NoModel
LinBin(c) ==
  LET k == Num(Val(c, "groups", "="), c.k)
  IN IF /\ Val(c, "gbm", "gblinear") = "gblinear"
        /\ Val(c, "nf", "=") # "0"
        /\ k >= 1
        /\ Num(Val(c, "nw", "="), 3 * c.k) = (Num(Val(c, "lnf", "="), 2) + 1) * k
     THEN Model0(c, k, 1, 2)
     ELSE NoModel
\* the number of classes is 2 for one output
SKPkl(c) ==
  LET ncls == Num(Val(c, "ncls", "="), IF c.k = 1 THEN 2 ELSE c.k)
      k == IF ncls = 2 THEN 1 ELSE ncls
      nest == Num(Val(c, "nest", "="), 2)
      base == IF c.k = 1 THEN 2 ELSE c.k
      init == Val(c, "init", IF c.k = 1 THEN "LogOddsEstimator" ELSE "PriorProbabilityEstimator")
  IN IF /\ ncls >= 2
        /\ Num(Val(c, "clslen", "="), base) = ncls
        /\ nest >= 1
        /\ Num(Val(c, "rows", "="), 2) = nest
        /\ Num(Val(c, "cols", "="), c.k) = k
        /\ Num(Val(c, "items", "="), 2 * c.k) = nest * k
        /\ Val(c, "cls", "=") = "="
        /\ Val(c, "maxf", "=") = "="
        /\ CASE init = "LogOddsEstimator" -> k = 1 /\ (IF Deviates(c, "init") THEN Num(Val(c, "npri", "="), c.k) ELSE Num(Val(c, "npri", "="), 1)) = 1
             [] init = "PriorProbabilityEstimator" -> Num(Val(c, "npri", "="), c.k) = k
             [] OTHER -> FALSE
     THEN Model0(c, k, nest, 2)
     ELSE NoModel

Verdict(c) == CASE c.fmt = "lgtext" -> LGText(c) [] c.fmt = "lgjson" -> LGJson(c)
                [] c.fmt = "xgbin" -> XGBin(c) [] c.fmt = "linbin" -> LinBin(c) [] c.fmt = "skpkl" -> SKPkl(c)

\* Headers that contradict nothing the library promises to look at: a file with
\* more trees than it declares (what follows a model is ignored), a class count
\* that scikit-learn does not produce
NoObligation(c) ==
  \/ Deviates(c, "lnf") /\ Verdict(c).ok                       \* two numbers of features
  \* the last tree's bytes make a tree-to-class assignment: it is what follows a smaller model
  \/ Val(c, "trees", "=") = "-1" /\ Val(c, "lroots", "one") = "0"
  \/ c.kind = "dart" /\ Val(c, "gbm", "dart") = "gbtree"     \* the weights are bytes after the model then
  \/ c.fmt = "lgtext" /\ Val(c, "sizes", "=") # "none" /\ Num(Val(c, "sizes", "="), T0(c)) < Num(Val(c, "trees", "="), T0(c)) /\ Verdict(c).ok
  \/ c.fmt = "skpkl" /\ Num(Val(c, "ncls", "="), IF c.k = 1 THEN 2 ELSE c.k) = 1
                     /\ Num(Val(c, "clslen", "="), IF c.k = 1 THEN 2 ELSE c.k) = 1
=============================================================================
