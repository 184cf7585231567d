------------------------------- MODULE Bodies -------------------------------
(* What the trees of a model file must say (C22). A file is taken intact except *)
(* for a set of deviations <<tree, field, how>>: tree is the kind of tree (or   *)
(* node) it happens in, how replaces the field's value (or one number of its    *)
(* list) by one of another class. The formats give every field a type, and say  *)
(* which trees need it:                                                          *)
(*   a needed field that is absent, or not of its type, is refused;             *)
(*   a field that is not needed may be anything: refused, or without effect;    *)
(*   fields that nobody needs may be absent, and unknown ones present.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

D(ts, fs, hs) == ts \X fs \X hs

\* ------------------------------------------------------- LightGBM's text
TextTrees == {"mixed", "numeric", "constant"}
TextType(f) ==
  CASE f \in {"num_leaves", "num_cat"} -> "int"
    [] f \in {"leaf_value", "threshold", "split_gain", "internal_value"} -> "real"
    [] f \in {"split_feature", "decision_type", "cat_boundaries", "cat_threshold", "leaf_count"} -> "u32"
    [] f \in {"left_child", "right_child"} -> "i32"
Splits == {"split_feature", "threshold", "decision_type", "left_child", "right_child"}
TextNeeds(t, f) ==
  CASE f \in {"num_leaves", "num_cat", "leaf_value"} -> TRUE
    [] f \in Splits -> t # "constant"
    [] f \in {"cat_boundaries", "cat_threshold"} -> t = "mixed"
    [] OTHER -> FALSE
\* how a number is spelled: a word, nothing, a number with letters behind it,
\* one half more, an exponent, 2^bits more, minus a number, two numbers, missing
\* type 3 in a decision type
TextIs(type, how) ==
  CASE how \in {"word", "blank", "tail", "two"} -> FALSE
    [] how \in {"frac", "exp"} -> type = "real"
    [] how \in {"over"} -> FALSE
    [] how = "neg" -> type # "u32"
    [] how = "m3" -> FALSE
TextHows(f) ==
  {"absent", "word", "blank", "tail"}
  \cup (IF TextType(f) = "int" THEN {"two"} ELSE {})
  \cup (IF TextType(f) # "real" THEN {"frac", "exp", "over"} ELSE {})
  \cup (IF TextType(f) = "u32" THEN {"neg"} ELSE {})
  \cup (IF f = "decision_type" THEN {"m3"} ELSE {})
TextFields == {"num_leaves", "num_cat", "leaf_value"} \cup Splits \cup {"cat_boundaries", "cat_threshold"}
Extras == {"split_gain", "leaf_count", "internal_value"}
TextDevs == UNION { D(TextTrees, {f}, TextHows(f)) : f \in TextFields }
            \cup D(TextTrees, Extras, {"absent", "word", "blank"}) \cup D(TextTrees, {"another"}, {"field", "flag"})
TextVerdict(t, f, how) ==
  IF f = "another" \/ (f \in Extras /\ how = "absent") THEN "load"
  ELSE IF ~TextNeeds(t, f) THEN "same"
  ELSE IF how = "absent" \/ ~TextIs(TextType(f), how) THEN "refuse" ELSE "same"

\* ------------------------------------------------------- LightGBM's JSON
\* places: the tree, a numeric or categorical split, a leaf (constant: the only one)
JsonPlaces == {"tree", "numeric", "categorical", "leaf", "constant"}
JsonType(p, f) ==
  CASE f \in {"num_leaves"} -> "int"
    [] f = "split_feature" -> "u32"
    [] f = "threshold" -> IF p = "categorical" THEN "set" ELSE "real"
    [] f = "decision_type" -> "decision"
    [] f = "default_left" -> "bool"
    [] f = "missing_type" -> "missing"
    [] f \in {"left_child", "right_child", "tree_structure"} -> "node"
    [] f = "leaf_value" -> "real"
    [] OTHER -> "any"
JsonFields(p) ==
  CASE p = "tree" -> {"num_leaves", "tree_structure"}
    [] p = "numeric" -> {"split_feature", "threshold", "decision_type", "default_left", "missing_type", "left_child", "right_child"}
    [] p = "categorical" -> {"split_feature", "threshold", "decision_type", "missing_type", "left_child", "right_child"}
    [] p \in {"leaf", "constant"} -> {"leaf_value"}
JsonOptional(p) ==
  CASE p = "tree" -> {"num_cat", "tree_index", "shrinkage"}
    [] p \in {"numeric", "categorical"} -> {"split_index", "split_gain", "internal_value", "internal_count"}
    [] p \in {"leaf", "constant"} -> {"leaf_count", "leaf_weight"}
\* values of no such type
JsonNot(type) ==
  {"absent", "null", "list", "object"}
  \cup CASE type \in {"int", "u32"} -> {"true", "word", "empty", "digits", "half", "over"} \cup (IF type = "u32" THEN {"neg"} ELSE {})
         [] type = "real" -> {"true", "word", "empty", "digits"}
         [] type = "set" -> {"true", "word", "empty", "lists", "open", "bar", "minus", "point"}
         [] type = "decision" -> {"true", "word", "empty", "number", "<", ">", "=", "!=", "is", "<=="}
         [] type = "missing" -> {"true", "word", "empty", "number", "none", "nan", "zero", "NAN"}
         [] type = "bool" -> {"word", "empty", "number"}
         [] type = "node" -> {"true", "word", "empty", "number"}
         [] OTHER -> {}
JsonDevs ==
  UNION { UNION { D({p}, {f}, JsonNot(JsonType(p, f))) : f \in JsonFields(p) } : p \in JsonPlaces }
  \cup UNION { D({p}, JsonOptional(p), {"absent", "word"}) : p \in JsonPlaces }
  \cup D(JsonPlaces, {"another"}, {"field"})
  \cup D({"categorical"}, {"default_left"}, {"absent", "word"})
JsonVerdict(p, f, how) ==
  IF f = "another" \/ (f \in JsonOptional(p) /\ how = "absent") THEN "load"
  ELSE IF f \in JsonFields(p) THEN "refuse" ELSE "same"

\* ---------------------------------------------------- scikit-learn's pickle
\* objects: the model, an initial estimator of each kind, a tree's regressor, a tree
SkPlaces == {"model", "logodds", "priors", "regressor", "tree"}
SkType(p, f) ==
  CASE f \in {"n_classes_", "n_features_", "n_estimators", "node_count", "max_features_", "n_outputs_"} -> IF p = "regressor" THEN "any" ELSE "int"
    [] f = "learning_rate" -> "float"
    [] f \in {"init_", "tree_"} -> "object"
    [] f \in {"estimators_"} -> "list"
    [] f \in {"nodes", "values", "priors"} -> "array"
    [] f = "prior" -> "scalar"
    [] OTHER -> "any"
SkFields(p) ==
  CASE p = "model" -> {"n_classes_", "n_features_", "n_estimators", "learning_rate", "init_", "estimators_"}
    [] p = "logodds" -> {"prior"}
    [] p = "priors" -> {"priors"}
    [] p = "regressor" -> {"tree_"}
    [] p = "tree" -> {"node_count", "nodes", "values"}
SkUnused(p) ==
  CASE p = "model" -> {"loss", "max_features_", "classes_"}
    [] p = "regressor" -> {"n_classes_", "max_features_", "n_outputs_"}
    [] OTHER -> {}
SkOptional(p) ==
  CASE p = "model" -> {"verbose", "random_state", "subsample"} [] p = "regressor" -> {"criterion", "n_features_"}
    [] p = "tree" -> {"max_depth"} [] OTHER -> {}
\* class: another class by name; constructor, dtype, codec: something else called
\* in its place; kind: elements of another kind; order x: no byte order
SkNot(type) ==
  {"absent", "none", "word", "tuple", "dict", "empty list"}
  \cup CASE type = "int" -> {"real"}
         [] type = "float" -> {"object"}
         [] type = "object" -> {"int", "real", "array", "class"}
         [] type = "list" -> {"int", "real", "object", "raw", "fortran",       \* an array of objects
                              "class", "constructor", "dtype", "item none", "item word", "item list", "item class"}
         [] type = "array" -> {"int", "real", "object", "list", "float32", "int64", "half",
                               "class", "constructor", "dtype", "codec", "kind", "order x"}
         [] type = "scalar" -> {"int", "object", "float32", "int64", "half", "constructor", "dtype", "codec", "kind", "order x"}
         [] OTHER -> {}
\* what says the same in other words, or contradicts what nobody needs: the byte
\* order of the machine, a shape that does not fit
SkWords(type) == CASE type = "array" -> {"order =", "order |", "shape"} [] type = "scalar" -> {"order =", "order |"}
                   [] type = "list" -> {"float kind"} [] OTHER -> {}
SkDevs ==
  UNION { UNION { D({p}, {f}, SkNot(SkType(p, f)) \cup SkWords(SkType(p, f))) : f \in SkFields(p) } : p \in SkPlaces }
  \cup UNION { D({p}, SkUnused(p), {"absent", "word", "none"}) : p \in SkPlaces }
  \cup UNION { D({p}, SkOptional(p), {"absent", "word"}) : p \in SkPlaces }
  \cup D(SkPlaces, {"another"}, {"field"}) \cup D({"tree"}, {"nodes", "values"}, {"fortran"}) \cup D({"priors"}, {"priors"}, {"fortran"})
SkVerdict(p, f, how) ==
  IF f = "another" \/ f \in SkOptional(p) THEN "load"
  ELSE IF f \in SkUnused(p) THEN "same"
  ELSE IF how \in SkWords(SkType(p, f)) THEN "same"
  ELSE IF how = "fortran" /\ SkType(p, f) = "array" THEN "same"        \* of one dimension: no other order
  ELSE "refuse"

\* ------------------------------------------------------------------ verdict
Formats == {"lgtext", "lgjson", "skpkl"}
Devs(fmt) == CASE fmt = "lgtext" -> TextDevs [] fmt = "lgjson" -> JsonDevs [] fmt = "skpkl" -> SkDevs
One(fmt, d) == CASE fmt = "lgtext" -> TextVerdict(d[1], d[2], d[3]) [] fmt = "lgjson" -> JsonVerdict(d[1], d[2], d[3])
                 [] fmt = "skpkl" -> SkVerdict(d[1], d[2], d[3])
Verdict(fmt, ds) == IF \E d \in ds : One(fmt, d) = "refuse" THEN "refuse"
                    ELSE IF \E d \in ds : One(fmt, d) = "same" THEN "same" ELSE "load"
=============================================================================
