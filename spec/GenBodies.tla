----------------------------- MODULE GenBodies ------------------------------
(* Enumerates the deviations of the trees' descriptions (C22), and pairs.      *)
EXTENDS Bodies, Json
CONSTANT MaxDev
VARIABLES fmt, ds
vars == <<fmt, ds>>
Init == fmt \in Formats /\ ds = {}
\* not twice in one place
Apart(d) == \A e \in ds : e[1] # d[1] \/ e[2] # d[2]
\* an initial estimator is of one kind; what hides another deviation is alone
Together(d) == fmt = "skpkl" => ~({"logodds", "priors"} \subseteq {d[1]} \cup { e[1] : e \in ds })
Next == /\ Cardinality(ds) < MaxDev
        /\ \E d \in Devs(fmt) : Apart(d) /\ Together(d) /\ ds' = ds \cup {d}
        /\ UNCHANGED fmt
Spec == Init /\ [][Next]_vars
Emit == PrintT("GEN " \o ToJson([fmt |-> fmt, ds |-> ds]))
\* every field that some tree needs has a deviation that must be refused, an intact file loads
Covered == /\ Verdict(fmt, {}) = "load"
           /\ \A f \in TextFields : \E t \in TextTrees : Verdict("lgtext", {<<t, f, "absent">>}) = "refuse"
           /\ \A p \in JsonPlaces : \A f \in JsonFields(p) : Verdict("lgjson", {<<p, f, "absent">>}) = "refuse"
           /\ \A p \in SkPlaces : \A f \in SkFields(p) : Verdict("skpkl", {<<p, f, "absent">>}) = "refuse"
\* more deviations never make a file better
Worse(v) == CASE v = "load" -> 0 [] v = "same" -> 1 [] v = "refuse" -> 2
Monotone == [][Worse(Verdict(fmt, ds')) >= Worse(Verdict(fmt, ds))]_vars
=============================================================================
