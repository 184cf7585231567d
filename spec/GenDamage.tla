----------------------------- MODULE GenDamage ------------------------------
(* Enumerates the references of small trees and the structural defects (C21).  *)
EXTENDS Damage, Json
CONSTANTS NLG, NX, XNeg   \* splits of LightGBM trees, nodes of the others, minus the least reference of these
VARIABLE c
Trees(fmt, n, D) == [fmt : {fmt}, l : [1..n -> D], r : [1..n -> D]]
Cases == Trees("lgtext", NLG, -(NLG + 2)..NLG) \cup Trees("xgbin", NX, -XNeg..NX) \cup Trees("skpkl", NX, -XNeg..NX)
Defects == UNION { [fmt : {f}, defect : Refused(f) \cup Unclear(f)] : f \in {"lgtext", "lgjson", "xgbin", "dart", "linbin", "skpkl"} }
Init == c \in Cases \cup Defects /\ PrintT("GEN " \o ToJson(c))
Next == UNCHANGED c
=============================================================================
