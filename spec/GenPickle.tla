----------------------------- MODULE GenPickle ------------------------------
(* Every program of up to Depth instructions that has just come to its end, or *)
(* just gone wrong (C20).                                                      *)
EXTENDS PickleVM, Json
CONSTANTS Depth, Names
Ops == { <<c, 0>> : c \in {"(", "N", "t", "l", "d", "a", "s", "R", "b", ".", "?", "X"} }
       \cup { <<c, n>> : c \in {"V", "p", "g"}, n \in Names } \cup {<<"I", 1>>, <<"Y", 3>>, <<"c", 1>>}
VARIABLES prog, s
Init == prog = <<>> /\ s = Start
Next == /\ s.st = "run" /\ Len(prog) < Depth
        /\ \E o \in Ops : prog' = Append(prog, o) /\ s' = Exec1(s, o)
Done == IF s.st \in {"run", "any"} THEN TRUE ELSE PrintT("GEN " \o ToJson([prog |-> prog]))
\* the machine is well formed
Refs(v) == v.k = "ref" => v.n \in 1..Len(s.heap)
RECURSIVE Deep(_)
Deep(v) == Refs(v) /\ \A i \in 1..Len(v.e) : v.k = "tup" => Deep(v.e[i])
WellFormed == /\ \A i \in 1..Len(s.stack) : Deep(s.stack[i])
              /\ \A i \in 1..Len(s.heap) : \A j \in 1..Len(s.heap[i].e) : Deep(s.heap[i].e[j])
              /\ \A i \in DOMAIN s.memo : Deep(s.memo[i]) /\ s.memo[i].k # "mark"
              /\ s.st = "ok" => s.res.k # "mark"
              /\ s = Exec(prog) \/ s.st = "run"
=============================================================================
