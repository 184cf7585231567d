------------------------------- MODULE GenMat -------------------------------
(* Enumerates small text documents and calls that read them (C17, C18).        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS MaxLines, MaxToks
Fmt == IF IOEnv.PROP = "C17" THEN "csv" ELSE "svm"
Tok == IF Fmt = "csv" THEN {-1, 0, 1, 2} ELSE {<<-1, 0>>, <<0, 0>>, <<0, 1>>, <<1, 1>>, <<5, 2>>}
\* many tokens on one line, or few on several
Lines(k) == UNION { [1..n -> Tok] : n \in 0..k }
Docs == UNION ({ [1..n -> Lines(MaxToks)] : n \in 0..MaxLines } \cup { [1..1 -> Lines(MaxToks + 2)] })
VARIABLE c
Init == /\ c \in [fmt : {Fmt}, dense : IF Fmt = "csv" THEN {TRUE} ELSE BOOLEAN, doc : Docs, limit : 0..2, skip : BOOLEAN]
        /\ PrintT("GEN " \o ToJson(c))
Next == UNCHANGED c
=============================================================================
