------------------------------ MODULE GenCalls ------------------------------
(* Enumerates the shapes of prediction calls (C10): entry point, number of     *)
(* rows, width, estimators, threads, lengths of input and output relative to   *)
(* what is needed. The driver makes every one of them on models of every kind, *)
(* every view. Checks on the way, for a small model, that refusal is monotone: *)
(* more output or more input never turns a served call into a refused one.     *)
EXTENDS Leaves, Json

M(k, nf) == [kind |-> "lg", nf |-> nf, k |-> k, avg |-> FALSE, base |-> <<>>, lr |-> 0, w |-> <<>>, sc |-> 8, tof |-> 0, tn |-> 0,
             trees |-> [i \in 1..(2 * k) |-> [n |-> <<>>, v |-> <<8>>]]]

Apis == {"single", "predict", "dense", "csr"}
Rows(api) == IF api \in {"single", "predict"} THEN {1} ELSE {0, 1, 2, 16, 17, 33}
\* width: 0 none, 1 one less than the features, 2 as many, 3 more
Widths(api) == IF api = "csr" THEN {2} ELSE 0..3
\* estimators: 0 none, 1 one, 2 all, 3 more than all, 4 all but one, 5 negative
Ns == 0..5
Threads(api) == IF api \in {"single", "predict"} THEN {1} ELSE {0, 1, 4}
\* output: 0 empty, 1 one short, 2 just enough, 3 one more
Outs(api) == IF api = "single" THEN {2} ELSE 0..3
\* dense values: 0 none, 1 one short, 2 just enough, 3 one more
Vals(api) == IF api = "dense" THEN 0..3 ELSE {2}

Cases == UNION { [api : {a}, rows : Rows(a), w : Widths(a), n : Ns, th : Threads(a), out : Outs(a), val : Vals(a)] : a \in Apis }

\* Sizes whose products wrap around 64 (or 32) bits, and negative ones: 100+e is 2^e,
\* 98 is -1, 99 is -2^63. Slices are as long as four rows of the model's features need.
Powers == {131, 132, 160, 161, 162}
HugeRows == {0, 1, 2, 3, 4} \cup Powers
HugeWidths == {0, 2, 3, 98, 99, 163} \cup Powers     \* 163: 2^63-1
Huge == { x \in [api : {"huge"}, rows : HugeRows, w : HugeWidths, n : {0}, th : {1, 4}, out : {0, 2}, val : {0, 2}] : x.rows > 4 \/ x.w > 3 }

VARIABLE c
Len4(mode, need) == CASE mode = 0 -> 0 [] mode = 1 -> Max(0, need - 1) [] mode = 2 -> need [] mode = 3 -> need + 1
Width(h, x) == CASE x.w = 0 -> 0 [] x.w = 1 -> h.m.nf - 1 [] x.w = 2 -> h.m.nf [] x.w = 3 -> h.m.nf + 1
NOf(h, x) == CASE x.n = 0 -> 0 [] x.n = 1 -> 1 [] x.n = 2 -> NE(h.m) [] x.n = 3 -> NE(h.m) + 1 [] x.n = 4 -> NE(h.m) - 1 [] x.n = 5 -> -1
Verdict(h, x) ==
  LET w == Width(h, x)
      v == IF x.api \in {"single", "predict"} THEN w ELSE Len4(x.val, x.rows * w)
  IN Refused(h, x.api, NOf(h, x), x.rows, w, v, Len4(x.out, NOut(h) * x.rows))

Hs == { Handle(M(k, nf), 1, "lgtext", t) : k \in {1, 3}, nf \in {1, 3}, t \in {TRaw, TLeaf} }

\* a huge width with rows is always refused, a huge number of rows too, whatever the products are modulo 2^64
HugeNum(x) == IF x = 98 THEN -1 ELSE IF x = 99 THEN -Vast ELSE IF x > 100 THEN Vast ELSE x
HugeWidth(h, x) == IF x.w = 2 THEN h.m.nf ELSE IF x.w = 3 THEN h.m.nf + 1 ELSE HugeNum(x.w)
HugeRefused == c.api = "huge" => \A h \in Hs :
  LET v == Refused(h, "dense", 0, HugeNum(c.rows), HugeWidth(h, c), IF c.val = 0 THEN 0 ELSE 4 * h.m.nf, IF c.out = 0 THEN 0 ELSE 4 * NOut(h))
  IN v = ~(c.rows = 0 /\ c.w > 99)

Init == c \in Cases \cup Huge /\ PrintT("GEN " \o ToJson(c))
Next == UNCHANGED c

Monotone == c.api # "huge" => \A h \in Hs :
  /\ c.out < 3 => (~Verdict(h, c) => ~Verdict(h, [c EXCEPT !.out = @ + 1]))
  /\ c.val < 3 => (~Verdict(h, c) => ~Verdict(h, [c EXCEPT !.val = @ + 1]))
  /\ (c.w < 3 /\ c.api # "dense") => (~Verdict(h, c) => ~Verdict(h, [c EXCEPT !.w = @ + 1]))
  \* the whole model may always be asked for
  /\ (c.n \in {0, 2, 3, 5} /\ c.out >= 2 /\ c.val >= 2 /\ c.w >= 2 /\ (c.api = "single" => NOut(h) = 1)) => ~Verdict(h, c)
=============================================================================
