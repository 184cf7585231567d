------------------------------ MODULE PickleVM ------------------------------
(* The machine that protocol-0 pickles are programs for (C20), restricted to   *)
(* the operations the library supports. An instruction is <<code, operand>>:   *)
(*   "(" mark  "." stop  "N" none  "I" int  "F" float  "V" string  "c" class   *)
(*   "t" tuple  "l" list  "d" dict  "a" append  "s" set item  "R" call  "b"    *)
(*   build  "p" put  "g" get  "X" a literal that makes no sense  "?" any other *)
(* byte, "Y" an integer as no pickler writes it (refusing it is no harm).      *)
(* Numbers, strings and classes have opaque names (the operand); lists,  *)
(* dicts and called objects live in a heap, so that they can be shared.        *)
EXTENDS Integers, Sequences, TLC

V(k, n, e) == [k |-> k, n |-> n, e |-> e]
MarkV == V("mark", 0, <<>>)
Ref(i) == V("ref", i, <<>>)
\* heap objects: list e: items; dict ks: keys, e: values; red e: callable, args and, once built, the state
Obj(k, ks, e) == [k |-> k, ks |-> ks, e |-> e]

\* st: "run", "ok" (res is the object), "err", "any" (Python and the library need not agree)
Start == [st |-> "run", lax |-> FALSE, stack |-> <<>>, heap |-> <<>>, memo |-> <<>>, res |-> MarkV]
Fail(s) == [s EXCEPT !.st = "err"]
Free(s) == [s EXCEPT !.st = "any"]
Push(s, v) == [s EXCEPT !.stack = Append(@, v)]

\* are there k objects above the last mark?
Has(s, k) == Len(s.stack) >= k /\ \A i \in (Len(s.stack) - k + 1)..Len(s.stack) : s.stack[i].k # "mark"
TopN(s, i) == s.stack[Len(s.stack) - i] \* 0: the top
Pop(s, k) == [s EXCEPT !.stack = SubSeq(@, 1, Len(@) - k)]
Marks(s) == { i \in 1..Len(s.stack) : s.stack[i].k = "mark" }
LastMark(s) == CHOOSE i \in Marks(s) : \A j \in Marks(s) : j <= i
Above(s) == SubSeq(s.stack, LastMark(s) + 1, Len(s.stack))
Cut(s) == [s EXCEPT !.stack = SubSeq(@, 1, LastMark(s) - 1)]
New(s, o) == Push([s EXCEPT !.heap = Append(@, o)], Ref(Len(s.heap) + 1))

SetKey(o, k, v) == LET at == { i \in 1..Len(o.ks) : o.ks[i] = k }
                   IN IF at = {} THEN [o EXCEPT !.ks = Append(@, k), !.e = Append(@, v)]
                      ELSE [o EXCEPT !.e[CHOOSE i \in at : TRUE] = v]
RECURSIVE SetKeys(_, _)
SetKeys(o, items) == IF items = <<>> THEN o ELSE SetKeys(SetKey(o, items[1].n, items[2]), SubSeq(items, 3, Len(items)))

IsRef(s, v, k) == v.k = "ref" /\ s.heap[v.n].k = k

Exec1(s, i) ==
  LET c == i[1] n == i[2]
  IN CASE c = "(" -> Push(s, MarkV)
       [] c = "N" -> Push(s, V("none", 0, <<>>))
       [] c = "I" -> Push(s, V("int", n, <<>>))
       [] c = "Y" -> Push([s EXCEPT !.lax = TRUE], V("int", n, <<>>))
       [] c = "F" -> Push(s, V("flt", n, <<>>))
       [] c = "V" -> Push(s, V("str", n, <<>>))
       [] c = "c" -> Push(s, V("cls", n, <<>>))
       [] c = "t" -> IF Marks(s) = {} THEN Fail(s) ELSE Push(Cut(s), V("tup", 0, Above(s)))
       [] c = "l" -> IF Marks(s) = {} THEN Fail(s) ELSE New(Cut(s), Obj("list", <<>>, Above(s)))
       [] c = "d" -> IF Marks(s) = {} THEN Fail(s)
                     ELSE IF Len(Above(s)) % 2 = 1 THEN Fail(s)
                     ELSE IF \E j \in 1..Len(Above(s)) : j % 2 = 1 /\ Above(s)[j].k # "str" THEN Free(s)
                     ELSE New(Cut(s), SetKeys(Obj("dict", <<>>, <<>>), Above(s)))
       [] c = "a" -> IF ~Has(s, 2) THEN Fail(s)
                     ELSE LET o == TopN(s, 1)
                          IN IF IsRef(s, o, "list") THEN [Pop(s, 1) EXCEPT !.heap[o.n].e = Append(@, TopN(s, 0))]
                             ELSE IF IsRef(s, o, "red") THEN Free(s) ELSE Fail(s)
       [] c = "s" -> IF ~Has(s, 3) THEN Fail(s)
                     ELSE LET o == TopN(s, 2) k == TopN(s, 1)
                          IN IF IsRef(s, o, "dict") /\ k.k = "str"
                             THEN [Pop(s, 2) EXCEPT !.heap[o.n] = SetKey(@, k.n, TopN(s, 0))]
                             ELSE IF o.k = "ref" THEN Free(s) ELSE Fail(s)
       [] c = "R" -> IF ~Has(s, 2) THEN Fail(s)
                     ELSE IF TopN(s, 0).k # "tup" THEN Fail(s)
                     ELSE IF TopN(s, 1).k # "cls" THEN Free(s)
                     ELSE New(Pop(s, 2), Obj("red", <<>>, <<TopN(s, 1), TopN(s, 0)>>))
       [] c = "b" -> IF ~Has(s, 2) THEN Fail(s)
                     ELSE LET o == TopN(s, 1)
                          IN IF IsRef(s, o, "red") /\ Len(s.heap[o.n].e) = 2
                             THEN [Pop(s, 1) EXCEPT !.heap[o.n].e = Append(@, TopN(s, 0))]
                             ELSE Free(s)
       [] c = "p" -> IF ~Has(s, 1) THEN Fail(s) ELSE [s EXCEPT !.memo = (n :> TopN(s, 0)) @@ @]
       [] c = "g" -> IF n \notin DOMAIN s.memo THEN Fail(s) ELSE Push(s, s.memo[n])
       [] c = "." -> IF ~Has(s, 1) THEN Fail(s) ELSE [s EXCEPT !.st = "ok", !.res = TopN(s, 0)]
       [] OTHER -> Fail(s)

RECURSIVE Run(_, _, _)
Run(s, prog, i) == IF s.st # "run" THEN s
                   ELSE IF i > Len(prog) THEN Fail(s) \* the stream ends
                   ELSE Run(Exec1(s, prog[i]), prog, i + 1)
Exec(prog) == Run(Start, prog, 1)

\* ---- two object graphs are the same: walk both at once; m pairs the shared objects
RECURSIVE Same(_, _, _, _)
\* todo: pairs of values still to be compared
Same(h1, h2, todo, m) ==
  IF todo = <<>> THEN TRUE
  ELSE LET a == todo[1][1] b == todo[1][2] rest == Tail(todo)
           zip(x, y) == [ i \in 1..Len(x) |-> <<x[i], y[i]>> ]
       IN IF b.k = "opaque" THEN Same(h1, h2, rest, m)
          ELSE IF a.k # b.k THEN FALSE
          ELSE IF a.k = "tup" THEN Len(a.e) = Len(b.e) /\ Same(h1, h2, zip(a.e, b.e) \o rest, m)
          ELSE IF a.k # "ref" THEN a.n = b.n /\ Same(h1, h2, rest, m)
          ELSE IF a.n \in DOMAIN m THEN m[a.n] = b.n /\ Same(h1, h2, rest, m)
          ELSE LET x == h1[a.n] y == h2[b.n]
               IN /\ \A i \in DOMAIN m : m[i] # b.n
                  /\ x.k = y.k /\ Len(x.ks) = Len(y.ks) /\ Len(x.e) = Len(y.e)
                  /\ IF x.k = "dict"
                     THEN /\ \A i \in 1..Len(x.ks) : \E j \in 1..Len(y.ks) : x.ks[i] = y.ks[j]
                          /\ Same(h1, h2, [ i \in 1..Len(x.ks) |-> <<x.e[i], y.e[CHOOSE j \in 1..Len(y.ks) : x.ks[i] = y.ks[j]]>> ] \o rest,
                                  (a.n :> b.n) @@ m)
                     ELSE Same(h1, h2, zip(x.e, y.e) \o rest, (a.n :> b.n) @@ m)
SameGraph(h1, v1, h2, v2) == Same(h1, h2, <<<<v1, v2>>>>, <<>>)
=============================================================================
