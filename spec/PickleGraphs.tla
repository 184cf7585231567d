---------------------------- MODULE PickleGraphs ----------------------------
(* Sharing does not matter (C20): however a pickler uses the memo, running the  *)
(* pickle of an object graph rebuilds that graph, cycles and sharing included. *)
(* Every graph of up to Objs lists, dicts and called objects is pickled in     *)
(* every style and run.                                                        *)
EXTENDS PickleVM, FiniteSets, Json
CONSTANTS Objs, Items

\* items of a graph of n objects
Val(n) == {V("int", 1, <<>>), V("str", 2, <<>>)} \cup { Ref(i) : i \in 1..n } \cup { V("tup", 0, <<Ref(i)>>) : i \in 1..n }
Objects(n) ==
  UNION { { Obj("list", <<>>, e) : e \in [1..k -> Val(n)] } : k \in 0..Items }
  \cup { Obj("dict", <<>>, <<>>) } \cup { Obj("dict", <<7>>, <<v>>) : v \in Val(n) }
  \cup { Obj("dict", <<7, 8>>, <<v, w>>) : v \in {Ref(1), V("int", 1, <<>>)}, w \in Val(n) }
  \cup { Obj("red", <<>>, <<V("cls", 3, <<>>), V("tup", 0, <<>>)>>) }
  \cup { Obj("red", <<>>, <<V("cls", 3, <<>>), V("tup", 0, <<V("str", 2, <<>>)>>), v>>) : v \in Val(n) }

\* styles: memo: "all" (PUT everything), "need" (PUT what is met again); bulk: lists and
\* dicts in one go (not for objects on cycles); dup: put again, under another key, after building
Styles == [memo : {"all", "need"}, bulk : BOOLEAN, dup : BOOLEAN]

VARIABLES heap, style
Cat(a, b) == [ops |-> a.ops \o b.ops, done |-> b.done]
O(p, done) == [ops |-> p, done |-> done]

\* reach: objects reachable from an object; needed: met more than once when walking from the root
RECURSIVE ValRefs(_)
ValRefs(v) == IF v.k = "ref" THEN {v.n} ELSE IF v.k = "tup" THEN UNION { ValRefs(v.e[i]) : i \in 1..Len(v.e) } ELSE {}
Refs(o) == UNION { ValRefs(o.e[i]) : i \in 1..Len(o.e) }
RECURSIVE Reach(_, _)
Reach(h, r) == LET n == r \cup UNION { Refs(h[i]) : i \in r } IN IF n = r THEN r ELSE Reach(h, n)
OnCycle(h, i) == i \in Reach(h, Refs(h[i]))

\* done: objects already pickled (and memoised)
RECURSIVE Save(_, _, _, _), SaveAll(_, _, _, _), Adds(_, _, _, _, _)
SaveAll(h, st, vs, done) ==
  IF vs = <<>> THEN O(<<>>, done)
  ELSE LET a == Save(h, st, vs[1], done) b == SaveAll(h, st, Tail(vs), a.done) IN Cat(a, b)
\* items added one by one
Adds(h, st, o, i, done) ==
  IF i > Len(o.e) THEN O(<<>>, done)
  ELSE LET key == IF o.k = "dict" THEN <<<<"V", o.ks[i]>>>> ELSE <<>>
           a == Save(h, st, o.e[i], done)
           op == IF o.k = "dict" THEN <<<<"s", 0>>>> ELSE <<<<"a", 0>>>>
           b == Adds(h, st, o, i + 1, a.done)
       IN O(key \o a.ops \o op \o b.ops, b.done)
Put(st, i, late) == IF late /\ st.dup THEN <<<<"p", 10 + i>>, <<"p", i>>>> ELSE <<<<"p", i>>>>
Save(h, st, v, done) ==
  CASE v.k = "int" -> O(<<<<"I", v.n>>>>, done)
    [] v.k = "str" -> O(<<<<"V", v.n>>>>, done)
    [] v.k = "cls" -> O(<<<<"c", v.n>>>>, done)
    [] v.k = "tup" -> LET a == SaveAll(h, st, v.e, done) IN O(<<<<"(", 0>>>> \o a.ops \o <<<<"t", 0>>>>, a.done)
    [] v.k = "ref" ->
       IF v.n \in done THEN O(<<<<"g", v.n>>>>, done)
       ELSE LET o == h[v.n]
                bulk == st.bulk /\ ~OnCycle(h, v.n)
                late == IF st.dup THEN Put(st, v.n, TRUE) ELSE <<>>
            IN IF o.k = "red"
               THEN LET f == SaveAll(h, st, <<o.e[1], o.e[2]>>, done)
                        s == IF Len(o.e) = 3 THEN Save(h, st, o.e[3], f.done \cup {v.n}) ELSE O(<<>>, f.done \cup {v.n})
                    IN O(f.ops \o <<<<"R", 0>>>> \o Put(st, v.n, FALSE) \o s.ops \o (IF Len(o.e) = 3 THEN <<<<"b", 0>>>> ELSE <<>>) \o late, s.done)
               ELSE LET end == IF o.k = "dict" THEN <<<<"d", 0>>>> ELSE <<<<"l", 0>>>>
                        flat == IF o.k = "dict" THEN [ j \in 1..(2 * Len(o.e)) |-> IF j % 2 = 1 THEN V("str", o.ks[(j + 1) \div 2], <<>>) ELSE o.e[j \div 2] ] ELSE o.e
                    IN IF bulk
                       THEN LET a == SaveAll(h, st, flat, done) IN O(<<<<"(", 0>>>> \o a.ops \o end \o Put(st, v.n, TRUE), a.done \cup {v.n})
                       ELSE LET a == Adds(h, st, o, 1, done \cup {v.n})
                            IN O(<<<<"(", 0>>>> \o end \o Put(st, v.n, FALSE) \o a.ops \o late, a.done)

\* pickles that memoise only what they fetch
Strip(p, fetched) == SelectSeq(p, LAMBDA i : i[1] # "p" \/ i[2] \in fetched)
Dump(h, st) == LET p == Save(h, st, Ref(1), {}).ops
                   fetched == { p[i][2] : i \in { j \in 1..Len(p) : p[j][1] = "g" } }
               IN (IF st.memo = "need" THEN Strip(p, fetched) ELSE p) \o <<<<".", 0>>>>

Init == /\ \E n \in 1..Objs : heap \in [1..n -> Objects(n)]
        /\ style \in Styles
        /\ PrintT("GEN " \o ToJson([prog |-> Dump(heap, style)]))
Next == UNCHANGED <<heap, style>>
Rebuilt == LET r == Exec(Dump(heap, style)) IN r.st = "ok" /\ SameGraph(heap, Ref(1), r.heap, r.res)
=============================================================================
