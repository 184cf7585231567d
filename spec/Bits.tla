-------------------------------- MODULE Bits --------------------------------
(* How category sets are stored (implementation level, words of W bits for     *)
(* 32): the file gives all sets of a tree as words, one after the other, with  *)
(* their boundaries; a set of one category is kept as that category, a set of  *)
(* one word as that word, any other is appended to the tree's own store. From  *)
(* JSON a set comes as a list of categories. Whatever sets a tree has, in      *)
(* whatever order its nodes are converted, node by node exactly the categories *)
(* of the node's set are found.                                                *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS W, Words, Nodes, Extra     \* bits of a word, words of a set, nodes of a tree, superfluous words
MaxCat == W * Words - 1

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Bit(word, b) == (word \div Pow2(b)) % 2
RECURSIVE WordOf(_, _)       \* the i-th word (from 0) of a set
WordOf(S, i) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE
                                       IN (IF x \div W = i THEN Pow2(x % W) ELSE 0) + WordOf(S \ {x}, i)
Greatest(S) == CHOOSE x \in S : \A y \in S : y <= x
\* the bitset of a set, with superfluous words
Bitset(S, extra) == [i \in 1..(Greatest(S) \div W + 1 + extra) |-> WordOf(S, i - 1)]

VARIABLES json, sets, extra,  \* the file: each node's set, superfluous words
          order,              \* order in which the nodes' sets come in the file (text)
          at,                 \* nodes converted
          kind, val,          \* node -> "one" "small" "big"; category, word, number in the store
          bounds, store       \* the tree's own store
vars == <<json, sets, extra, order, at, kind, val, bounds, store>>

Orders == { f \in [1..Nodes -> 1..Nodes] : \A i, j \in 1..Nodes : i # j => f[i] # f[j] }
Init == /\ json \in BOOLEAN
        /\ sets \in [1..Nodes -> SUBSET (0..MaxCat) \ {{}}]
        /\ extra \in IF json THEN {[i \in 1..Nodes |-> 0]} ELSE [1..Nodes -> 0..Extra]
        /\ order \in IF json THEN {[i \in 1..Nodes |-> i]} ELSE Orders
        /\ at = 0 /\ kind = <<>> /\ val = <<>> /\ bounds = <<0>> /\ store = <<>>

\* the file's words: those of the node that comes i-th
RECURSIVE FileWords(_)
FileWords(i) == IF i = 0 THEN <<>> ELSE FileWords(i - 1) \o Bitset(sets[order[i]], extra[order[i]])
FileBound(i) == Len(FileWords(i))
NumberOf(nd) == CHOOSE i \in 1..Nodes : order[i] = nd
Slice(nd) == LET i == NumberOf(nd) IN SubSeq(FileWords(Nodes), FileBound(i - 1) + 1, FileBound(i))

RECURSIVE Count(_, _)
Count(s, b) == IF b = 0 THEN 0 ELSE (IF Bit(s[(b - 1) \div W + 1], (b - 1) % W) = 1 THEN 1 ELSE 0) + Count(s, b - 1)
First(s) == CHOOSE b \in 0..(W * Len(s) - 1) : /\ Bit(s[b \div W + 1], b % W) = 1
                                               /\ \A a \in 0..(b - 1) : Bit(s[a \div W + 1], a % W) = 0
Add(k, v) == kind' = Append(kind, k) /\ val' = Append(val, v)
Keep(words) == /\ Add("big", Len(bounds) - 1)
               /\ store' = store \o words /\ bounds' = Append(bounds, Len(store) + Len(words))
ConvertText ==
  LET s == Slice(at + 1) IN
  IF Count(s, W * Len(s)) = 1 THEN Add("one", First(s)) /\ UNCHANGED <<bounds, store>>
  ELSE IF Len(s) = 1 THEN Add("small", s[1]) /\ UNCHANGED <<bounds, store>>
  ELSE Keep(s)
ConvertJson ==
  LET S == sets[at + 1] b == Bitset(S, 0) IN
  IF Cardinality(S) = 1 THEN Add("one", CHOOSE x \in S : TRUE) /\ UNCHANGED <<bounds, store>>
  ELSE IF Len(b) = 1 THEN Add("small", b[1]) /\ UNCHANGED <<bounds, store>>
  ELSE Keep(b)
Next == /\ at < Nodes /\ at' = at + 1
        /\ IF json THEN ConvertJson ELSE ConvertText
        /\ UNCHANGED <<json, sets, extra, order>>
Spec == Init /\ [][Next]_vars

Find(nd, c) ==
  CASE kind[nd] = "one" -> val[nd] = c
    [] kind[nd] = "small" -> c < W /\ Bit(val[nd], c) = 1
    [] OTHER -> LET s == bounds[val[nd] + 1] e == bounds[val[nd] + 2]
                IN c \div W < e - s /\ Bit(store[s + c \div W + 1], c % W) = 1
Member == \A nd \in 1..at : \A c \in 0..(MaxCat + 2 * W) : Find(nd, c) <=> c \in sets[nd]
=============================================================================
