-------------------------------- MODULE Util --------------------------------
(* The helpers of package util (C23): sections of "key=value" lines, the typed *)
(* reading of their values, bit sets, comparisons of slices.                   *)
EXTENDS Integers, Sequences, FiniteSets

----------------------------------------------------------------------------
(* Sections. A line is [k, eq, v]: key, then "=" and the value if eq. A blank  *)
(* line is one with neither. The reading of a section skips blank lines, takes *)
(* the lines up to the next blank one (or the end), a later line of the same   *)
(* key being the one that counts, and leaves the stream behind that blank line.*)
Blank(x) == x.k = "" /\ ~x.eq
FirstLine(doc) == LET s == { i \in 1..Len(doc) : ~Blank(doc[i]) }
                  IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i <= j
LastLine(doc, i) == LET s == { j \in i..Len(doc) : Blank(doc[j]) }
                    IN IF s = {} THEN Len(doc) + 1 ELSE CHOOSE j \in s : \A m \in s : j <= m
Section(doc) ==
  LET i == FirstLine(doc)
  IN IF i = 0 THEN [ok |-> FALSE, params |-> {}, rest |-> 0]
     ELSE LET e == LastLine(doc, i)
              at(k) == CHOOSE j \in i..(e - 1) : doc[j].k = k /\ \A m \in (j + 1)..(e - 1) : doc[m].k # k
              keys == { doc[j].k : j \in i..(e - 1) }
          IN [ok |-> TRUE, params |-> { <<k, IF doc[at(k)].eq THEN doc[at(k)].v ELSE "">> : k \in keys },
              rest |-> IF e > Len(doc) THEN 0 ELSE Len(doc) - e]
\* where the only line of a section is the last of the text and has no end, nothing is said
Unsaid(doc, final) == ~final /\ FirstLine(doc) = Len(doc)

----------------------------------------------------------------------------
(* Spellings: what a token reads as (in Go's decimal spelling), "" if not at all. *)
T(text, i, u, n, f) == [text |-> text, int |-> i, u32 |-> u, i32 |-> n, f64 |-> f]
Spellings == <<
  T("0", "0", "0", "0", "0"), T("1", "1", "1", "1", "1"), T("-1", "-1", "", "-1", "-1"), T("+1", "1", "", "1", "1"),
  T("007", "7", "7", "7", "7"), T("-0", "0", "", "0", "-0"),
  T("2147483647", "2147483647", "2147483647", "2147483647", "2147483647"), T("2147483648", "2147483648", "2147483648", "", "2147483648"),
  T("-2147483648", "-2147483648", "", "-2147483648", "-2147483648"), T("-2147483649", "-2147483649", "", "", "-2147483649"),
  T("4294967295", "4294967295", "4294967295", "", "4294967295"), T("4294967296", "4294967296", "", "", "4294967296"),
  T("9223372036854775807", "9223372036854775807", "", "", "9223372036854776000"), T("9223372036854775808", "", "", "", "9223372036854776000"),
  T("1.5", "", "", "", "1.5"), T("-.25", "", "", "", "-0.25"), T("1e3", "", "", "", "1000"), T("5e-1", "", "", "", "0.5"), T("0x10", "", "", "", ""), T("0x1p4", "", "", "", "16"),
  T("_1", "", "", "", ""), T("", "", "", "", ""), T("x", "", "", "", ""), T("1x", "", "", "", ""), T("1,2", "", "", "", ""), T("--1", "", "", "", ""),
  T("nan", "", "", "", "NaN"), T("inf", "", "", "", "+Inf"), T("-Inf", "", "", "", "-Inf"), T("1e999", "", "", "", ""), T("0.1", "", "", "", "0.1") >>
Reads(kind, n) == Spellings[n][kind]
\* a value of the tokens ns (numbers into Spellings), separated by single blanks
List(kind, ns) == IF \E i \in 1..Len(ns) : Reads(kind, ns[i]) = "" THEN [ok |-> FALSE, v |-> <<>>]
                  ELSE [ok |-> TRUE, v |-> [i \in 1..Len(ns) |-> Reads(kind, ns[i])]]
Number(kind, ns) == IF Len(ns) # 1 THEN [ok |-> FALSE, v |-> <<>>] ELSE List(kind, ns)

----------------------------------------------------------------------------
(* Bit sets: sets of positions, in n words of 32.                              *)
Greatest(S) == CHOOSE x \in S : \A y \in S : y <= x
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
WordsOf(S) == IF S = {} THEN 0 ELSE Greatest(S) \div 32 + 1

----------------------------------------------------------------------------
(* Comparisons, of integers and an infinity far from all of them.              *)
Far(a, b) == IF a < b THEN b - a ELSE a - b
Exceeds(a, b, thr) == Far(a, b) > thr
Mismatched(a, b, thr) == Cardinality({ i \in 1..Len(a) : Exceeds(a[i], b[i], thr) })
=============================================================================
