------------------------------ MODULE MatText -------------------------------
(* Text matrices (C17, C18). A document is a sequence of lines, a line a       *)
(* sequence of tokens. Values have opaque names (positive integers).           *)
(* Delimited text: a token is a value, Empty or Bad; a line of no characters   *)
(* (no token, or the single empty one) is blank.                               *)
(* libsvm: a token is <<column, value>>, <<Bad, 0>> or <<Empty, 0>> (nothing    *)
(* between two spaces).                                                        *)
EXTENDS Integers, Sequences

Empty == 0
Bad == -1
Range(s) == { s[i] : i \in DOMAIN s }
Blank(line) == Len(line) = 0
CsvBlank(line) == Len(line) = 0 \/ line = <<Empty>>

NoRow == [ok |-> FALSE, row |-> <<>>]
Kept(line, skip) == IF skip THEN Tail(line) ELSE line

\* ---- one line
CsvRow(line, skip, def) ==
  LET t == Kept(line, skip)
  IN IF Bad \in Range(t) THEN NoRow
     ELSE [ok |-> TRUE, row |-> [ i \in 1..Len(t) |-> <<i - 1, IF t[i] = Empty THEN def ELSE t[i]>> ]]
SvmRow(line, skip) ==
  LET t == SelectSeq(Kept(line, skip), LAMBDA x : x # <<Empty, 0>>)
  IN IF Len(line) < 2 \/ <<Bad, 0>> \in Range(t) THEN NoRow ELSE [ok |-> TRUE, row |-> t]
\* dense matrices: columns 0, 1, 2, ...
InOrder(row) == \A i \in 1..Len(row) : row[i][1] = i - 1

\* ---- a document. rows: what each line means (in order), blank: which lines are blank
\* fail: the line during (or before) which the stream fails; 0 when it does not
\* fail, Len + 1 when it fails instead of ending.
IsBlank(fmt, line) == IF fmt = "csv" THEN CsvBlank(line) ELSE Blank(line)
RowOf(fmt, line, skip, def) == IF fmt = "csv" THEN CsvRow(line, skip, def) ELSE SvmRow(line, skip)

Before(fmt, doc) == \* number of lines before the first blank one
  LET b == { i \in 1..Len(doc) : IsBlank(fmt, doc[i]) }
  IN IF b = {} THEN Len(doc) ELSE (CHOOSE i \in b : \A j \in b : i <= j) - 1
NRows(fmt, doc, limit) == LET n == Before(fmt, doc) IN IF limit > 0 /\ limit < n THEN limit ELSE n
Wanted(fmt, doc, limit) == \* lines the reader asks for, the end of the input counting as one
  LET n == NRows(fmt, doc, limit) IN IF limit > 0 /\ n = limit THEN n ELSE n + 1

\* dense: the matrix has one width
Read(fmt, dense, doc, limit, skip, def, fail) ==
  LET n == NRows(fmt, doc, limit)
      r == [ i \in 1..n |-> RowOf(fmt, doc[i], skip, def) ]
      ok == /\ \A i \in 1..n : r[i].ok
            /\ dense => \A i \in 1..n : InOrder(r[i].row) /\ Len(r[i].row) = Len(r[1].row)
            /\ ~(fail > 0 /\ fail <= Wanted(fmt, doc, limit))
  IN [ok |-> ok, rows |-> IF ok THEN [ i \in 1..n |-> r[i].row ] ELSE <<>>]

\* ---- writing: the document that stands for a matrix of values
Render(rows) == [ i \in 1..Len(rows) |-> [ j \in 1..Len(rows[i]) |-> rows[i][j] ] ]
=============================================================================
