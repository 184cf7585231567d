------------------------------ MODULE MatRead -------------------------------
(* The reader as a machine that takes one line at a time and stops as early as *)
(* it may: for every small document it arrives at what MatText!Read says, and   *)
(* it never asks for a line it does not want.                                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxLines, MaxToks, Fmts
MT == INSTANCE MatText
CsvTok == {-1, 0, 1}
SvmTok == {<<-1, 0>>, <<0, 0>>, <<0, 1>>, <<1, 1>>} \* <<Empty, 0>> is <<0, 0>>
Lines(f) == UNION { [1..n -> IF f = "csv" THEN CsvTok ELSE SvmTok] : n \in 0..MaxToks }
Docs(f) == UNION { [1..n -> Lines(f)] : n \in 0..MaxLines }
Def == 9

VARIABLES fmt, dense, doc, limit, skip, fail, \* the call
          at,      \* lines read
          rows,    \* rows made
          res
vars == <<fmt, dense, doc, limit, skip, fail, at, rows, res>>
Init == /\ fmt \in Fmts /\ doc \in Docs(fmt) /\ dense \in (IF fmt = "csv" THEN {TRUE} ELSE BOOLEAN)
        /\ limit \in 0..2 /\ skip \in BOOLEAN /\ fail \in 0..(Len(doc) + 1)
        /\ at = 0 /\ rows = <<>> /\ res = "run"
Done(r) == res' = r /\ UNCHANGED rows
Line ==
  /\ res = "run" /\ at' = at + 1
  /\ IF at' = fail THEN Done("err")
     ELSE IF at' > Len(doc) THEN Done("ok")
     ELSE IF MT!IsBlank(fmt, doc[at']) THEN Done("ok")
     ELSE LET r == MT!RowOf(fmt, doc[at'], skip, Def)
          IN IF ~r.ok THEN Done("err")
             ELSE IF dense /\ (~MT!InOrder(r.row) \/ (rows # <<>> /\ Len(rows[1]) # Len(r.row))) THEN Done("err")
             ELSE /\ rows' = Append(rows, r.row)
                  /\ res' = IF limit > 0 /\ Len(rows') = limit THEN "ok" ELSE "run"
  /\ UNCHANGED <<fmt, dense, doc, limit, skip, fail>>
Spec == Init /\ [][Line]_vars /\ WF_vars(Line)

Declared == MT!Read(fmt, dense, doc, limit, skip, Def, fail)
Agrees == res # "run" => /\ (res = "ok") = Declared.ok
                         /\ res = "ok" => rows = Declared.rows
NoMore == at <= MT!Wanted(fmt, doc, limit)
\* a limit gives the first rows of the whole matrix
Prefix == LET all == MT!Read(fmt, dense, doc, 0, skip, Def, fail)
          IN res = "ok" /\ all.ok => Len(rows) <= Len(all.rows) /\ \A i \in 1..Len(rows) : rows[i] = all.rows[i]
\* what was written reads back (values and empty cells; at least one column)
RoundTrip == (res = "ok" /\ fmt = "csv" /\ limit = 0 /\ ~skip /\ rows # <<>>) =>
  LET vals == [ i \in 1..Len(rows) |-> [ j \in 1..Len(rows[i]) |-> rows[i][j][2] ] ]
  IN MT!Read("csv", TRUE, MT!Render(vals), 0, FALSE, 7, 0).rows = rows
Ends == <>(res # "run")
=============================================================================
