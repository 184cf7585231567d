------------------------------ MODULE MatTrace ------------------------------
(* Checks recorded readings, writings and conversions of matrices.             *)
EXTENDS MatText, TLC, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l \in { i + 1 : i \in { i \in 1..Len(T) : T[i].ev = "scn" } }
E == T[l]
Tag(x, t) == IF x THEN {t} ELSE {}
Crash(e) == e.res \in {"panic", "hang", "pending", "fatal"}

\* the matrix returned describes these rows of <<column, value>>
DenseIs(m, rows) ==
  LET w == IF rows = <<>> THEN m.cols ELSE Len(rows[1])
  IN /\ m.rows = Len(rows) /\ m.cols = w /\ Len(m.vals) = w * Len(rows)
     /\ \A i \in 1..Len(rows) : \A j \in 1..w : m.vals[(i - 1) * w + j] = rows[i][j][2]
CsrIs(m, rows) ==
  /\ Len(m.hdr) = Len(rows) + 1 /\ m.rows = Len(rows) /\ Len(m.idx) = Len(m.vals)
  /\ \A i \in 1..Len(rows) :
       /\ m.hdr[i + 1] - m.hdr[i] = Len(rows[i]) /\ m.hdr[i] >= 0 /\ m.hdr[i + 1] <= Len(m.vals)
       /\ \A j \in 1..Len(rows[i]) : m.idx[m.hdr[i] + j] = rows[i][j][1] /\ m.vals[m.hdr[i] + j] = rows[i][j][2]
MatrixIs(e, dense, m, rows) == IF dense THEN DenseIs(m, rows) ELSE CsrIs(m, rows)

OpenTags(e) == Tag(e.open > 0, "file left open")
ReadTags(e) ==
  LET r == Read(e.fmt, e.dense, e.doc, e.limit, e.skip, e.def, e.fail)
  IN IF ~r.ok THEN Tag(e.res # "err", IF e.fail > 0 THEN "failing stream read without error" ELSE "malformed text accepted")
     ELSE IF e.res # "ok" THEN {"well-formed text refused"}
     ELSE Tag(~MatrixIs(e, e.dense, e.m, r.rows), "another matrix read")
          \cup Tag(e.limit > 0 /\ Len(r.rows) = e.limit /\ e.rest >= 0 /\ e.rest # Len(e.doc) - e.limit, "more lines read than the limit")
          \cup Tag(e.rest = -2, "more lines read than the limit")

\* n values are those of a matrix of this shape (sizes from Vast on are larger than
\* any array; their products do not wrap around)
Vast == 1073741824
Times(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a > Vast \div b THEN Vast ELSE a * b
Shape(n, rows, cols) == rows >= 0 /\ cols >= 0 /\ n = Times(rows, cols)
\* e.rows x e.cols values written and read back
Grid(e) == [ i \in 1..e.rows |-> [ j \in 1..e.cols |-> <<j - 1, e.vals[(i - 1) * e.cols + j]>> ] ]
WriteTags(e) ==
  IF e.fails \/ ~Shape(Len(e.vals), e.rows, e.cols) THEN Tag(e.res # "err", IF e.fails THEN "failure to write not reported" ELSE "matrix of another size written")
  ELSE IF e.res # "ok" THEN {"matrix not written"}
  ELSE IF e.bres # "ok" THEN {"written matrix not readable"}
  ELSE Tag(~DenseIs(e.m, Grid(e)), "another matrix read back")
ArrTags(e) ==
  IF ~Shape(e.len, e.rows, e.cols) THEN Tag(e.res # "err", "array of other size accepted")
  ELSE IF e.res # "ok" THEN {"array refused"}
  ELSE Tag(~MatrixIs(e, e.dense, e.m, Grid(e)), "another matrix converted")
Bad_(e) == IF Crash(e) THEN {"crash"}
           ELSE CASE e.ev = "mread" -> ReadTags(e) \cup OpenTags(e) [] e.ev = "mwrite" -> WriteTags(e) \cup OpenTags(e) [] e.ev = "marr" -> ArrTags(e) [] OTHER -> {}
Next == /\ l <= Len(T) /\ E.ev # "scn" /\ l' = l + 1
        /\ (IF E.ev = "race" THEN (IF E.count = 0 THEN TRUE ELSE PrintT(<<"REJECT", l, {"data race"}>>))
            ELSE IF E.ev \notin {"mread", "mwrite", "marr", "crowd"} THEN TRUE ELSE IF Bad_(E) = {} THEN TRUE ELSE PrintT(<<"REJECT", l, Bad_(E)>>))
Spec == Init /\ [][Next]_l
=============================================================================
