------------------------------- MODULE Trace --------------------------------
(* Checks recorded runs of the implementation against Leaves. The file has one *)
(* event per line; scenarios begin with an "scn" event and are independent, so *)
(* each is an initial state. Every event is consumed; the obligations of       *)
(* property PROP that it fails are printed ("REJECT").                         *)
EXTENDS Leaves, Json, IOUtils, TLCExt

T == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLES l,     \* next line
          hs,    \* handles
          memo,  \* results seen: Key -> identity
          rawv,  \* raw scores seen: Key -> scores
          nums   \* leaf numbers seen: <<root, tree, number>> -> contribution
vars == <<l, hs, memo, rawv, nums>>

Empty == [x \in {} |-> 0]
Starts == { i \in 1..Len(T) : T[i].ev = "scn" }

Init == /\ l \in { i + 1 : i \in Starts }
        /\ hs = Empty /\ memo = Empty /\ rawv = Empty /\ nums = Empty

E == T[l]
Here == l <= Len(T) /\ T[l].ev # "scn"

HasHandle(x) == x \in DOMAIN hs
Crash(e) == e.res \in {"panic", "hang", "pending", "fatal"}
Tag(c, t) == IF c THEN {t} ELSE {}

\* ------------------------------------------------------------------- events
MetaTags(e, h) ==
  LET x == Meta(h) IN
  CASE Prop = "C19" ->
         Tag(e.name # x.name, "name") \cup Tag(e.nf # x.nf, "NFeatures") \cup Tag(e.ne # x.ne, "NEstimators")
         \cup Tag(e.nrg # x.nrg, "NRawOutputGroups") \cup Tag(e.nog # x.nog \/ e.tog # x.nog, "NOutputGroups")
         \cup Tag(e.nl # x.nl, "NLeaves") \cup Tag(e.tt # x.tt, "transformation")
    [] Prop = "C13" ->
         Tag(e.tt # x.tt, "transformation type") \cup Tag(e.tn # x.tn, "transformation name")
         \cup Tag(e.nog # x.nog \/ e.tog # x.nog, "number of outputs")
    [] Prop = "C06" -> Tag(e.nf # x.nf, "NFeatures") \cup Tag(e.nrg # x.nrg, "NRawOutputGroups")
    [] OTHER -> {}

\* a well-formed model that the library supports is loaded
LoadStep ==
  /\ E.ev = "load"
  /\ LET m == T[E.src].m
         t == Called(m, E.fmt, E.xf, E.obj)
         h == Handle(m, E.src, E.fmt, t)
     IN /\ hs' = IF E.res = "ok" /\ t >= 0 THEN (E.h :> h) @@ hs ELSE hs
        /\ LET bad == IF Crash(E) THEN {"crash while loading"}
                      ELSE IF t < 0 THEN Tag(E.res # "err" /\ Prop = "C14", "unsupported model loaded")
                      ELSE IF E.res # "ok" THEN {"supported model not loaded"}
                      ELSE MetaTags(E, h)
           IN IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", l, bad>>)
  /\ UNCHANGED <<memo, rawv, nums>>

ViewStep ==
  /\ E.ev \in {"view", "meta"} /\ HasHandle(IF E.ev = "meta" THEN E.h ELSE E.from)
  /\ LET h == IF E.ev = "meta" THEN hs[E.h]
              ELSE IF E.kind = "raw" THEN RawView(hs[E.from]) ELSE LeafView(hs[E.from])
     IN /\ hs' = IF E.ev = "view" /\ E.res = "ok" THEN (E.h :> h) @@ hs ELSE hs
        /\ LET bad == IF Crash(E) THEN {"crash"} ELSE MetaTags(E, h)
           IN IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", l, bad>>)
  /\ UNCHANGED <<memo, rawv, nums>>

\* the row the model sees, for every row of a call
RowOf(e, m, i) ==
  IF e.api = "csr" THEN SparseRow(m, e.csr[i]) ELSE DenseRow(m, e.rows[i])

AbsoluteProps == {"C01", "C02", "C04", "C05", "C06"}
MemoProps == {"C03", "C05", "C07", "C09", "C10", "C11", "C16", "C21"}
Absolute(h) == Prop \in AbsoluteProps \/ (Prop = "C11" /\ \A i \in 1..Len(h.m.trees) : Len(h.m.trees[i].n) <= 1)

\* cells of row i of a call
Cells(e, h, i) == IF i * NOut(h) <= Len(e.outs) THEN SubSeq(e.outs, (i - 1) * NOut(h) + 1, i * NOut(h)) ELSE <<>>

\* The raw scores that the reported numbers of a leaf row stand for, tree by
\* tree: what tree (i, c) added to the raw scores
BaseOf(m, c) == CASE m.kind \in {"lg", "lin"} -> 0
                  [] m.kind = "xg" -> m.base[1]
                  [] m.kind = "dart" -> 4 * m.base[1]
                  [] m.kind = "sk" -> 4 * m.base[c + 1]
Contribution(h, row, i, c) ==
  LET at(n) == rawv[<<Root(h), TRaw, n, row>>][c + 1]
      w(n) == IF h.m.avg THEN n ELSE 1
  IN IF i = 0 THEN at(1) * w(1) - BaseOf(h.m, c) ELSE at(i + 1) * w(i + 1) - at(i) * w(i)
HasContributions(h, row) == \A n \in 1..NE(h.m) : <<Root(h), TRaw, n, row>> \in DOMAIN rawv
\* contributions tell leaves apart
Telling(h, i, c) == /\ h.m.kind = "dart" => h.m.w[i * h.m.k + c + 1] # 0
                    /\ LET t == TreeAt(h.m, i, c)
                       IN Cardinality({ LeafVal(h.m, t, a) : a \in Leaves(h.m, t) }) = Cardinality(Leaves(h.m, t))
\* which leaf a row reached: as the scores tell, or else as the rules say
LeafId(h, row, i, c) == IF Telling(h, i, c) THEN Contribution(h, row, i, c) ELSE Reach(h.m, TreeAt(h.m, i, c), row)
Knows(h, row, i, c) == Telling(h, i, c) => HasContributions(h, row)
Weight(h, i, c) == CASE h.m.kind = "dart" -> h.m.w[i * h.m.k + c + 1]
                     [] h.m.kind = "sk" -> h.m.lr
                     [] h.m.kind = "lg" /\ h.m.avg -> 840
                     [] OTHER -> 1

LeafRowTags(h, row, cells) ==
  IF Len(cells) # h.m.k * NE(h.m) THEN {"number of leaf outputs"} ELSE
  UNION { LET num == cells[c * NE(h.m) + i + 1]
              t == TreeAt(h.m, i, c)
              id == LeafId(h, row, i, c)
              k == <<Root(h), i, c, num>>
          IN IF num \notin 0..(Cardinality(Leaves(h.m, t)) - 1) THEN {"leaf number out of range"}
             ELSE IF h.m.kind = "lg" /\ Len(t.n) > 5000 THEN Tag(num # Reach(h.m, t, row), "not the number of the leaf reached")
             ELSE IF ~Knows(h, row, i, c) THEN {}
             ELSE IF h.m.kind = "lg" THEN Tag(IF Telling(h, i, c) THEN t.v[num + 1] * Weight(h, i, c) # id ELSE num # id, "not the number of the leaf reached")
             ELSE Tag(k \in DOMAIN nums /\ nums[k] # id, "two leaves have one number")
                  \cup Tag(\E x \in DOMAIN nums : x[1] = k[1] /\ x[2] = i /\ x[3] = c /\ x[4] # num /\ nums[x] = id, "one leaf has two numbers")
                  \cup Tag(Telling(h, i, c) /\ ~ \E a \in Leaves(h.m, t) : LeafVal(h.m, t, a) * Weight(h, i, c) = id, "contribution of no leaf")
        : <<i, c>> \in (0..(NE(h.m) - 1)) \X (0..(h.m.k - 1)) }
LeafRowNums(h, row, cells) ==
  { <<<<Root(h), i, c, cells[c * NE(h.m) + i + 1]>>, LeafId(h, row, i, c)>>
    : <<i, c>> \in { y \in (0..(NE(h.m) - 1)) \X (0..(h.m.k - 1)) : Knows(h, row, y[1], y[2]) } }

Top(s) == CHOOSE x \in RangeOf(s) : \A y \in RangeOf(s) : y <= x
\* a transformed row against the raw scores of the same row
TransformTags(e, h, row, i) ==
  LET k == <<Root(h), TRaw, Eff(h.m, e.n), row>>
      at(c) == (i - 1) * NOut(h) + c
  IN IF k \notin DOMAIN rawv THEN {}
     ELSE IF i * NOut(h) > Len(e.lo) THEN {"number of outputs"}
     ELSE LET raw == rawv[k]
              top == Top(raw)
              x(c) == IF h.t = TSoftmax THEN raw[c] - top ELSE raw[c]
          IN Tag(\E c \in 1..NOut(h) : ~(e.lo[at(c)] <= x(c) /\ x(c) <= e.hi[at(c)]), "not the transformation of the raw score")
             \cup Tag(~e.sum1, "not a probability (distribution)")

PredTags(e, h, rowSeq) ==
  LET refused == Refused(h, e.api, e.n, e.nrows, e.ncols, e.vlen, e.plen)
      n == Eff(h.m, e.n)
      rows == 1..Len(rowSeq)
      okValues == e.res = "ok" /\ ~refused
  IN IF Crash(e) THEN {"crash while predicting"}
     ELSE IF refused
     THEN CASE Prop = "C10" -> IF e.api = "single" THEN Tag(~e.zero, "refused single prediction is not 0.0")
                               ELSE Tag(e.res # "err", "bad call accepted") \cup Tag(~e.same, "refused call wrote to the output")
            [] OTHER -> {}
     ELSE IF e.res # "ok" THEN {"legal call refused"}
     ELSE \* served
       (IF Absolute(h) /\ h.t = TRaw
        THEN Tag(\E i \in rows : Cells(e, h, i) # RawRow(h.m, rowSeq[i], n), "raw score") ELSE {})
       \cup (IF Prop \in MemoProps
             THEN Tag(\E i \in rows : LET k == Key(h, e.n, rowSeq[i]) IN k \in DOMAIN memo /\ memo[k] # e.ids[i], "differs from the result for the same model, row and estimators")
                  \cup Tag(\E i, j \in rows : rowSeq[i] = rowSeq[j] /\ e.ids[i] # e.ids[j], "equal rows, different results")
             ELSE {})
       \cup (IF Prop = "C09" THEN Tag(~e.tail, "wrote behind the results") \cup Tag(~e.inp, "changed its input") ELSE {})
       \cup (IF Prop = "C12" /\ h.t = TLeaf THEN UNION { LeafRowTags(h, rowSeq[i], Cells(e, h, i)) : i \in rows } ELSE {})
       \cup (IF Prop = "C13" /\ h.t \notin {TRaw, TLeaf} THEN UNION { TransformTags(e, h, rowSeq[i], i) : i \in rows } ELSE {})
       \cup (IF Prop = "C13" /\ h.t = TRaw
             THEN Tag(\E i \in rows : LET k == Key(h, e.n, rowSeq[i]) IN k \in DOMAIN rawv /\ rawv[k] # Cells(e, h, i), "raw view is not the raw score")
             ELSE {})

PredStep ==
  /\ E.ev = "pred" /\ HasHandle(E.h)
  /\ LET h == hs[E.h]
         rowSeq == IF ~(E.res = "ok") \/ Refused(h, E.api, E.n, E.nrows, E.ncols, E.vlen, E.plen) THEN <<>>
                   ELSE [i \in 1..Len(E.ids) |-> RowOf(E, h.m, i)]
         rows == 1..Len(rowSeq)
         bad == PredTags(E, h, rowSeq)
     IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", l, bad>>)
        /\ memo' = IF Prop \in MemoProps
                   THEN [k \in { Key(h, E.n, rowSeq[i]) : i \in rows } |->
                           E.ids[CHOOSE i \in rows : Key(h, E.n, rowSeq[i]) = k]] @@ memo
                   ELSE memo
        /\ rawv' = IF Prop \in {"C12", "C13"} /\ h.t = TRaw
                   THEN [k \in { Key(h, E.n, rowSeq[i]) : i \in { j \in rows : Len(Cells(E, h, j)) = h.m.k } } |->
                           Cells(E, h, CHOOSE i \in rows : Key(h, E.n, rowSeq[i]) = k)] @@ rawv
                   ELSE rawv
        /\ nums' = IF Prop = "C12" /\ h.t = TLeaf /\ h.m.kind # "lg"
                   THEN LET new == UNION { IF Len(Cells(E, h, i)) = h.m.k * NE(h.m) THEN LeafRowNums(h, rowSeq[i], Cells(E, h, i)) ELSE {} : i \in rows }
                        IN [k \in { x[1] : x \in new } |-> (CHOOSE x \in new : x[1] = k)[2]] @@ nums
                   ELSE nums
  /\ UNCHANGED hs

\* a transformation of the package used on its own: e.raw are the scores in
\* eighths, e.g the outputs it is made for. It writes its cells, nothing else,
\* and refuses another number of scores; the raw and the leaf index ones copy
\* what they are given, and are given as many as they are made for.
ApplyTags(e) ==
  IF Crash(e) THEN {"crash while transforming"}
  ELSE Tag(e.tt # e.t, "transformation type") \cup Tag(e.tn # TName(e.t), "transformation name") \cup Tag(e.ng # e.g, "number of outputs")
       \cup Tag(~e.inp, "changed the raw scores")
       \cup IF Len(e.raw) # e.g
            THEN Tag(e.res # "err", "wrong number of raw scores accepted") \cup Tag(~e.same, "refused transformation wrote to the output")
            ELSE IF e.res # "ok" THEN {"transformation refused"}
            ELSE Tag(~e.keep, "wrote outside its cells")
                 \cup IF e.t \in {TRaw, TLeaf} THEN Tag(e.outs # e.raw, "not the raw scores")
                      ELSE LET x(c) == IF e.t = TSoftmax THEN e.raw[c] - Top(e.raw) ELSE e.raw[c]
                           IN Tag(\E c \in 1..e.g : ~(e.lo[c] <= x(c) /\ x(c) <= e.hi[c]), "not the transformation of the raw score")
                              \cup Tag(~e.sum1, "not a probability (distribution)")
ApplyStep ==
  /\ E.ev \in {"tf", "tnames"}
  /\ LET bad == IF E.ev = "tf" THEN ApplyTags(E)
                ELSE Tag(\E i \in 1..Len(E.names) : E.names[i] # (IF E.from + i - 1 \in TRaw..TExp THEN TName(E.from + i - 1) ELSE "unknown"), "transformation name")
     IN IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", l, bad>>)
  /\ UNCHANGED <<hs, memo, rawv, nums>>

\* what the race detector says about the calls made so far at the same time
RaceStep == /\ E.ev = "race"
            /\ IF E.count = 0 THEN TRUE ELSE PrintT(<<"REJECT", l, {"data race"}>>)
            /\ UNCHANGED <<hs, memo, rawv, nums>>

\* events of handles that should not be there were rejected when those were made
Other == /\ \/ E.ev \in {"src", "note"}
            \/ E.ev \in {"pred", "meta"} /\ ~HasHandle(E.h)
            \/ E.ev = "view" /\ ~HasHandle(E.from)
         /\ IF E.ev \in {"pred", "note"} /\ Crash(E) THEN PrintT(<<"REJECT", l, {"crash while predicting"}>>) ELSE TRUE
         /\ UNCHANGED <<hs, memo, rawv, nums>>

Next == Here /\ l' = l + 1 /\ (LoadStep \/ ViewStep \/ PredStep \/ ApplyStep \/ RaceStep \/ Other)
Spec == Init /\ [][Next]_vars
TraceView == l
=============================================================================
