package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"sync"
)

// write serialises a model in a random legal layout of its format.
func (c *Ctx) write(m *Model, format string, obj string) []byte {
	r := c.r
	switch format {
	case "lgtext":
		lay := randLayout(r)
		lay.Objective = obj
		if obj == "" && r.Intn(2) == 0 {
			lay.Objective = "regression"
		}
		return lgText(m, lay, r)
	case "lgjson":
		return append(lgJSON(m, r), pickBytes(r, "", "\n", " {}", "\ngarbage")...)
	case "xgbin", "linbin":
		if obj == "" {
			obj = []string{"reg:linear", "binary:logistic", "multi:softprob", "x"}[r.Intn(4)]
		}
		h := xgHead(m, obj)
		h.NumClass = int32(pick(r, 0, 1, m.K)) // says nothing about the outputs
		if r.Intn(3) == 0 && m.Kind != "lin" {
			h.TreeNF = -int32(r.Intn(m.NF + 1))
		}
		return append(xgBin(m, h, r), pickBytes(r, "", "\x00\x01attributes")...)
	case "skpkl":
		return append(skPickle(m, skHead(m, r), randStyle(r), r), pickBytes(r, "", "\n", "more")...)
	}
	panic("harness: " + format)
}

func pickBytes(r *rand.Rand, s ...string) []byte { return []byte(s[r.Intn(len(s))]) }

func (m *Model) format() string {
	return map[string]string{"lg": "lgtext", "xg": "xgbin", "dart": "xgbin", "lin": "linbin", "sk": "skpkl"}[m.Kind]
}

func (c *Ctx) loadAny(m *Model) int {
	f := m.format()
	if m.Kind == "lg" && !m.Avg && c.r.Intn(3) == 0 {
		f = "lgjson"
	}
	return c.load(m, f, false, "", c.write(m, f, ""))
}

func (c *Ctx) loadFmt(m *Model, f string) int { return c.load(m, f, false, "", c.write(m, f, "")) }

// objectives that call for a transformation of a model
func xfObjs(m *Model) []string {
	switch m.Kind {
	case "lg":
		if m.K > 1 {
			return []string{"multiclass num_class:" + itoa(m.K), "regression"}
		}
		return []string{"binary sigmoid:1", "poisson", "gamma", "tweedie", "regression", "regression_l1", "regression l2"}
	case "xg", "dart", "lin":
		if m.K == 1 {
			return []string{"binary:logistic"}
		}
	case "sk":
		return []string{""}
	}
	return nil
}

// loadXF loads with transformation, if the model has one.
func (c *Ctx) loadXF(m *Model) int {
	o := xfObjs(m)
	if len(o) == 0 {
		return 0
	}
	obj := o[c.r.Intn(len(o))]
	return c.load(m, m.format(), true, obj, c.write(m, m.format(), obj))
}

// predRows predicts rows through a random entry point.
func (c *Ctx) predRows(h int, rows [][]int, n int) {
	if h == 0 {
		return
	}
	m := c.hsrc[h]
	switch c.r.Intn(5) {
	case 0:
		for _, row := range rows {
			c.pred(Call{H: h, API: "predict", N: n, Rows: [][]int{row}, Pre: c.r.Intn(4)})
		}
	case 1:
		c.pred(Call{H: h, API: "csr", N: n, Th: pick(c.r, 0, 1, 2, 4), CSR: fullCSR(rows, m.NF), Pre: c.r.Intn(4)})
	default:
		c.pred(Call{H: h, API: "dense", N: n, Th: pick(c.r, 0, 1, 2, 4, -1), NCols: len(rows[0]), Rows: rows, Pre: c.r.Intn(4)})
	}
}

func fullCSR(rows [][]int, nf int) [][][2]int {
	out := make([][][2]int, len(rows))
	for i, row := range rows {
		out[i] = [][2]int{}
		for j := 0; j < nf; j++ {
			out[i] = append(out[i], [2]int{j, row[j]})
		}
	}
	return out
}

func (c *Ctx) randRows(m *Model, n int) [][]int {
	w := m.NF
	if c.r.Intn(4) == 0 {
		w += 1 + c.r.Intn(3)
	}
	rows := make([][]int, n)
	for i := range rows {
		rows[i] = m.RandRow(c.r, w)
	}
	return rows
}

// scores: absolute scores of random models of one kind.
func (c *Ctx) scores(o ModelOpts, nrows int) {
	m := RandModel(c.r, o)
	h := c.loadFmt(m, m.format())
	if m.Kind == "lg" && !m.Avg && c.r.Intn(3) == 0 && o.CatProb > 0 {
		h = c.loadFmt(m, "lgjson")
	}
	rows := c.randRows(m, nrows)
	for i := range rows {
		rows[i] = append(rows[i][:0:0], rows[i]...)
		if m.Kind == "lin" && c.r.Intn(4) == 0 {
			c.infinite(m, rows[i])
		}
	}
	c.predRows(h, rows, 0)
	c.predRows(h, rows[:2], 1+c.r.Intn(m.NE()))
	if m.K == 1 && h != 0 {
		c.pred(Call{H: h, API: "single", N: pick(c.r, 0, -1, 1, 100), Rows: rows[:1]})
	}
}

// infinite makes features of a row infinite (where no weight is 0).
func (c *Ctx) infinite(m *Model, row []int) {
	for k := 1 + c.r.Intn(3); k > 0; k-- {
		f := c.r.Intn(m.NF)
		ok := true
		for _, w := range m.LW[f] {
			ok = ok && w != 0
		}
		if ok {
			row[f] = pick(c.r, mk(qInf, 0), mk(-qInf, 0))
		}
	}
}

// wide: models of more features than 16 bits count; features that are equal in
// their low bits are used side by side.
func (c *Ctx) wide(kind string, huge bool) {
	m := RandModel(c.r, ModelOpts{Kind: kind, NF: 6, CatProb: 0.3, MaxLeaves: 9})
	rows := make([][]int, 30)
	for i := range rows {
		rows[i] = m.RandRow(c.r, 6)
	}
	lo := c.r.Intn(3000)
	at := []int{lo, lo + 65536, 65535, 65536, 255, 256}
	if c.r.Intn(2) == 0 {
		at = []int{lo, lo + 65536, 131071, 32768, 0, 131072}
	}
	m.NF = 131072 + 1 + c.r.Intn(3)
	if huge { // more than float32 numbers and 24 bits count
		at = []int{lo, lo + 1<<24, 1<<24 - 1, 1 << 24, 1<<24 + 1, lo + 1<<24 + 65536}
		m.NF = 1<<24 + 70000
		rows = rows[:8]
	}
	for i := range m.Trees {
		for j := range m.Trees[i].N {
			m.Trees[i].N[j].F = at[m.Trees[i].N[j].F]
		}
	}
	es := make([][][2]int, len(rows))
	for i, row := range rows {
		es[i] = [][2]int{}
		for j, v := range row {
			if c.r.Intn(10) > 0 {
				es[i] = append(es[i], [2]int{at[j], v})
			}
		}
		c.r.Shuffle(len(es[i]), func(a, b int) { es[i][a], es[i][b] = es[i][b], es[i][a] })
	}
	h := c.loadFmt(m, m.format())
	c.pred(Call{H: h, API: "csr", Th: pick(c.r, 0, 3), CSR: es})
	if m.Kind == "lg" {
		c.pred(Call{H: c.loadFmt(m, "lgjson"), API: "csr", CSR: es[:len(es)/3]})
	}
}

// bigCategories: categories beyond the usual, in sets of one and of several.
func (c *Ctx) bigCategories() {
	m := RandModel(c.r, ModelOpts{Kind: "lg", CatProb: 1, MaxLeaves: 5, MaxNF: 2, MaxIter: 2, MaxK: 2})
	json := c.r.Intn(3) == 0
	most := 1
	for i := range m.Trees {
		for j := range m.Trees[i].N {
			nd := &m.Trees[i].N[j]
			if nd.K != "c" || c.r.Intn(4) == 0 {
				continue
			}
			k := c.r.Intn(70000)
			switch {
			case json && c.r.Intn(2) == 0:
				k = pick(c.r, 1<<24+1, 1<<31-1)
			case c.r.Intn(3) == 0:
				k = pick(c.r, 32767, 32768, 65535, 65536, 1<<20)
			case most > 0:
				most--
				k = c.r.Intn(4999000)
			}
			nd.Set = []int{k}
			if k < 1<<24 && c.r.Intn(2) == 0 {
				nd.Set = []int{pick(c.r, 0, 31, 64, 500, 32767), k}
				if nd.Set[0] >= k {
					nd.Set = []int{k}
				}
			}
		}
	}
	rows := c.randRows(m, 20)
	h := c.loadFmt(m, "lgjson")
	if !json && !m.Avg {
		g := c.loadFmt(m, "lgtext")
		c.predRows(g, rows, 0)
	}
	c.predRows(h, rows, 0)
}

// large: one tree of more leaves than 16 bits count.
func (c *Ctx) large(kind string, leaf bool) {
	n := 70000 + c.r.Intn(500)
	if kind != "lg" {
		n += 20000
	}
	m := RandModel(c.r, ModelOpts{Kind: kind, NF: 64, K: 1, Iter: 1, CatProb: 0.1, MaxLeaves: n, Leaves: n})
	rows := make([][]int, 400)
	for i := range rows {
		rows[i] = make([]int, m.NF)
		for j := range rows[i] {
			rows[i][j] = mk(c.r.Intn(19)-9, 0)
			if kind != "sk" && c.r.Intn(20) == 0 {
				rows[i][j] = NaNCode
			}
		}
	}
	h := c.loadFmt(m, m.format())
	if leaf {
		h = c.view(h, "leaf")
	}
	c.pred(Call{H: h, API: "dense", Th: 4, NCols: m.NF, Rows: rows})
}

type scenario func(c *Ctx)

var kinds = []string{"lg", "lg", "rf", "xg", "dart", "lin", "sk"}

// optsFor makes generator options of a kind ("rf": averaged LightGBM).
func (c *Ctx) optsFor(kind string) ModelOpts {
	o := ModelOpts{Kind: kind, CatProb: 0.25}
	if kind == "rf" {
		o.Kind, o.Avg = "lg", true
	}
	return o
}

func (c *Ctx) anyModel() *Model {
	return RandModel(c.r, c.optsFor(kinds[c.r.Intn(len(kinds))]))
}

// anyHandle loads the model, with its transformation now and then, and takes a view now and then.
func (c *Ctx) anyHandle(m *Model) int {
	h := 0
	if c.r.Intn(2) == 0 {
		h = c.loadXF(m)
	}
	if h == 0 {
		h = c.loadAny(m)
	}
	switch c.r.Intn(4) {
	case 0:
		return c.view(h, "raw")
	case 1:
		if m.Kind != "lin" {
			return c.view(h, "leaf")
		}
	}
	return h
}

// nFor picks a number of estimators that the handle accepts.
func (c *Ctx) nFor(h int) int {
	m := c.hsrc[h]
	if c.hleaf[h] {
		return pick(c.r, 0, -1, m.NE(), m.NE()+1, 1<<32+1, -1<<32+1)
	}
	return pick(c.r, 0, 0, -1, 1<<32+1, -1<<32+1, 1, 1+c.r.Intn(m.NE()), m.NE(), m.NE()+3)
}

var batchRows = []int{1, 2, 15, 16, 17, 18, 31, 32, 33, 47, 48, 49, 64, 65, 80, 100, 130}
var threadNums = []int{-7, -1, 0, 1, 2, 3, 4, 5, 8, 9, 64, 1000}

// sparse makes CSR rows: random patterns, orders and columns out of range.
func (c *Ctx) sparse(m *Model, n int) [][][2]int {
	out := make([][][2]int, n)
	for i := range out {
		row := m.RandRow(c.r, m.NF)
		es := [][2]int{}
		switch c.r.Intn(6) {
		case 0: // empty row
		default:
			p := c.r.Float64()
			for j := 0; j < m.NF; j++ {
				if c.r.Float64() < p {
					v := row[j]
					switch c.r.Intn(8) {
					case 0:
						v = 0
					case 1:
						if m.Kind != "sk" {
							v = NaNCode
						}
					}
					es = append(es, [2]int{j, v})
				}
			}
			for c.r.Intn(3) == 0 {
				col := m.NF + pick(c.r, 0, 0, 1, 5, 1000)
				ok := true
				for _, e := range es {
					ok = ok && e[0] != col
				}
				if ok {
					es = append(es, [2]int{col, mk(c.r.Intn(9)-4, 0)})
				}
			}
		}
		if c.r.Intn(2) == 0 {
			c.r.Shuffle(len(es), func(a, b int) { es[a], es[b] = es[b], es[a] })
		}
		out[i] = es
	}
	return out
}

// effective dense rows of sparse ones
func (m *Model) dense(es [][2]int) []int {
	row := make([]int, m.NF)
	for i := range row {
		if m.Kind == "xg" || m.Kind == "dart" {
			row[i] = NaNCode
		}
	}
	for _, e := range es {
		if e[0] < m.NF {
			row[e[0]] = e[1]
		}
	}
	return row
}

// C07: the same rows through every entry point, thread count and batch size.
func (c *Ctx) entryPoints() {
	m := c.anyModel()
	if c.r.Intn(40) == 0 {
		m = c.manyFeatures()
	}
	if c.r.Intn(12) == 0 { // single leaf numbers
		o := c.optsFor(kinds[c.r.Intn(len(kinds))])
		o.K, o.Iter, o.MaxLeaves = 1, 1, 20
		m = RandModel(c.r, o)
	}
	h := c.anyHandle(m)
	if h == 0 {
		return
	}
	old := runtime.GOMAXPROCS(pick(c.r, 1, 2, 3, 8))
	defer runtime.GOMAXPROCS(old)
	n := c.nFor(h)
	R := batchRows[c.r.Intn(len(batchRows))]
	base := make([][]int, 12)
	for i := range base {
		base[i] = m.RandRow(c.r, m.NF)
	}
	if c.handles[h].NOutputGroups() == 1 {
		for _, row := range base[:4] {
			c.pred(Call{H: h, API: "single", N: n, Rows: [][]int{row}})
		}
	}
	c.pred(Call{H: h, API: "each", N: n, Rows: base, NCols: m.NF, Quiet: true})
	for k := 0; k < 5; k++ {
		if k > 1 {
			R = batchRows[c.r.Intn(len(batchRows))]
		}
		rows := make([][]int, R)
		for i := range rows {
			rows[i] = base[c.r.Intn(len(base))]
		}
		th := threadNums[c.r.Intn(len(threadNums))]
		if c.r.Intn(2) == 0 {
			w := m.NF + pick(c.r, 0, 0, 1, 2, 5)
			wide := make([][]int, R)
			for i := range wide {
				wide[i] = append(append([]int{}, rows[i]...), m.RandRow(c.r, w-m.NF)...)
			}
			c.pred(Call{H: h, API: "dense", N: n, Th: th, NCols: w, Rows: wide, DVlen: pick(c.r, 0, 0, 1, 50), Quiet: true, Pre: c.r.Intn(4)})
		} else {
			c.pred(Call{H: h, API: "csr", N: n, Th: th, CSR: fullCSR(rows, m.NF), Quiet: true, Pre: c.r.Intn(4)})
		}
	}
}

// manyFeatures: a model whose rows are long.
func (c *Ctx) manyFeatures() *Model {
	o := c.optsFor(pickStr(c.r, "lg", "rf", "xg", "dart", "lin", "sk"))
	o.NF, o.MaxLeaves, o.MaxIter = pick(c.r, 65, 70+c.r.Intn(70), 129, 130+c.r.Intn(140)), 30, 3
	return RandModel(c.r, o)
}

// C16: sparse rows, and the dense rows they stand for.
func (c *Ctx) sparseRows() {
	m := c.anyModel()
	if c.r.Intn(16) == 0 {
		m = c.manyFeatures()
	}
	h := c.anyHandle(m)
	if h == 0 {
		return
	}
	n := c.nFor(h)
	for k := 0; k < 3; k++ {
		R := pick(c.r, 1, 2, 5, 16, 17, 20, 40)
		es := c.sparse(m, R)
		dense := [][]int{}
		seen := map[string]bool{}
		for _, e := range es {
			d := m.dense(e)
			if s := fmt.Sprint(d); !seen[s] {
				seen[s] = true
				dense = append(dense, d)
			}
		}
		c.pred(Call{H: h, API: "each", N: n, Rows: dense, NCols: m.NF, Quiet: true})
		c.pred(Call{H: h, API: "csr", N: n, Th: pick(c.r, 0, 1, 2, 4, -1), CSR: es, Off: pick(c.r, 0, 0, 3), Quiet: true, Pre: c.r.Intn(4)})
		c.r.Shuffle(len(es), func(a, b int) { es[a], es[b] = es[b], es[a] })
		c.pred(Call{H: h, API: "csr", N: n, Th: pick(c.r, 0, 1, 3), CSR: es, Quiet: true})
	}
}

// C11: n estimators against the model truncated to n.
func (c *Ctx) limited() {
	o := c.optsFor(kinds[c.r.Intn(len(kinds))])
	o.MaxIter = 6
	if o.Avg {
		o.MaxIter = 8
	}
	if c.r.Intn(3) == 0 {
		o.MaxLeaves = 2 // constant trees and stumps: absolute scores too
	}
	if c.r.Intn(25) == 0 && !o.Avg && o.Kind != "lin" {
		o.Iter, o.K, o.MaxLeaves = 100+c.r.Intn(200), 1+c.r.Intn(2), 3
		if o.Kind == "sk" {
			o.K = 1
		}
	}
	m := RandModel(c.r, o)
	var h int
	xf := c.r.Intn(3) == 0
	obj := ""
	if xf {
		if os := xfObjs(m); len(os) > 0 {
			obj = os[c.r.Intn(len(os))]
		} else {
			xf = false
		}
	}
	ld := func(m *Model) int { return c.load(m, m.format(), xf, obj, c.write(m, m.format(), obj)) }
	h = ld(m)
	rows := c.randRows(m, 6)
	ns := []int{-3, 0, m.NE() + 1, 1 << 30, pick(c.r, 1<<32, 1<<31, 1<<62, 1<<16) + 1 + c.r.Intn(m.NE()), -pick(c.r, 1<<31, 1<<32-1, 1<<62)}
	for n := 1; n <= m.NE(); n++ {
		if m.NE() < 12 || n < 3 || n > m.NE()-2 || n%64 < 2 || c.r.Intn(m.NE()/5) == 0 {
			ns = append(ns, n)
		}
	}
	c.r.Shuffle(len(ns), func(i, j int) { ns[i], ns[j] = ns[j], ns[i] })
	for _, n := range ns {
		c.pred(Call{H: h, API: "each", N: n, Rows: rows, NCols: len(rows[0])})
		if c.r.Intn(2) == 0 {
			c.pred(Call{H: h, API: pickStr(c.r, "dense"), N: n, Th: pick(c.r, 0, 1), NCols: len(rows[0]), Rows: rows})
		} else {
			c.pred(Call{H: h, API: "csr", N: n, CSR: fullCSR(rows, m.NF)})
		}
		if m.K == 1 {
			c.pred(Call{H: h, API: "single", N: n, Rows: rows[:1]})
		}
		if m.Kind != "lin" && n >= 1 && n <= m.NE() {
			t := ld(c.trunc(m, n))
			c.pred(Call{H: t, API: "each", N: pick(c.r, 0, n, -1), Rows: rows, NCols: len(rows[0])})
		}
	}
}

func pickStr(r *rand.Rand, s ...string) string { return s[r.Intn(len(s))] }

// C12: leaf numbers against what each iteration adds to the raw score.
func (c *Ctx) leafNumbers() {
	ks := []string{"lg", "lg", "rf", "xg", "dart", "sk"}
	o := c.optsFor(ks[c.r.Intn(len(ks))])
	o.UniqueSums = true
	o.MaxIter = 3
	if c.r.Intn(4) == 0 {
		o.UniqueSums, o.FewVals = false, true
	}
	switch c.r.Intn(30) {
	case 2, 3: // more leaves than fit into a byte
		o.K, o.Iter, o.Leaves, o.NF = 1, 1, 130+c.r.Intn(300), 6
	case 0:
		o.K, o.Iter, o.MaxLeaves = 10+c.r.Intn(10), 2, 4
	case 1:
		if !o.Avg {
			o.K, o.Iter, o.MaxLeaves = 1, 20+c.r.Intn(20), 4
		}
	}
	m := RandModel(c.r, o)
	h := 0
	if c.r.Intn(2) == 0 {
		h = c.loadXF(m)
	}
	if h == 0 {
		h = c.loadAny(m)
	}
	raw := c.view(h, "raw")
	leaf := c.view(pick(c.r, h, raw), "leaf")
	if leaf == 0 {
		return
	}
	rows := c.randRows(m, 16)
	for n := 1; n <= m.NE(); n++ {
		c.pred(Call{H: raw, API: "each", N: n, Rows: rows, NCols: len(rows[0])})
	}
	n := pick(c.r, 0, m.NE(), -1, m.NE()+2)
	switch c.r.Intn(4) {
	case 0:
		c.pred(Call{H: leaf, API: "each", N: n, Rows: rows, NCols: len(rows[0]), Pre: c.r.Intn(4)})
	case 1:
		c.pred(Call{H: leaf, API: "csr", N: n, Th: pick(c.r, 0, 1, 4), CSR: fullCSR(rows, m.NF), Pre: c.r.Intn(4)})
	default:
		c.pred(Call{H: leaf, API: "dense", N: n, Th: pick(c.r, 0, 1, 4), NCols: len(rows[0]), Rows: rows, Pre: c.r.Intn(4)})
	}
	if m.K*m.NE() == 1 {
		c.pred(Call{H: leaf, API: "single", N: n, Rows: rows[:1]})
	}
}

// C13: transformed scores against the raw view's.
func (c *Ctx) transformed() {
	o := c.optsFor(pickStr(c.r, "lg", "lg", "lg", "rf", "xg", "dart", "lin", "sk"))
	o.BigVals = c.r.Intn(2) == 0
	if o.Kind == "xg" || o.Kind == "dart" || o.Kind == "lin" || c.r.Intn(2) == 0 {
		o.K = 1
	}
	if o.Kind == "sk" {
		o.K = 0
	}
	if (o.Kind == "lg" || o.Kind == "sk") && c.r.Intn(20) == 0 {
		o.K, o.MaxIter, o.MaxLeaves = 10+c.r.Intn(50), 2, 3
	}
	m := RandModel(c.r, o)
	if c.r.Intn(4) == 0 && m.Kind == "lg" && !m.Avg { // scores around the limits of exp
		for i := range m.Trees {
			for j := range m.Trees[i].V {
				if c.r.Intn(3) == 0 { // where one minus a probability runs out of digits
					m.Trees[i].V[j] = pick(c.r, 1, -1) * (8*pick(c.r, 28, 28, 699, 736) + c.r.Intn(8*11))
					continue
				}
				m.Trees[i].V[j] = 8*pick(c.r, 0, 1, -1, 20, -20, 36, -36, 40, 300, -300, 700, -700, 709, 711, -744, -746, 1000, -1000) + c.r.Intn(8)
			}
		}
	}
	var h int
	if m.Avg && c.r.Intn(2) == 0 {
		obj := pickStr(c.r, "binary sigmoid:1", "multiclass num_class:"+itoa(m.K), "regression")
		h = c.load(m, "lgtext", true, obj, c.write(m, "lgtext", obj))
	} else {
		h = c.loadXF(m)
	}
	plain := c.loadAny(m)
	if h == 0 {
		h = plain
	}
	raw := c.view(h, "raw")
	rows := c.randRows(m, 10)
	n := pick(c.r, 0, 1, m.NE())
	for _, x := range []int{raw, plain} {
		c.pred(Call{H: x, API: "each", N: n, Rows: rows, NCols: len(rows[0])})
	}
	c.pred(Call{H: h, API: "each", N: n, Rows: rows, NCols: len(rows[0]), Pre: c.r.Intn(4)})
	c.pred(Call{H: h, API: "dense", N: n, Th: pick(c.r, 0, 4), Rows: rows, NCols: len(rows[0]), Pre: c.r.Intn(4)})
	c.pred(Call{H: h, API: "csr", N: n, CSR: fullCSR(rows, m.NF)})
	if m.K == 1 {
		c.pred(Call{H: h, API: "single", N: n, Rows: rows[:1]})
	}
	again := c.view(c.view(h, "leaf"), "raw")
	c.pred(Call{H: again, API: "each", N: n, Rows: rows, NCols: len(rows[0])})
}

// curve: raw scores all along the curve of a transformation, where its values
// run out of digits too.
func (c *Ctx) curve() {
	m := RandModel(c.r, ModelOpts{Kind: pickStr(c.r, "lg", "lg", "xg", "sk"), NF: 2, K: 1, Iter: 1, MaxLeaves: 70, Leaves: 70})
	at := []int{0, 1, -1, 8, -8, 36, -36, 40, -40, 300, -300, 650, -650, 700, -700, 708, -708, 709, -709, 711, -711, -744, -746, 1000, -1000}
	for len(at) < 70 {
		at = append(at, pick(c.r, 1, -1)*(pick(c.r, 28, 696, 736)+c.r.Intn(14)))
	}
	c.r.Shuffle(len(at), func(i, j int) { at[i], at[j] = at[j], at[i] })
	m.LR = 4
	for i := range m.Trees {
		t := &m.Trees[i]
		for j := range t.V {
			t.V[j] = 8*at[j%70] + c.r.Intn(8)
		}
		k := 0
		for j := range t.N {
			if m.Kind != "lg" && t.N[j].L < 0 {
				t.N[j].V = 8*at[k%70] + c.r.Intn(8)
				k++
			}
			if m.Kind == "lg" || t.N[j].L >= 0 {
				t.N[j].T = mk(c.r.Intn(33)-16, 0)
			}
		}
	}
	h, raw := c.loadXF(m), c.loadAny(m)
	rows := make([][]int, 120)
	for i := range rows {
		rows[i] = []int{mk(c.r.Intn(35)-17, 0), mk(c.r.Intn(35)-17, 0)}
	}
	for _, x := range []int{c.view(h, "raw"), raw, h} {
		c.pred(Call{H: x, API: "dense", Th: 1, Rows: rows, NCols: 2})
	}
}

// C03: layouts of the text form and the JSON form of one model.
func (c *Ctx) textAndJSON() {
	o := ModelOpts{Kind: "lg", CatProb: []float64{0, 0.3, 0.8}[c.r.Intn(3)], BigCats: true, MaxLeaves: 9}
	if c.r.Intn(40) == 0 {
		o.K, o.Iter, o.Leaves, o.NF = 1, 1, 130+c.r.Intn(200), 6
	}
	m := RandModel(c.r, o)
	var hs []int
	for _, f := range []string{"lgtext", "lgjson", "lgtext", "lgjson"} {
		hs = append(hs, c.loadFmt(m, f))
	}
	rows := c.randRows(m, 16)
	for n := 1; n <= m.NE(); n++ {
		for _, h := range hs {
			c.pred(Call{H: h, API: "dense", N: n, Th: 1, Rows: rows, NCols: len(rows[0]), Quiet: true})
		}
	}
	for _, h := range hs {
		c.pred(Call{H: c.view(h, "leaf"), API: "dense", N: 0, Th: 1, Rows: rows, NCols: len(rows[0]), Quiet: true})
	}
}

// featureless: a model of constant trees for no features at all.
func (c *Ctx) featureless() *Model {
	o := c.optsFor(pickStr(c.r, "lg", "rf"))
	o.Leaves, o.NF, o.MaxLeaves = 1, 1, 2
	m := RandModel(c.r, o)
	m.NF = 0
	return m
}

// many: models of many trees and of many classes.
func (c *Ctx) many(kind string) {
	o := c.optsFor(kind)
	o.MaxLeaves, o.MaxNF = 4, 3
	o.K, o.Iter = 1, 300+c.r.Intn(700)
	if c.r.Intn(2) == 0 {
		o.K, o.Iter = 20+c.r.Intn(250), 1+c.r.Intn(4)
	}
	m := RandModel(c.r, o)
	h := c.loadAny(m)
	rows := c.randRows(m, 20)
	c.predRows(h, rows, 0)
	c.predRows(h, rows[:3], 1+c.r.Intn(m.NE()))
	c.predRows(h, rows[:3], m.NE()-1)
}

// C19: metadata of models and of views of views, before and after use.
func (c *Ctx) metadata() {
	m := c.anyModel()
	switch c.r.Intn(25) {
	case 0:
		m = c.featureless()
	case 1:
		o := c.optsFor(pickStr(c.r, "lg", "xg", "dart", "sk"))
		o.K, o.Iter, o.MaxLeaves = pick(c.r, 3, 20, 70), pick(c.r, 3, 40), 4
		m = RandModel(c.r, o)
	}
	h := 0
	if c.r.Intn(2) == 0 {
		h = c.loadXF(m)
	}
	if h == 0 {
		h = c.loadAny(m)
	}
	if h == 0 {
		return
	}
	hs := []int{h}
	for k := 0; k < 5; k++ {
		x := hs[c.r.Intn(len(hs))]
		if v := c.view(x, pickStr(c.r, "raw", "leaf")); v != 0 {
			hs = append(hs, v)
		}
	}
	rows := c.randRows(m, 2)
	for _, x := range hs {
		if m.Kind != "lin" || !c.hleaf[x] {
			c.pred(Call{H: x, API: "dense", N: 0, Th: 1, Rows: rows, NCols: len(rows[0]), Quiet: true})
		}
	}
	for _, x := range hs {
		c.meta(x)
	}
}

// C09: histories of calls over several models and views; prefilled outputs of
// all lengths, refused calls in between, calls at the same time.
func (c *Ctx) history(concurrent bool) {
	type hm struct {
		h    int
		rows [][]int
	}
	var hs []hm
	for k := 0; k < 2; k++ {
		m := c.anyModel()
		if c.r.Intn(20) == 0 {
			m = c.manyFeatures()
		}
		rows := c.randRows(m, 3)
		x := c.loadAny(m)
		hs = append(hs, hm{x, rows})
		if y := c.loadXF(m); y != 0 {
			hs = append(hs, hm{y, rows})
		}
		if m.Kind != "lin" || true {
			hs = append(hs, hm{c.view(x, "leaf"), rows})
		}
	}
	call := func() (Call, bool) {
		x := hs[c.r.Intn(len(hs))]
		if x.h == 0 {
			return Call{}, false
		}
		m := c.hsrc[x.h]
		n := c.nFor(x.h)
		rows := [][]int{}
		for i := pick(c.r, 1, 1, 2, 3, 17, 34); i > 0; i-- {
			rows = append(rows, x.rows[c.r.Intn(len(x.rows))])
		}
		k := Call{H: x.h, N: n, Pre: c.r.Intn(4), DPlen: pick(c.r, 0, 0, 1, 3, 40), Th: pick(c.r, 0, 1, 2, 4, -1), Quiet: true, NCols: len(rows[0])}
		switch c.r.Intn(5) {
		case 0:
			k.API, k.Rows = "predict", rows[:1]
		case 1:
			k.API, k.CSR = "csr", fullCSR(rows, m.NF)
			for i := range k.CSR { // in any order, some left out
				c.r.Shuffle(len(k.CSR[i]), func(a, b int) { k.CSR[i][a], k.CSR[i][b] = k.CSR[i][b], k.CSR[i][a] })
				k.CSR[i] = k.CSR[i][:len(k.CSR[i])-c.r.Intn(2)]
			}
			k.Off = pick(c.r, 0, 0, 2)
		case 2:
			k.API, k.Rows = "dense", rows
			k.DVlen = pick(c.r, 0, 0, 2)
		case 3:
			k.API, k.Rows = "single", rows[:1]
			k.DPlen = 0
		case 4: // refused
			k.API, k.Rows = "dense", rows
			k.DPlen = -1
		}
		return k, true
	}
	if concurrent {
		for g := 0; g < 4; g++ {
			var ks []Call
			for i := 0; i < 6; i++ {
				if k, ok := call(); ok {
					ks = append(ks, k)
				}
			}
			c.together(ks)
		}
		return
	}
	for i := 0; i < 14; i++ {
		if k, ok := call(); ok {
			c.pred(k)
		}
		if c.r.Intn(6) == 0 {
			x := hs[c.r.Intn(len(hs))]
			c.view(x.h, pickStr(c.r, "raw", "leaf"))
		}
	}
}

// together makes all the calls at once, each on its own goroutine.
func (c *Ctx) together(ks []Call) {
	evs := make([]jm, len(ks))
	fns := make([]func(), len(ks))
	for i, k := range ks {
		evs[i], fns[i] = c.predPrep(k)
		evs[i]["res"] = "pending"
	}
	// the journal names the first of them: if the process dies, one of these did it
	note := jm{"ev": "note", "what": "concurrent", "calls": len(ks)}
	c.op(note, func() {
		var wg sync.WaitGroup
		start := make(chan bool)
		for i := range ks {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				guard(evs[i], fns[i])
			}(i)
		}
		close(start)
		wg.Wait()
		note["res"] = "ok"
	})
	for _, ev := range evs {
		c.emit(ev)
	}
}

// scenarios of a property, by index
func scenarios(prop string, thorough bool) []scenario {
	n := 1
	if thorough {
		n = 10
	}
	var out []scenario
	add := func(k int, s scenario) {
		for i := 0; i < k*n; i++ {
			out = append(out, s)
		}
	}
	switch prop {
	case "C01":
		add(500, func(c *Ctx) { c.scores(ModelOpts{Kind: "lg", BigVals: true, MaxLeaves: 9}, 24) })
		add(30, func(c *Ctx) { c.scores(ModelOpts{Kind: "lg", BigVals: true, MaxLeaves: 60, MaxNF: 12, MaxIter: 2}, 40) })
		add(30, func(c *Ctx) { c.scores(ModelOpts{Kind: "lg", Avg: true, MaxIter: 8}, 24) })
		add(6, func(c *Ctx) { c.wide("lg", false) })
		add(1, func(c *Ctx) { c.wide("lg", true) })
		add(1, func(c *Ctx) { c.large("lg", false) })
		add(4, func(c *Ctx) { c.many("lg") })
		add(4, func(c *Ctx) { c.scores(ModelOpts{Kind: "lg", MaxLeaves: 400, MaxNF: 300, MaxIter: 1, MaxK: 1}, 40) })
	case "C01split", "C02split", "C04split", "C06split":
		return tableScenarios((*Ctx).splitTables)
	case "C01tree", "C04tree", "C06tree", "C03tree", "C12tree", "C19tree":
		kinds := map[string][]string{"C01tree": {"lg"}, "C03tree": {"lg"}, "C04tree": {"xg", "dart"}, "C06tree": {"sk"}}[prop]
		if kinds == nil {
			kinds = []string{"lg", "xg", "sk"}
		}
		what := map[string]string{"C12tree": "leaf", "C03tree": "leaf", "C19tree": "meta"}[prop]
		if what == "" {
			what = "raw"
		}
		return tableScenarios(func(c *Ctx, from, to int) { c.treeTables(from, to, kinds, what) })
	case "C02":
		add(300, func(c *Ctx) { c.scores(ModelOpts{Kind: "lg", CatProb: 0.9, BigCats: true, MaxLeaves: 7}, 24) })
		add(150, func(c *Ctx) { c.scores(ModelOpts{Kind: "lg", CatProb: 0.6, MaxLeaves: 14, MaxNF: 2}, 30) })
		add(12, func(c *Ctx) { c.bigCategories() })
	case "C03":
		add(250, func(c *Ctx) { c.textAndJSON() })
		add(6, func(c *Ctx) { c.bigCategories() })
	case "C04":
		add(300, func(c *Ctx) { c.scores(ModelOpts{Kind: "xg", MaxLeaves: 9, BigVals: true}, 24) })
		add(200, func(c *Ctx) { c.scores(ModelOpts{Kind: "dart", MaxLeaves: 7, BigVals: true}, 24) })
		add(10, func(c *Ctx) { c.scores(ModelOpts{Kind: "xg", MaxLeaves: 80, MaxNF: 20, MaxIter: 1}, 40) })
		add(5, func(c *Ctx) { c.wide("xg", false) })
		add(1, func(c *Ctx) { c.wide("xg", true) })
		add(1, func(c *Ctx) { c.large("xg", false) })
		add(4, func(c *Ctx) { c.many("xg") })
	case "C05":
		add(300, func(c *Ctx) { c.linear() })
		add(5, func(c *Ctx) { c.scores(ModelOpts{Kind: "lin", MaxNF: 300, MaxK: 100}, 24) })
	case "C06":
		add(350, func(c *Ctx) { c.scores(ModelOpts{Kind: "sk", MaxLeaves: 9, BigVals: true}, 24) })
		add(5, func(c *Ctx) { c.wide("sk", false) })
		add(1, func(c *Ctx) { c.wide("sk", true) })
		add(1, func(c *Ctx) { c.large("sk", false) })
		add(4, func(c *Ctx) { c.many("sk") })
		add(10, func(c *Ctx) { c.scores(ModelOpts{Kind: "sk", MaxLeaves: 60, MaxNF: 20, MaxIter: 2}, 40) })
	case "C07":
		add(500, func(c *Ctx) { c.entryPoints() })
	case "C09":
		add(150, func(c *Ctx) { c.history(false) })
	case "C09hist", "C19hist":
		return tableScenarios(func(c *Ctx, from, to int) { c.histories(prop, from, to) })
	case "C09conc":
		add(40, func(c *Ctx) { c.history(true) })
	case "C09race":
		add(25, raced(func(c *Ctx) { c.history(true) }))
	case "C08":
		for i := 0; i < 30*n; i++ {
			part := i % 30
			out = append(out, func(c *Ctx) { c.pool(part, 30) })
		}
	case "C08race":
		add(20, raced(func(c *Ctx) { c.poolRace() }))
	case "C10":
		return callScenarios(thorough)
	case "C11":
		add(200, func(c *Ctx) { c.limited() })
	case "C12":
		add(350, func(c *Ctx) { c.leafNumbers() })
		add(1, func(c *Ctx) { c.large("lg", true) })
	case "C13":
		add(350, func(c *Ctx) { c.transformed() })
		add(40, func(c *Ctx) { c.curve() })
		add(30, func(c *Ctx) {
			for i := 0; i < 40; i++ {
				c.applied()
			}
		})
	case "C14":
		for i := 0; i < 40; i++ {
			part := i
			out = append(out, func(c *Ctx) { c.headers(part, 40) })
		}
	case "C15":
		add(120, func(c *Ctx) { c.streams() })
	case "C15orders":
		for i := 0; i < 40; i++ {
			part := i
			out = append(out, func(c *Ctx) { c.orders(part, 40) })
		}
	case "C15race":
		add(30, raced(func(c *Ctx) { c.loadCrowd() }))
	case "C16":
		add(250, func(c *Ctx) { c.sparseRows() })
	case "C17":
		for i := 0; i < 40; i++ {
			part := i
			out = append(out, func(c *Ctx) { c.matGen(part*len(genCases)/40, (part+1)*len(genCases)/40) })
		}
		add(150, func(c *Ctx) { c.matRandom("csv") })
		add(2, func(c *Ctx) { c.longLines("csv") })
		add(700, func(c *Ctx) { c.matWrite() })
	case "C18":
		for i := 0; i < 40; i++ {
			part := i
			out = append(out, func(c *Ctx) { c.matGen(part*len(genCases)/40, (part+1)*len(genCases)/40) })
		}
		add(200, func(c *Ctx) { c.matRandom("svm") })
		add(2, func(c *Ctx) { c.longLines("svm") })
		add(300, func(c *Ctx) { c.matArray() })
	case "C17race":
		add(25, raced(func(c *Ctx) {
			c.crowd(func() {
				c.matRandom("csv")
				for i := 0; i < 5; i++ {
					c.matWrite()
				}
			})
		}))
	case "C18race":
		add(25, raced(func(c *Ctx) {
			c.crowd(func() {
				c.matRandom("svm")
				for i := 0; i < 5; i++ {
					c.matArray()
				}
			})
		}))
	case "C23":
		for i := 0; i < 40; i++ {
			part := i
			out = append(out, func(c *Ctx) { c.utilGen(part, 40) })
		}
		add(40, func(c *Ctx) { c.utilRandom() })
	case "C20":
		add(60, func(c *Ctx) { c.pickleStyles() })
	case "C20vm":
		for i := 0; i < 40; i++ {
			part := i
			out = append(out, func(c *Ctx) { c.pickleGen(part*len(genCases)/40, (part+1)*len(genCases)/40) })
		}
		add(100, func(c *Ctx) { c.pickleRandom() })
	case "C21":
		for i := 0; i < 40; i++ {
			part := i
			out = append(out, func(c *Ctx) { c.damageGen(part*len(genCases)/40, (part+1)*len(genCases)/40) })
		}
		add(40, func(c *Ctx) { c.randRefs() })
		for _, f := range []string{"lgtext", "lgjson", "xgbin", "linbin", "skpkl"} {
			f := f
			add(40, func(c *Ctx) { c.damageSweep(f, 400) })
		}
	case "C22":
		for i := 0; i < 40; i++ {
			part := i
			out = append(out, func(c *Ctx) {
				if thorough {
					c.bodies(part, 40, 60, 1)
				} else {
					c.bodies(part, 40, 12, 6)
				}
			})
		}
	case "C19":
		add(400, func(c *Ctx) { c.metadata() })
	}
	return out
}

// C05: linear models, every entry point, missing features, any n.
func (c *Ctx) linear() {
	m := RandModel(c.r, ModelOpts{Kind: "lin", MaxNF: pick(c.r, 1, 3, 8), BigVals: c.r.Intn(2) == 0})
	if c.r.Intn(3) == 0 { // tiny features with huge weights, and the other way round
		m.exp = make([]int, m.NF)
		for f := range m.exp {
			m.exp[f] = pick(c.r, 0, -118, -100, -40, 40, 100, 115)
		}
	}
	h := c.loadFmt(m, "linbin")
	rows := c.randRows(m, 8)
	for i := range rows {
		if c.r.Intn(6) == 0 {
			c.infinite(m, rows[i])
		}
	}
	for k := 0; k < 3; k++ {
		c.predRows(h, rows, pick(c.r, 0, 1, -1, 2, 100))
	}
	c.pred(Call{H: h, API: "csr", N: pick(c.r, 0, 1, 7), CSR: c.sparse(m, 10)})
	if m.K == 1 && h != 0 {
		c.pred(Call{H: h, API: "single", N: pick(c.r, 0, -1, 1, 100), Rows: rows[:1]})
	}
}
