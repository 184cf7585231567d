package main

import (
	"math"
	"math/rand"
)

// Node of a source tree. In LightGBM trees L and R are node numbers (>= 0) or
// leaves (-leaf-1); in XGBoost and sklearn trees every node, leaves included,
// has a number, a leaf has L = R = -1.
type Node struct {
	F    int    `json:"f"`
	K    string `json:"k"` // "n" numeric, "c" categorical
	T    int    `json:"t"` // threshold (code)
	Set  []int  `json:"set,omitempty"`
	Miss int    `json:"miss"` // 0 None, 1 Zero, 2 NaN
	DL   bool   `json:"dl"`
	L    int    `json:"l"`
	R    int    `json:"r"`
	V    int    `json:"v"` // leaf value (XGBoost, sklearn), eighths
}

type Tree struct {
	N []Node `json:"n"`
	V []int  `json:"v"` // leaf values (LightGBM), eighths
	// writer options, not part of the meaning
	extraWords int
	leafVec    int
	deleted    int
}

// Model is a source model: what the file describes.
type Model struct {
	Kind  string  `json:"kind"` // lg, xg, dart, lin, sk
	NF    int     `json:"nf"`
	K     int     `json:"k"`    // raw outputs
	Avg   bool    `json:"avg"`  // LightGBM random forest
	Base  []int   `json:"base"` // per class, eighths
	LR    int     `json:"lr"`   // sklearn learning rate, quarters
	W     []int   `json:"w"`    // tree weights, quarters
	Trees []Tree  `json:"trees"`
	LW    [][]int `json:"lw"` // gblinear weights [feature][class], eighths
	LB    []int   `json:"lb"` // gblinear bias
	Obj   string  `json:"obj"`
	Sc    int     `json:"sc"` // outputs are logged times sc
	// TruncOf > 0: line of the source this one is the truncation of, to its first TruncN iterations
	TruncOf int `json:"tof"`
	TruncN  int `json:"tn"`
	// exp: gblinear features are multiplied by these powers of two, and their weights divided
	exp []int
}

func (m *Model) NE() int {
	if m.Kind == "lin" {
		return 1
	}
	return len(m.Trees) / m.K
}

// rescale applies exp to the values of a row.
func (m *Model) rescale(vals []float64) {
	for f, e := range m.exp {
		if f < len(vals) {
			vals[f] = math.Ldexp(vals[f], e)
		}
	}
}

func (m *Model) F32() bool { return m.Kind == "xg" || m.Kind == "dart" || m.Kind == "sk" }

// ModelOpts steers the random generator.
type ModelOpts struct {
	Kind       string
	MaxNF      int
	MaxK       int
	MaxIter    int
	MaxLeaves  int
	CatProb    float64 // probability that a split is categorical
	BigCats    bool
	Avg        bool
	K          int // fixed number of classes (0: random)
	BigVals    bool
	UniqueSums bool // leaf values such that sums identify leaves
	FewVals    bool // leaves that often have the same value
	Iter       int
	NF         int
	Leaves     int // number of leaves of every tree (0: random)
}

// avgScale: scores of averaged models are logged times 8*840, whole for up to 8 iterations
const avgScale = 6720

func pick(r *rand.Rand, a ...int) int { return a[r.Intn(len(a))] }

func randThreshold(r *rand.Rand, f32 bool) int {
	switch r.Intn(12) {
	case 0:
		return pick(r, 0, 0, 1, -1, 2, -2, 3, -3)
	case 1:
		if f32 {
			return pick(r, mk(q1e300, 0), mk(-q1e300, 0), mk(q1e300, 3), mk(-q1e300, -3), mk(q2p31, 0))
		}
		return pick(r, mk(q1e300, 0), mk(-q1e300, 0), mk(q1e300, 3), mk(-q1e300, -3), mk(q2p31, 0), mk(q2p40, 0))
	case 2, 3, 4:
		return mk(r.Intn(17)-8, r.Intn(7)-3)
	default:
		return mk(r.Intn(17)-8, 0)
	}
}

func randSet(r *rand.Rand, big bool) []int {
	var max int
	switch r.Intn(6) {
	case 0:
		max = 4
	case 1, 2:
		max = 32
	case 3:
		max = 70
	case 4:
		max = 200
	default:
		max = 40
		if big {
			max = 3000
		}
	}
	n := 1
	if r.Intn(3) > 0 {
		n = 1 + r.Intn(8)
	}
	if big && r.Intn(60) == 0 { // more categories than a byte counts
		max = 1500
		n = 257 + r.Intn(500)
	}
	if n > max {
		n = max
	}
	seen := map[int]bool{}
	set := []int{}
	for len(set) < n {
		v := r.Intn(max)
		if r.Intn(6) == 0 {
			v = pick(r, 0, 31, 32, 63, 64, 1, 95, 96) % max
		}
		if !seen[v] {
			seen[v] = true
			set = append(set, v)
		}
	}
	sortInts(set)
	return set
}

// nearSet is the set, or the set but for one category.
func nearSet(r *rand.Rand, set []int) []int {
	out := append([]int{}, set...)
	i := r.Intn(len(out))
	v := out[i] + pick(r, 0, 1, -1, 32, -32, 7)
	if len(out) > 2 && r.Intn(2) == 0 { // somewhere between the first and the last
		i = 1 + r.Intn(len(out)-2)
		v = out[0] + 1 + r.Intn(out[len(out)-1]-out[0])
	}
	for _, x := range out {
		if x == v {
			return out
		}
	}
	if v >= 0 {
		out[i] = v
		sortInts(out)
	}
	return out
}

func sortInts(a []int) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j-1] > a[j]; j-- {
			a[j-1], a[j] = a[j], a[j-1]
		}
	}
}

// randLGTree grows a tree the way LightGBM does (split a leaf, the right half
// becomes a new leaf), then renumbers nodes and leaves at random.
func randLGTree(r *rand.Rand, o ModelOpts, nf int, val func(leaf int) int) Tree {
	nl := 1
	switch r.Intn(8) {
	case 0:
		nl = 1
	case 1:
		nl = 2
	default:
		nl = 2 + r.Intn(o.MaxLeaves-1)
	}
	style := r.Intn(4)
	if o.Leaves > 0 {
		nl, style = o.Leaves, 3
	}
	t := Tree{N: []Node{}, V: make([]int, nl)}
	type ref struct{ node, side int }
	where := []ref{{-1, 0}} // where each leaf hangs
	var last []int          // an earlier set of the tree
	for n := 0; n < nl-1; n++ {
		leaf := r.Intn(n + 1)
		if style == 0 {
			leaf = n // right-leaning chain
		} else if style == 1 {
			leaf = 0 // left-leaning chain
		}
		nd := Node{F: r.Intn(nf), K: "n", Miss: r.Intn(3), DL: r.Intn(2) == 0, L: -leaf - 1, R: -(n + 1) - 1}
		if r.Float64() < o.CatProb {
			nd.K = "c"
			nd.Set = randSet(r, o.BigCats)
			if last != nil && r.Intn(4) == 0 {
				nd.Set = nearSet(r, last)
			}
			if last == nil || r.Intn(2) == 0 {
				last = nd.Set
			}
			nd.DL = false
			nd.T = 0
		} else {
			nd.T = randThreshold(r, false)
		}
		if w := where[leaf]; w.node >= 0 {
			if w.side == 0 {
				t.N[w.node].L = n
			} else {
				t.N[w.node].R = n
			}
		}
		t.N = append(t.N, nd)
		where[leaf] = ref{n, 0}
		where = append(where, ref{n, 1})
	}
	if r.Intn(2) == 0 || o.Leaves > 0 {
		permuteLG(r, &t)
	}
	for i := range t.V {
		t.V[i] = val(i)
	}
	t.extraWords = pick(r, 0, 0, 0, 1, 2)
	return t
}

// permuteLG renumbers internal nodes (the root stays 0) and leaves.
func permuteLG(r *rand.Rand, t *Tree) {
	n := len(t.N)
	if n == 0 {
		return
	}
	p := append([]int{0}, addN(r.Perm(n-1), 1)...)
	lp := r.Perm(n + 1)
	ren := func(c int) int {
		if c >= 0 {
			return p[c]
		}
		return -lp[-c-1] - 1
	}
	out := make([]Node, n)
	for i, nd := range t.N {
		nd.L, nd.R = ren(nd.L), ren(nd.R)
		out[p[i]] = nd
	}
	t.N = out
}

func addN(a []int, d int) []int {
	for i := range a {
		a[i] += d
	}
	return a
}

// randNodeTree makes an XGBoost (or sklearn) tree: leaves are nodes.
func randNodeTree(r *rand.Rand, o ModelOpts, nf int, xg bool, val func(leaf int) int) Tree {
	lg := randLGTree(r, ModelOpts{MaxLeaves: o.MaxLeaves, Leaves: o.Leaves}, nf, val)
	n := len(lg.N)
	total := n + len(lg.V)
	del := 0
	if xg && r.Intn(4) == 0 {
		del = 1 + r.Intn(4) // deleted nodes
		if r.Intn(8) == 0 {
			del = 60 + r.Intn(300)
		}
		total += del
	}
	perm := append([]int{0}, addN(r.Perm(total-1), 1)...)
	if r.Intn(2) == 0 && del == 0 {
		for i := range perm {
			perm[i] = i
		}
	}
	t := Tree{N: make([]Node, total), V: []int{}, deleted: del}
	num := func(c int) int { // node number of an LG child reference
		if c >= 0 {
			return perm[c]
		}
		if n == 0 {
			return 0
		}
		return perm[n+(-c-1)]
	}
	for i := range t.N { // whatever is not filled in below is a deleted node
		t.N[i] = Node{K: "n", F: r.Intn(nf), T: 0, L: -1, R: -1, V: r.Intn(100) - 50, DL: r.Intn(2) == 0}
	}
	for i, nd := range lg.N {
		x := Node{K: "n", F: nd.F, T: randThreshold(r, true), DL: nd.DL, L: num(nd.L), R: num(nd.R)}
		if !xg {
			x.DL = false
		}
		t.N[perm[i]] = x
	}
	for i, v := range lg.V {
		t.N[num(-i-1)] = Node{K: "n", F: 0, L: -1, R: -1, V: v}
	}
	if xg && r.Intn(5) == 0 {
		t.leafVec = 1 + r.Intn(3)
	}
	return t
}

// RandModel makes a random source model.
func RandModel(r *rand.Rand, o ModelOpts) *Model {
	if o.MaxNF == 0 {
		o.MaxNF = 4
	}
	if o.MaxK == 0 {
		o.MaxK = 4
	}
	if o.MaxIter == 0 {
		o.MaxIter = 4
	}
	if o.MaxLeaves == 0 {
		o.MaxLeaves = 7
	}
	m := &Model{Kind: o.Kind, Base: []int{}, W: []int{}, Trees: []Tree{}, LW: [][]int{}, LB: []int{}, Sc: 8}
	m.NF = 1 + r.Intn(o.MaxNF)
	if o.NF > 0 {
		m.NF = o.NF
	}
	m.K = 1
	if o.MaxK > 1 && r.Intn(2) == 0 {
		m.K = 2 + r.Intn(o.MaxK-1)
	}
	if o.Kind == "sk" && m.K == 2 {
		m.K = 3
	}
	if o.K > 0 {
		m.K = o.K
	}
	iters := 1 + r.Intn(o.MaxIter)
	if o.Iter > 0 {
		iters = o.Iter
	}
	if o.Kind == "lin" {
		m.Sc = 32
		m.Base = []int{r.Intn(41) - 20}
		if o.BigVals && r.Intn(3) == 0 { // base score and bias of different sizes
			m.Base[0] = pick(r, 1, -1) * (1<<23 + 2*r.Intn(1<<22) + 1)
		}
		for f := 0; f < m.NF; f++ {
			row := make([]int, m.K)
			for k := range row {
				row[k] = pick(r, r.Intn(81)-40, r.Intn(81)-40, r.Intn(81)-40, 0)
			}
			m.LW = append(m.LW, row)
		}
		for k := 0; k < m.K; k++ {
			m.LB = append(m.LB, r.Intn(81)-40)
			if o.BigVals && r.Intn(3) == 0 {
				m.LB[k] = pick(r, 1, -1) * 4 * (1<<23 + r.Intn(1<<22))
			}
		}
		return m
	}
	big := o.BigVals && r.Intn(2) == 0
	tree := 0
	val := func(leaf int) int {
		v := r.Intn(801) - 400
		if o.UniqueSums { // distinct leaves of a tree always differ
			v = (leaf+1)*16 + r.Intn(16) - 50
		}
		if o.FewVals {
			return 8 * r.Intn(3)
		}
		if big && r.Intn(3) == 0 {
			v = pick(r, 1<<23-1, -(1<<23 - 1), 1<<22+1, 8388607-r.Intn(1000))
			// more digits than a float32 has
			if o.Kind == "lg" && iters <= 4 {
				v = pick(r, v, 1<<28+1, -(1<<28 + 3), 1<<26+r.Intn(1<<26))
			} else if o.Kind == "sk" && iters <= 4 {
				v = pick(r, v, 1<<25+1, -(1<<25 + 3), 1<<24+r.Intn(1<<24))
			}
		}
		return v
	}
	for i := 0; i < iters*m.K; i++ {
		tree = i
		_ = tree
		switch o.Kind {
		case "lg":
			m.Trees = append(m.Trees, randLGTree(r, o, m.NF, val))
		case "xg", "dart":
			m.Trees = append(m.Trees, randNodeTree(r, o, m.NF, true, val))
		case "sk":
			m.Trees = append(m.Trees, randNodeTree(r, o, m.NF, false, val))
		}
	}
	switch o.Kind {
	case "lg":
		if o.Avg {
			m.Avg = true
			m.Sc = avgScale
			for i := range m.Trees {
				for j := range m.Trees[i].V {
					m.Trees[i].V[j] %= 20000
				}
			}
		}
	case "xg":
		m.Base = []int{pick(r, 4, 0, -8, 20, 3)}
		m.Sc = 8
	case "dart":
		m.Base = []int{pick(r, 4, 0, -8, 20, 3)}
		m.Sc = 32
		for range m.Trees {
			m.W = append(m.W, pick(r, 4, 4, 2, 1, 3, 8, 5, 0))
		}
	case "sk":
		m.Sc = 32
		m.LR = pick(r, 1, 4, 2, 3, 8)
		long := o.BigVals && r.Intn(4) == 0 && iters <= 4
		if long { // a learning rate of more digits than a float32 has
			m.LR = 1<<25 + 1 + 2*r.Intn(1000)
			for i := range m.Trees {
				for j := range m.Trees[i].N {
					m.Trees[i].N[j].V %= 9
				}
			}
		}
		for k := 0; k < m.K; k++ {
			m.Base = append(m.Base, r.Intn(81)-40)
			if o.BigVals && !big && !long && r.Intn(4) == 0 {
				m.Base[k] = pick(r, 1<<27+1, -(1<<27 + 5), 1<<26+r.Intn(1<<26))
			}
		}
	}
	return m
}

// Trunc is the model's first n iterations.
func (m *Model) Trunc(n int) *Model {
	c := *m
	c.Trees = m.Trees[:n*m.K]
	if len(m.W) > 0 {
		c.W = m.W[:n*m.K]
	}
	return &c
}

// thresholds collects the codes worth trying per feature.
func (m *Model) interesting(f int) []int {
	out := []int{}
	for _, t := range m.Trees {
		for _, n := range t.N {
			if n.F != f {
				continue
			}
			if n.K == "c" {
				for _, c := range n.Set {
					if c >= 1<<24 {
						out = append(out, catCode(c), catCode(c)-1, catCode(c)+1)
						continue
					}
					out = append(out, mk(4*c, 0), mk(4*c+2, 0), mk(4*c+4, 0), mk(4*c+4, -1), mk(4*c, -1), mk(4*c+128, 0))
				}
			} else {
				out = append(out, n.T)
				q, e := split(n.T)
				if q > -qInf+20 && q < qInf-20 {
					if e < 3 {
						out = append(out, n.T+1)
					}
					if e > -3 {
						out = append(out, n.T-1)
					}
					out = append(out, mk(q+1, 0), mk(q-1, 0))
				}
			}
		}
	}
	return out
}

// RandRow makes a row of n codes for the model.
func (m *Model) RandRow(r *rand.Rand, n int) []int {
	row := make([]int, n)
	if m.Kind == "lin" {
		for i := range row {
			row[i] = mk(r.Intn(81)-40, 0)
			if r.Intn(8) == 0 {
				row[i] = NaNCode
			}
			if r.Intn(8) == 0 {
				row[i] = 0
			}
		}
		if n > 0 && r.Intn(6) == 0 { // one value of more digits than a float32 has
			row[r.Intn(n)] = mk(pick(r, 1, -1)*(1<<24+1+2*r.Intn(1<<20)), 0)
		}
		return row
	}
	sp := specialCodes(m.F32())
	for i := range row {
		var in []int
		if i < m.NF {
			in = m.interesting(i)
		}
		switch {
		case m.Kind == "sk" && r.Intn(3) == 0:
			row[i] = mk(r.Intn(17)-8, 0)
		case len(in) > 0 && r.Intn(5) < 3:
			row[i] = in[r.Intn(len(in))]
		case r.Intn(2) == 0:
			row[i] = sp[r.Intn(len(sp))]
		default:
			row[i] = mk(r.Intn(21)-10, 0)
		}
		if m.Kind == "sk" && row[i] == NaNCode {
			row[i] = 0 // sklearn refuses NaN
		}
	}
	return row
}
