package main

import "encoding/json"

// splitCase is one decision table: a tree (as LightGBM numbers it), the values
// of the feature its root looks at, and those of the feature the rest looks at.
type splitCase struct {
	Kind string `json:"kind"`
	N    []Node `json:"n"`
	Vals []int  `json:"vals"`
	Ws   []int  `json:"ws"`
}

// treeCase is a tree of n splits: children by split (LightGBM) or by node.
type treeCase struct {
	Fmt string `json:"fmt"`
	N   int    `json:"n"`
	T   struct {
		L []int `json:"l"`
		R []int `json:"r"`
	} `json:"t"`
}

// asNodes makes a tree whose leaves are nodes of a LightGBM tree; nodes other
// than the root are numbered at random.
func (c *Ctx) asNodes(t Tree) Tree {
	n := len(t.N)
	total := n + len(t.V)
	perm := append([]int{0}, addN(c.r.Perm(total-1), 1)...)
	num := func(x int) int {
		if x >= 0 {
			return perm[x]
		}
		if n == 0 {
			return 0
		}
		return perm[n-x-1]
	}
	out := Tree{N: make([]Node, total), V: []int{}}
	for i, nd := range t.N {
		nd.L, nd.R = num(nd.L), num(nd.R)
		out.N[perm[i]] = nd
	}
	for i, v := range t.V {
		out.N[num(-i-1)] = Node{K: "n", L: -1, R: -1, V: v}
	}
	return out
}

// one makes a model of one tree (kind lg: a LightGBM tree, else one of nodes).
func (c *Ctx) one(kind string, nf int, t Tree) *Model {
	m := RandModel(c.r, ModelOpts{Kind: kind, NF: nf, K: 1, Iter: 1, MaxLeaves: 2})
	m.Trees = []Tree{t}
	return m
}

// leafVals: distinct values of n leaves
func (c *Ctx) leafVals(n int) []int {
	v := make([]int, n)
	for i := range v {
		v[i] = (i+1)*16 + c.r.Intn(16) - 40
	}
	return v
}

func (c *Ctx) anyEntry(h int, rows [][]int, n int) {
	if h == 0 {
		return
	}
	switch c.r.Intn(3) {
	case 0:
		c.pred(Call{H: h, API: "each", N: n, NCols: len(rows[0]), Rows: rows, Pre: c.r.Intn(4)})
	case 1:
		c.pred(Call{H: h, API: "csr", N: n, Th: pick(c.r, 0, 2), CSR: fullCSR(rows, c.hsrc[h].NF), Pre: c.r.Intn(4)})
	default:
		c.pred(Call{H: h, API: "dense", N: n, Th: pick(c.r, 0, 1, 4), NCols: len(rows[0]), Rows: rows, Pre: c.r.Intn(4)})
	}
}

// splitTables: the decision tables from..to of the generator.
func (c *Ctx) splitTables(from, to int) {
	for _, g := range genCases[from:to] {
		var x splitCase
		must(json.Unmarshal(g, &x))
		t := Tree{N: x.N, V: c.leafVals(len(x.N) + 1)}
		fmts := []string{"lgtext", "lgjson"}
		kinds := []string{"lg"}
		switch x.Kind {
		case "xg":
			kinds, fmts = []string{pickStr(c.r, "xg", "dart")}, []string{"xgbin"}
		case "sk":
			kinds, fmts = []string{"sk"}, []string{"skpkl"}
		}
		if x.Kind != "lg" {
			t = c.asNodes(t)
		} else if c.r.Intn(2) == 0 {
			permuteLG(c.r, &t)
		}
		m := c.one(kinds[0], 2, t)
		rows := [][]int{}
		for _, v := range x.Vals {
			for _, w := range x.Ws {
				rows = append(rows, []int{v, w})
			}
		}
		for _, f := range fmts {
			c.anyEntry(c.loadFmt(m, f), rows, 0)
		}
	}
}

// treeTables: the trees from..to of the generator; for each all rows, one for
// every way the splits can go. what: "raw", "leaf" (leaf numbers), "meta".
func (c *Ctx) treeTables(from, to int, kinds []string, what string) {
	for _, g := range genCases[from:to] {
		var x treeCase
		must(json.Unmarshal(g, &x))
		if x.T.L == nil { // no such tree: a decision table
			continue
		}
		t := Tree{N: []Node{}, V: []int{}}
		vals := c.leafVals(x.N + 1)
		leaf, split := 0, 0
		for i := range x.T.L {
			nd := Node{K: "n", L: x.T.L[i], R: x.T.R[i]}
			if x.Fmt != "lg" && nd.L == -1 {
				nd.V = vals[leaf]
				leaf++
			} else {
				nd.F = split
				split++
			}
			t.N = append(t.N, nd)
		}
		if x.Fmt == "lg" {
			t.V = vals
		}
		nf := x.N
		if nf == 0 {
			nf = 1
		}
		rows := [][]int{}
		for b := 0; b < 1<<uint(nf); b++ {
			row := make([]int, nf)
			for j := range row {
				row[j] = mk(4-8*(b>>uint(j)&1), 0)
			}
			rows = append(rows, row)
		}
		for _, kind := range kinds {
			if (kind == "lg") != (x.Fmt == "lg") {
				continue
			}
			u := t
			if kind == "sk" { // leaves of sklearn trees have no threshold or side
				u.N = append([]Node{}, t.N...)
			}
			m := c.one(kind, nf, u)
			fmts := []string{m.format()}
			if kind == "lg" {
				fmts = []string{"lgtext", "lgjson"}
			}
			for _, f := range fmts {
				h := c.loadFmt(m, f)
				switch what {
				case "raw":
					c.anyEntry(h, rows, 0)
				case "leaf":
					c.anyEntry(h, rows, 1)
					c.anyEntry(c.view(h, "leaf"), rows, 0)
				case "meta":
					c.view(h, "leaf")
				}
			}
		}
	}
}

// addTables adds scenarios for all cases of the generator.
func tableScenarios(fn func(c *Ctx, from, to int)) []scenario {
	const parts = 40
	out := []scenario{}
	for i := 0; i < parts; i++ {
		from, to := i*len(genCases)/parts, (i+1)*len(genCases)/parts
		if from < to {
			out = append(out, func(c *Ctx) { fn(c, from, to) })
		}
	}
	return out
}
