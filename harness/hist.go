package main

import "encoding/json"

// histCase is a history of the generator: what is done, with which handle.
type histCase struct {
	Models int     `json:"models"`
	XF     bool    `json:"xf"`
	Steps  [][]any `json:"steps"`
}

// histories: the cases from..to of the generator, each on freshly loaded
// models, followed by questions to all handles about everything.
func (c *Ctx) histories(name string, from, to int) {
	type pair struct {
		m    [2]*Model
		rows [2][][]int
	}
	ks := []string{"lg", "rf", "xg", "dart", "sk", "lin"}
	var pairs []pair
	for i := range ks {
		var p pair
		for j := range p.m {
			o := c.optsFor(ks[(i+j*(1+c.r.Intn(2)))%len(ks)])
			o.MaxLeaves, o.MaxIter, o.MaxNF, o.MaxK = 4, 2, 3, 3
			p.m[j] = RandModel(c.r, o)
			p.rows[j] = c.randRows(p.m[j], 3)
		}
		pairs = append(pairs, p)
	}
	srcs := map[*Model]int{}
	for i, g := range genCases[from:to] {
		var x histCase
		must(json.Unmarshal(g, &x))
		c.scn(name+"/"+itoa(from+i), nil)
		c.srcLine = srcs
		p := pairs[c.r.Intn(len(pairs))]
		hs := []int{}
		whose := []int{}
		for j := 0; j < x.Models; j++ {
			h := 0
			if x.XF == (j == 0) {
				h = c.loadXF(p.m[j])
			}
			if h == 0 {
				h = c.loadAny(p.m[j])
			}
			hs, whose = append(hs, h), append(whose, j)
		}
		ask := func(i int, k Call) {
			h, rows := hs[i], p.rows[whose[i]]
			if h == 0 {
				return
			}
			k.H, k.Quiet, k.Pre = h, true, c.r.Intn(4)
			switch c.r.Intn(4) {
			case 0:
				k.API, k.NCols, k.Rows = "predict", len(rows[0]), rows[c.r.Intn(len(rows)):][:1]
			case 1:
				k.API, k.CSR, k.Th = "csr", fullCSR(rows, p.m[whose[i]].NF), c.r.Intn(3)
			default:
				k.API, k.NCols, k.Rows, k.Th = "dense", len(rows[0]), rows, c.r.Intn(3)
			}
			c.pred(k)
		}
		for _, s := range x.Steps {
			i := int(s[1].(float64)) - 1
			switch kind := s[0].(string); kind {
			case "raw", "leaf":
				hs, whose = append(hs, c.view(hs[i], kind)), append(whose, whose[i])
			case "all":
				ask(i, Call{N: pick(c.r, 0, -1)})
			case "one":
				n := 1
				if c.hleaf[hs[i]] {
					n = 0
				}
				ask(i, Call{N: n})
			case "bad":
				ask(i, Call{DPlen: -1})
			}
		}
		for i := range hs {
			c.meta(hs[i])
		}
		for _, i := range c.r.Perm(len(hs)) {
			if hs[i] != 0 {
				rows := p.rows[whose[i]]
				c.pred(Call{H: hs[i], API: "dense", Th: 1, NCols: len(rows[0]), Rows: rows, Quiet: true})
			}
		}
	}
}
