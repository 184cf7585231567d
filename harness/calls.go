package main

import "encoding/json"

type callCase struct {
	API  string `json:"api"`
	Rows int    `json:"rows"`
	W    int    `json:"w"`
	N    int    `json:"n"`
	Th   int    `json:"th"`
	Out  int    `json:"out"`
	Val  int    `json:"val"`
}

func len4(mode, need int) int {
	switch mode {
	case 0:
		return 0
	case 1:
		if need == 0 {
			return 0
		}
		return need - 1
	case 2:
		return need
	}
	return need + 1
}

// C10: the calls of the generator on one handle.
func (c *Ctx) calls(kind, view string, xf, one bool, part, parts int) {
	o := ModelOpts{}
	if kind != "nofeat" {
		o = c.optsFor(kind)
	}
	o.K = pick(c.r, 1, 3)
	if xf {
		o.K = 1
	}
	o.NF = pick(c.r, 1, 3)
	o.Iter = pick(c.r, 1, 2, 2)
	if one { // one tree: leaf views have a single output
		o.K, o.Iter = 1, 1
	}
	o.MaxLeaves = 4
	var m *Model
	if kind == "nofeat" {
		m = c.featureless()
	} else {
		m = RandModel(c.r, o)
	}
	h := 0
	if xf {
		h = c.loadXF(m)
	}
	if h == 0 {
		h = c.loadAny(m)
	}
	if view != "" {
		h = c.view(h, view)
	}
	if h == 0 {
		return
	}
	base := make([][]int, 4)
	for i := range base {
		base[i] = m.RandRow(c.r, m.NF+1)
	}
	for i, g := range genCases {
		if i%parts != part {
			continue
		}
		var x callCase
		must(json.Unmarshal(g, &x))
		if x.API == "huge" {
			c.hugeCall(h, m, x, base, i)
			continue
		}
		if m.NF == 0 && x.W < 2 {
			continue
		}
		w := []int{0, m.NF - 1, m.NF, m.NF + 1}[x.W]
		if w == 0 && m.NF == 0 && (x.API == "single" || x.API == "predict") {
			continue
		}
		n := []int{0, 1, m.NE(), m.NE() + 1, m.NE() - 1, -1}[x.N]
		k := Call{H: h, API: x.API, N: n, Th: x.Th, Pre: i % 4, Quiet: true}
		G := c.handles[h].NOutputGroups()
		rows := make([][]int, x.Rows)
		for j := range rows {
			rows[j] = base[c.r.Intn(len(base))][:w]
		}
		k.DPlen = len4(x.Out, G*x.Rows) - G*x.Rows
		switch x.API {
		case "csr":
			k.CSR = make([][][2]int, x.Rows)
			for j := range k.CSR {
				if m.NF > 0 {
					k.CSR[j] = [][2]int{{m.NF - 1, rows[j][m.NF-1]}}
				}
			}
		default:
			k.Rows = rows
			k.NCols = w
			k.DVlen = len4(x.Val, x.Rows*w) - x.Rows*w
			if x.API != "dense" {
				k.DVlen = 0
			}
		}
		c.pred(k)
	}
}

// hugeCall: a dense call with sizes that no slice has.
func (c *Ctx) hugeCall(h int, m *Model, x callCase, base [][]int, i int) {
	num := func(v int) int {
		switch {
		case v == 98:
			return -1
		case v == 99:
			return -1 << 63
		case v == 163:
			return 1<<63 - 1
		case v > 100:
			return 1 << (v - 100)
		}
		return v
	}
	k := Call{H: h, API: "dense", Th: x.Th, Pre: i % 4, Quiet: true, NRows: num(x.Rows), Huge: true}
	k.NCols = num(x.W)
	if x.W == 2 || x.W == 3 {
		k.NCols = m.NF + x.W - 2
	}
	for _, row := range base {
		k.Rows = append(k.Rows, row[:m.NF])
	}
	if x.Val == 0 {
		k.DVlen = -len(k.Rows) * m.NF
	}
	if x.Out == 0 {
		k.DPlen = -len(k.Rows) * c.handles[h].NOutputGroups()
	}
	c.pred(k)
}

func callScenarios(thorough bool) []scenario {
	var out []scenario
	parts, take := 8, 1
	if thorough {
		take = 8
	}
	i := 0
	for _, kind := range []string{"lg", "rf", "xg", "dart", "lin", "sk", "nofeat"} {
		for _, v := range []struct {
			view string
			xf   bool
			one  bool
		}{{"", false, false}, {"", true, false}, {"leaf", false, false}, {"raw", true, false}, {"leaf", true, false}, {"leaf", false, true}, {"", false, true}} {
			for p := 0; p < take; p++ {
				kind, v, part := kind, v, (i+p)%parts
				out = append(out, func(c *Ctx) { c.calls(kind, v.view, v.xf, v.one, part, parts) })
			}
			i++
		}
	}
	return out
}
