package main

import (
	"encoding/json"
	"math/rand"
	"strings"
)

type hdrCase struct {
	Fmt  string      `json:"fmt"`
	Kind string      `json:"kind"`
	K    int         `json:"k"`
	Avg  bool        `json:"avg"`
	XF   bool        `json:"xf"`
	Obj  string      `json:"obj"`
	Dev  [][2]string `json:"dev"`
}

func (h *hdrCase) val(f, def string) string {
	for _, d := range h.Dev {
		if d[0] == f {
			return d[1]
		}
	}
	return def
}

// num resolves a relative number; ok is false when the value is none.
func num(v string, base int) (int, bool) {
	switch v {
	case "=":
		return base, true
	case "+1":
		return base + 1, true
	case "-1":
		return base - 1, true
	case "+k":
		return base + 3, true
	case "0":
		return 0, true
	case "neg":
		return -1, true
	case "one":
		return 1, true
	case "two":
		return 2, true
	case "three":
		return 3, true
	}
	return 0, false
}

// hdrModel: two features, both used by the first tree.
func hdrModel(h *hdrCase, r *rand.Rand) *Model {
	m := RandModel(r, ModelOpts{Kind: h.Kind, K: h.K, NF: 2, Iter: 2, Avg: h.Avg, MaxLeaves: 3})
	if h.Kind == "lin" {
		return m
	}
	if h.Kind == "lg" {
		m.Trees[0] = Tree{N: []Node{{F: 1, K: "n", T: 8, L: 1, R: -1}, {F: 0, K: "n", T: 16, L: -2, R: -3}}, V: []int{8, 16, 24}}
	} else {
		m.Trees[0] = Tree{N: []Node{{F: 1, K: "n", T: 8, L: 1, R: 2}, {F: 0, K: "n", T: 16, L: 3, R: 4},
			{K: "n", L: -1, R: -1, V: 8}, {K: "n", L: -1, R: -1, V: 16}, {K: "n", L: -1, R: -1, V: 24}}}
	}
	return m
}

func hdrText(h *hdrCase, m *Model, r *rand.Rand) []byte {
	lay := plainLayout()
	lay.Version = h.val("ver", "v3")
	lay.Objective = h.Obj
	if h.Obj == "absent" {
		lay.Objective = ""
	}
	secs := lgSections(m, lay, r)
	set := func(key, v string) {
		for i, l := range secs[0].Lines {
			if strings.HasPrefix(l, key+"=") {
				if v == "absent" {
					secs[0].Lines = append(secs[0].Lines[:i:i], secs[0].Lines[i+1:]...)
					secs[0].Req = append(secs[0].Req[:i:i], secs[0].Req[i+1:]...)
				} else {
					secs[0].Lines[i] = key + "=" + v
				}
				return
			}
		}
	}
	set("version", lay.Version)
	for f, key := range map[string]string{"nc": "num_class", "ntpi": "num_tree_per_iteration"} {
		if v := h.val(f, "="); v != "=" {
			if n, ok := num(v, h.K); ok {
				v = itoa(n)
			}
			set(key, v)
		}
	}
	switch v := h.val("maxf", "="); v {
	case "=":
	case "larger":
		set("max_feature_idx", "5")
	case "small":
		set("max_feature_idx", "0")
	case "huge":
		set("max_feature_idx", "2147483647")
	case "neg":
		set("max_feature_idx", "-1")
	default:
		set("max_feature_idx", v)
	}
	if v := h.val("sizes", "="); v == "absent" {
		set("tree_sizes", v)
	} else {
		n, _ := num(v, len(m.Trees))
		set("tree_sizes", joinInts(n, func(i int) string { return itoa(300 + i) }))
	}
	n, _ := num(h.val("trees", "="), len(m.Trees))
	if h.val("sizes", "=") == "none" {
		n = 0
	}
	for n > len(secs)-1 {
		secs = append(secs, secs[1])
	}
	secs = secs[:n+1]
	lines, _ := lgLines(secs, lay, r)
	return joinLines(lines, lay)
}

func hdrJSON(h *hdrCase, m *Model, r *rand.Rand) []byte {
	o := lgJSONObj(m, r)
	str := func(f, key string) {
		switch v := h.val(f, "="); v {
		case "=":
		case "absent":
			delete(o, key)
		default:
			o[key] = v
		}
	}
	str("name", "name")
	str("ver", "version")
	for f, key := range map[string]string{"nc": "num_class", "ntpi": "num_tree_per_iteration"} {
		if v := h.val(f, "="); v == "absent" {
			delete(o, key)
		} else if n, ok := num(v, h.K); ok {
			o[key] = n
		} else {
			o[key] = v
		}
	}
	switch v := h.val("maxf", "="); v {
	case "=":
	case "absent":
		delete(o, "max_feature_idx")
	case "larger":
		o["max_feature_idx"] = 5
	case "small":
		o["max_feature_idx"] = 0
	case "huge":
		o["max_feature_idx"] = 2147483647
	case "neg":
		o["max_feature_idx"] = -1
	default:
		o["max_feature_idx"] = v
	}
	if v := h.val("trees", "="); v == "absent" {
		delete(o, "tree_info")
	} else {
		ts := o["tree_info"].([]interface{})
		n, _ := num(v, len(ts))
		for n > len(ts) {
			ts = append(ts, ts[0])
		}
		o["tree_info"] = ts[:n]
	}
	b, err := json.Marshal(o)
	must(err)
	return b
}

func hdrXG(h *hdrCase, m *Model, r *rand.Rand) []byte {
	x := xgHead(m, h.Obj)
	x.Gbm = h.val("gbm", x.Gbm)
	switch h.val("nf", "=") {
	case "0":
		x.NF = 0
	case "larger":
		x.NF = 6
	}
	switch h.val("gbf", "=") {
	case "less":
		x.GBFeatures = 1
	case "larger":
		x.GBFeatures = 5
	}
	n, _ := num(h.val("roots", "one"), 0)
	x.Roots = int32(n)
	n, _ = num(h.val("troots", "one"), 0)
	x.TreeRoots = int32(n)
	n, _ = num(h.val("lroots", "one"), 0)
	x.LastRoots = int32(n) - 1
	switch h.val("tnf", "=") {
	case "larger":
		x.TreeNF = 3
	case "last":
		x.LastNF = 3
	case "less":
		x.TreeNF = -1
	}
	n, _ = num(h.val("lnf", "="), m.NF)
	x.LinNF = uint32(n)
	n, _ = num(h.val("trees", "="), len(m.Trees))
	x.Trees = int32(n)
	n, _ = num(h.val("groups", "="), m.K)
	x.Groups = int32(n)
	T := len(m.Trees)
	for i := range x.Info {
		v := x.Info[i]
		switch h.val("info", "=") {
		case "zero":
			v = 0
		case "next":
			v = int32(i % (m.K + 1))
		case "shift":
			v = int32((i + 1) % m.K)
		case "blocks":
			v = int32(i / (T / m.K))
		case "last":
			if i == T-1 {
				v = int32(m.K)
			}
		case "neg":
			if i == T-1 {
				v = -1
			}
		case "swap":
			if i == T-2 {
				v = int32((T - 1) % m.K)
			} else if i == T-1 {
				v = int32((T - 2) % m.K)
			}
		case "back":
			v = int32(m.K - 1 - i%m.K)
		}
		x.Info[i] = v
	}
	if v := h.val("nw", "="); v != "=" {
		base := len(m.W)
		if m.Kind == "lin" {
			base = (m.NF + 1) * m.K
		}
		n, _ = num(v, base)
		x.NW, x.LinW = n, n
	}
	return xgBin(m, x, r)
}

func hdrSK(h *hdrCase, m *Model, r *rand.Rand) []byte {
	x := skHead(m, r)
	cls := m.K
	if m.K == 1 {
		cls = 2
		x.Init = "LogOddsEstimator"
	}
	x.NClasses, _ = num(h.val("ncls", "="), cls)
	x.ClsLen, _ = num(h.val("clslen", "="), cls)
	x.NEst, _ = num(h.val("nest", "="), m.NE())
	x.Rows, _ = num(h.val("rows", "="), m.NE())
	x.Cols, _ = num(h.val("cols", "="), m.K)
	x.Items, _ = num(h.val("items", "="), len(m.Trees))
	if h.val("nest", "=") == "none" {
		x.NEst, x.Rows, x.Items = 0, 0, 0
	}
	x.NPriors, _ = num(h.val("npri", "="), m.K)
	x.Cls = h.val("cls", x.Cls)
	x.Init = h.val("init", x.Init)
	x.MaxF = 2
	if h.val("maxf", "=") == "small" {
		x.NF = 1
	}
	return skPickle(m, x, randStyle(r), r)
}

// C14: the headers of the generator.
func (c *Ctx) headers(part, parts int) {
	for i, g := range genCases {
		if i%parts != part {
			continue
		}
		var h hdrCase
		must(json.Unmarshal(g, &h))
		m := hdrModel(&h, c.r)
		var data []byte
		switch h.Fmt {
		case "lgtext":
			data = hdrText(&h, m, c.r)
		case "lgjson":
			data = hdrJSON(&h, m, c.r)
		case "skpkl":
			data = hdrSK(&h, m, c.r)
		default:
			data = hdrXG(&h, m, c.r)
		}
		ev := jm{"ev": "hdr", "c": g}
		noMeta(ev)
		read := c.via(h.Fmt, h.XF, data)
		c.op(ev, func() {
			e, err := read()
			switch {
			case err != nil && e != nil:
				ev["res"] = "both"
			case err != nil:
				ev["res"], ev["why"] = "err", err.Error()
			case e == nil:
				ev["res"] = "none"
			default:
				meta(ev, e)
				ev["res"] = "ok"
			}
		})
	}
}
