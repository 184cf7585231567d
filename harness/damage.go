package main

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime/metrics"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	leaves "github.com/dmitryikh/leaves"
)

// C21: damaged files. Every file is loaded under guard; what a loader returns
// is then used through every entry point and view.

const allocCap = 1 << 30

func limitMemory() {
	l := syscall.Rlimit{Cur: 14 << 30, Max: 14 << 30}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &l)
}

func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// useModel predicts through every entry point and view; returns what went wrong.
func useModel(e *leaves.Ensemble, r *rand.Rand) (bad string) {
	stage := "meta"
	defer func() {
		if p := recover(); p != nil {
			bad = stage + ": panic: " + fmt.Sprint(p)
		}
	}()
	views := []*leaves.Ensemble{e, e.EnsembleWithRawPredictions(), e.EnsembleWithLeafPredictions()}
	for vi, v := range views {
		stage = fmt.Sprintf("view %d meta", vi)
		nf, G := v.NFeatures(), v.NOutputGroups()
		_, _, _, _ = v.NEstimators(), v.NLeaves(), v.Name(), v.Transformation().Name()
		if G < 1 {
			return fmt.Sprintf("view %d: %d outputs", vi, G)
		}
		if G > 1<<20 {
			return ""
		}
		if nf < 0 {
			nf = 0 // then rows of any length will do
		}
		if nf > absurdNF {
			continue
		}
		cols := nf + r.Intn(3)
		if cols == 0 {
			cols = 1
		}
		const rows = 3
		vals := make([]float64, rows*cols)
		lim := len(vals)
		if lim > 4096 {
			lim = 4096
		}
		for i := 0; i < lim; i++ {
			switch r.Intn(8) {
			case 0:
				vals[i] = math.NaN()
			case 1:
				vals[i] = float64(r.Intn(100))
			case 2:
				vals[i] = pickf(r, math.Inf(1), math.Inf(-1), 1e300, -1e300, 4294967296, 2147483648, -2147483648)
			default:
				vals[i] = float64(r.Intn(17)-8) / 4
			}
		}
		out := make([]float64, rows*G)
		n := r.Intn(2)
		if vi == 2 {
			n = 0 // leaf numbers of all trees
		}
		stage = fmt.Sprintf("view %d PredictSingle", vi)
		_ = v.PredictSingle(vals[:cols], n)
		stage = fmt.Sprintf("view %d Predict", vi)
		if err := v.Predict(vals[:cols], n, out); err != nil {
			return stage + ": " + err.Error()
		}
		stage = fmt.Sprintf("view %d PredictDense", vi)
		if err := v.PredictDense(vals, rows, cols, out, n, r.Intn(4)); err != nil {
			return stage + ": " + err.Error()
		}
		stage = fmt.Sprintf("view %d PredictCSR", vi)
		last := cols - 1
		if err := v.PredictCSR([]int{0, 1, 2, 2}, []int{0, last}, []float64{vals[0], vals[1%len(vals)]}, out, n, r.Intn(4)); err != nil {
			return stage + ": " + err.Error()
		}
	}
	return ""
}

func pickf(r *rand.Rand, a ...float64) float64 { return a[r.Intn(len(a))] }

// probe loads one damaged file and uses what comes out. res: err, ok, or something bad.
func probe(format string, xf bool, data []byte, r *rand.Rand) (res, why string) {
	var e *leaves.Ensemble
	var err error
	before := allocated()
	func() {
		defer func() {
			if p := recover(); p != nil {
				res, why = "panic", fmt.Sprint(p)
			}
		}()
		e, err = loader(format, xf)(bytes.NewReader(data))
	}()
	grown := allocated() - before
	switch {
	case res != "":
	case grown > allocCap+200*uint64(len(data)):
		res, why = "memory", fmt.Sprint(grown>>20, " MB allocated for a file of ", len(data), " bytes")
	case err != nil && e != nil:
		res, why = "both", err.Error()
	case err != nil:
		res, why = "err", err.Error()
	case e == nil:
		res = "none"
	default:
		res = "ok"
		if b := useModel(e, r); b != "" {
			res, why = "use", b
		}
	}
	return
}

// ------------------------------------------------------------------ references

type refCase struct {
	Fmt string `json:"fmt"`
	L   []int  `json:"l"`
	R   []int  `json:"r"`
}

// refsFile writes a model with one tree of the given references.
func refsFile(k refCase, r *rand.Rand) []byte {
	n := len(k.L)
	m := &Model{NF: 2, K: 1, Base: []int{0}, W: []int{}, LR: 4, Sc: 8, LW: [][]int{}, LB: []int{}}
	t := Tree{N: make([]Node, n), V: []int{}}
	for i := range t.N {
		t.N[i] = Node{F: i % 2, K: "n", T: mk(4*(i%3)-4, 0), L: k.L[i], R: k.R[i], V: 8 * i, DL: i%2 == 0}
	}
	switch k.Fmt {
	case "lgtext":
		m.Kind = "lg"
		for i := 0; i <= n; i++ {
			t.V = append(t.V, 8*i)
		}
		m.Trees = []Tree{t}
		return lgText(m, plainLayout(), r)
	case "xgbin":
		m.Kind = "xg"
		m.Trees = []Tree{t}
		return xgBin(m, xgHead(m, "binary:logistic"), r)
	default:
		m.Kind = "sk"
		m.Trees = []Tree{t}
		return skPickle(m, skHead(m, r), plainStyle(), r)
	}
}

func (c *Ctx) refs(k refCase) {
	ev := jm{"ev": "refs", "fmt": k.Fmt, "l": k.L, "r": k.R}
	data := refsFile(k, c.r)
	c.op(ev, func() {
		res, why := probe(k.Fmt, false, data, c.r)
		ev["res"] = res
		if why != "" {
			ev["why"] = why
		}
	})
}

// damageGen: the trees and defects of the generator.
func (c *Ctx) damageGen(from, to int) {
	for _, g := range genCases[from:to] {
		var k struct {
			refCase
			Defect []string `json:"defect"`
		}
		must(json.Unmarshal(g, &k))
		if k.Defect != nil {
			for i := 0; i < 3; i++ {
				c.defect(k.Fmt, k.Defect)
			}
		} else {
			c.refs(k.refCase)
		}
	}
}

// randRefs: greater trees, sound ones and ones with a few references changed.
func (c *Ctx) randRefs() {
	r := c.r
	for i := 0; i < 120; i++ {
		k := refCase{Fmt: []string{"lgtext", "xgbin", "skpkl"}[i%3]}
		kind := map[string]string{"lgtext": "lg", "xgbin": "xg", "skpkl": "sk"}[k.Fmt]
		var t Tree
		for len(t.N) < 2 {
			m := RandModel(r, ModelOpts{Kind: kind, K: 1, Iter: 1, MaxLeaves: pick(r, 3, 5, 8)})
			t = m.Trees[0]
		}
		n := len(t.N)
		for _, nd := range t.N {
			k.L = append(k.L, nd.L)
			k.R = append(k.R, nd.R)
		}
		for j := pick(r, 0, 1, 1, 1, 2, 2, 3); j > 0; j-- {
			v := r.Intn(n)
			if r.Intn(3) == 0 {
				v = pick(r, -1, -2, n, n-1, -n-1, -n-2, 2147483647, -2147483648, 0, n+1)
			} else if k.Fmt == "lgtext" && r.Intn(2) == 0 {
				v = -1 - r.Intn(n+1)
			}
			if r.Intn(2) == 0 {
				k.L[r.Intn(n)] = v
			} else {
				k.R[r.Intn(n)] = v
			}
		}
		if r.Intn(6) == 0 { // swap two
			a, b := r.Intn(n), r.Intn(n)
			k.L[a], k.R[b] = k.R[b], k.L[a]
		}
		c.refs(k)
	}
}

// --------------------------------------------------------------------- defects

// damModel: one tree with numeric and categorical nodes, the latter with sets of
// one number, one word and more words.
func damModel(kind string) *Model {
	m := &Model{Kind: kind, NF: 3, K: 1, Base: []int{0}, W: []int{}, LR: 4, Sc: 8, LW: [][]int{}, LB: []int{}}
	switch kind {
	case "lg":
		m.Trees = []Tree{{N: []Node{
			{F: 0, K: "n", T: 8, L: 1, R: 2}, {F: 1, K: "c", Set: []int{3, 70}, L: -1, R: 3},
			{F: 2, K: "c", Set: []int{1, 5}, L: -2, R: -3}, {F: 2, K: "c", Set: []int{9}, L: -4, R: 4},
			{F: 1, K: "c", Set: []int{2, 100}, L: -5, R: -6}}, V: []int{8, 16, 24, 32, 40, 48}},
			{N: []Node{{F: 1, K: "n", T: 0, L: -1, R: -2}}, V: []int{1, 2}}}
	case "lin":
		m.LW, m.LB = [][]int{{1}, {2}, {3}}, []int{4}
	default:
		t := func() Tree {
			return Tree{N: []Node{{F: 1, K: "n", T: 8, L: 1, R: 2}, {F: 0, K: "n", T: 16, L: 3, R: 4},
				{K: "n", L: -1, R: -1, V: 8}, {K: "n", L: -1, R: -1, V: 16}, {K: "n", L: -1, R: -1, V: 24}}, V: []int{}}
		}
		m.Trees = []Tree{t(), t()}
		if kind == "dart" {
			m.W = []int{4, 2}
		}
	}
	return m
}

// beyond: a feature that a model of three does not have.
func beyond(r *rand.Rand, how string, bits int) int {
	switch how {
	case "nf":
		return 3
	case "next":
		return 4
	case "neg":
		switch bits {
		case 64:
			return pick(r, -1, -2, -3, -1<<62)
		case 32:
			return pick(r, -1, -2, 1<<31, 1<<32-1)
		}
		return 1<<31 - 1
	}
	if bits == 64 {
		return pick(r, 1000, 1<<31, 1<<32, 1<<32+1, 1<<40)
	}
	if bits == 32 {
		return pick(r, 1000, 1<<16, 1<<31-1, 1<<32, 1<<32+1, 1<<40)
	}
	return pick(r, 1000, 1<<16, 1<<24+1, 1<<30, 1<<31-2)
}

// setField changes "key=values" of a section.
func setField(s *Section, key string, f func(v []string) []string) {
	for i, l := range s.Lines {
		if strings.HasPrefix(l, key+"=") {
			s.Lines[i] = key + "=" + strings.Join(f(strings.Split(l[len(key)+1:], " ")), " ")
			return
		}
	}
	panic("harness: no field " + key)
}

func resized(how string) func(v []string) []string {
	return func(v []string) []string {
		switch how {
		case "shorter":
			return v[:len(v)-1]
		case "longer":
			return append(v, "1")
		case "empty":
			return nil
		case "one":
			return v[:1]
		case "double":
			return append(append([]string{}, v...), v...)
		}
		panic("harness: " + how)
	}
}

// bigNumbers: absurd sizes.
var bigNumbers = map[string]string{"neg": "-1", "zero": "0", "p31": "2147483648", "p31m1": "2147483647", "p32": "4294967296", "p40": "1099511627776",
	"p62": "4611686018427387904", "p63m1": "9223372036854775807", "p63": "9223372036854775808", "min": "-9223372036854775808", "vast": "99999999999999999999999"}

func bigU64(how string) uint64 {
	return map[string]uint64{"p31": 1 << 31, "p31m1": 1<<31 - 1, "p32": 1 << 32, "p40": 1 << 40, "p62": 1 << 62, "p62p1": 1<<62 + 1,
		"p63m1": 1<<63 - 1, "p63": 1 << 63, "p64m1": 1<<64 - 1, "p30": 1 << 30}[how]
}

func bigI32(how string, base int) int32 {
	switch how {
	case "neg":
		return -1
	case "zero":
		return 0
	case "p31m1":
		return 1<<31 - 1
	case "min":
		return -1 << 31
	case "p30":
		return 1 << 30
	case "p20":
		return 1 << 20
	case "longer":
		return int32(base + 1)
	case "shorter":
		return int32(base - 1)
	}
	panic("harness: " + how)
}

// constModel: trees of one leaf each.
func constModel(kind string) *Model {
	m := damModel(kind)
	for i := range m.Trees {
		if kind == "lg" {
			m.Trees[i] = Tree{N: []Node{}, V: []int{8 * i}}
		} else {
			m.Trees[i] = Tree{N: []Node{{K: "n", L: -1, R: -1, V: 8 * i}}, V: []int{}}
		}
	}
	return m
}

func (c *Ctx) defect(format string, d []string) {
	r := c.r
	var data []byte
	field, how, name := d[0], d[1], format
	switch format {
	case "lgtext":
		lay := plainLayout()
		lay.Shuffle = r.Intn(2) == 0
		m := damModel("lg")
		if field == "constant" {
			m = constModel("lg")
			field = "max_feature_idx"
		}
		secs := lgSections(m, lay, r)
		s := &secs[1]
		one := func(i int, v string) func([]string) []string {
			return func(x []string) []string {
				x = append([]string{}, x...)
				x[i] = v
				return x
			}
		}
		switch field {
		case "left_child", "right_child", "decision_type", "split_feature", "threshold", "leaf_value":
			switch how {
			case "nf", "next", "neg", "much":
				setField(s, field, one(r.Intn(5), itoa(beyond(r, how, 32))))
			case "cat", "catn", "catnan": // number of a category set
				x := "4"
				if how == "catn" {
					x = pickS(r, "5", "100", "1e300", "-1", "inf", "-inf", "4294967296", "4294967297")
				} else if how == "catnan" {
					x = "nan"
				}
				setField(s, field, one(pick(r, 1, 2, 3, 4), x))
			default:
				setField(s, field, resized(how))
			}
		case "num_leaves":
			setField(s, field, func(v []string) []string {
				switch how {
				case "shorter":
					return []string{"5"}
				case "longer":
					return []string{"7"}
				}
				return []string{bigNumbers[how]}
			})
		case "cat_boundaries":
			setField(s, field, func(v []string) []string {
				v = append([]string{}, v...)
				switch how {
				case "shorter":
					return v[:len(v)-1]
				case "empty":
					return nil
				case "one":
					return v[:1]
				case "order": // not ascending
					v[1], v[2] = "5", "1"
				case "long": // beyond cat_threshold
					v[len(v)-1] = pickS(r, "100", "4294967295", "2147483648")
				case "wrap":
					v[0], v[1] = "4294967295", "4294967295"
				}
				return v
			})
		case "cat_threshold":
			setField(s, field, resized(how))
		case "max_feature_idx":
			setField(&secs[0], field, func([]string) []string {
				if how == "less" {
					return []string{pickS(r, "1", "0", "-1")}
				}
				if how == "neg" {
					return []string{pickS(r, "-2", "-3", "-100")}
				}
				return []string{bigNumbers[how]}
			})
		case "num_class":
			for _, f := range []string{"num_class", "num_tree_per_iteration"} {
				setField(&secs[0], f, func([]string) []string { return []string{bigNumbers[how]} })
			}
		}
		lines, _ := lgLines(secs, lay, r)
		data = joinLines(lines, lay)
	case "lgjson":
		m := damModel("lg")
		if field == "constant" {
			m = constModel("lg")
			field = "max_feature_idx"
		}
		o := lgJSONObj(m, r)
		trees := o["tree_info"].([]interface{})
		root := trees[0].(jm)["tree_structure"].(jm)
		num := func() json.Number { return json.Number(bigNumbers[how]) }
		switch field {
		case "num_leaves":
			switch how {
			case "shorter":
				trees[0].(jm)["num_leaves"] = 5
			case "longer":
				trees[0].(jm)["num_leaves"] = 7
			default:
				trees[0].(jm)["num_leaves"] = num()
			}
		case "split_feature":
			at := root
			for r.Intn(3) > 0 {
				if n, ok := at[pickS(r, "left_child", "right_child")].(jm); ok && n[field] != nil {
					at = n
				}
			}
			at[field] = json.Number(itoa(beyond(r, how, 32)))
		case "category":
			n := root["left_child"].(jm)
			n["threshold"] = pickS(r, "3||", "3||70||", "||", "")
			if how != "empty" {
				n["threshold"] = pickS(r, "3||"+bigNumbers[how], bigNumbers[how]+"||3", bigNumbers[how])
			}
		case "child":
			side := pickS(r, "left_child", "right_child")
			switch how {
			case "absent":
				delete(root, side)
			case "null":
				root[side] = nil
			case "empty":
				root[side] = jm{}
			case "number":
				root[side] = 1
			case "list":
				root[side] = []interface{}{root[side]}
			}
		case "tree_structure":
			delete(trees[0].(jm), field)
		case "max_feature_idx":
			if how == "less" {
				o[field] = json.Number(pickS(r, "1", "0", "-1"))
			} else if how == "neg" {
				o[field] = json.Number(pickS(r, "-2", "-3", "-100"))
			} else {
				o[field] = num()
			}
		case "num_class":
			o["num_class"], o["num_tree_per_iteration"] = num(), num()
		}
		var err error
		data, err = json.Marshal(o)
		must(err)
	case "xgbin", "linbin", "dart":
		kind := map[string]string{"xgbin": "xg", "linbin": "lin", "dart": "dart"}[format]
		m := damModel(kind)
		h := xgHead(m, "binary:logistic")
		base := xgBin(m, h, r)
		data = append([]byte{}, base...)
		i32 := func(off int, v int32) { binary.LittleEndian.PutUint32(data[off:], uint32(v)) }
		u64 := func(off int, v uint64) { binary.LittleEndian.PutUint64(data[off:], v) }
		// offsets: header 136, objective 8+len, name 8+len
		obj := 136
		gbm := obj + 8 + len(h.Obj)
		body := gbm + 8 + len(h.Gbm)
		tree := body + 160
		switch field {
		case "objective":
			u64(obj, bigU64(how))
		case "name":
			u64(gbm, bigU64(how))
		case "features":
			i32(4, bigI32(how, 3))
		case "all features": // as unsigned numbers beyond 2^31, and the same everywhere
			v := bigI32(how, 3)
			i32(4, v)
			i32(body+8, bigI32(pickS(r, how, "min"), 3))
			for at, i := tree, 0; i < len(m.Trees); i++ {
				i32(at+16, bigI32(pickS(r, how, "min"), 3))
				nodes := int(binary.LittleEndian.Uint32(data[at+4:]))
				at += 148 + nodes*36
			}
		case "num_trees":
			i32(body, bigI32(how, 2))
		case "groups":
			if format == "linbin" {
				i32(body+4, bigI32(how, 1))
			} else {
				i32(body+24, bigI32(how, 1))
			}
		case "num_nodes":
			i32(tree+4, bigI32(how, 5))
		case "feature":
			v := uint32(beyond(r, how, 31))
			binary.LittleEndian.PutUint32(data[tree+148+12:], v|uint32(r.Intn(2))<<31)
		case "leaf_vector": // says there is one, of absurd length
			i32(tree+20, 1)
			at := tree + 148 + 5*20 + 5*16
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], bigU64(how))
			data = append(append(append([]byte{}, data[:at]...), b[:]...), data[at:]...)
		case "weights": // dart and linear
			n := 2
			if format == "linbin" {
				n = 4
			}
			at := len(data) - 4*n - 8
			switch how {
			case "shorter":
				u64(at, uint64(n-1))
			case "longer":
				u64(at, uint64(n+1))
				data = append(data, 0, 0, 0, 0)
			case "cut": // longer than what is there
				u64(at, uint64(n+1))
			case "zero":
				u64(at, 0)
			default:
				u64(at, bigU64(how))
			}
		case "lin_features":
			i32(body, bigI32(how, 3))
		}
		if format == "dart" {
			format = "xgbin"
		}
	case "skpkl":
		m := damModel("sk")
		h := skHead(m, r)
		style := randStyle(r)
		style.LongInt = false
		setInt := func(v string) int {
			n, ok := map[string]int{"neg": -1, "zero": 0, "p31": 1 << 31, "p31m1": 1<<31 - 1, "p40": 1 << 40, "p62": 1 << 62, "p63m1": 1<<63 - 1, "min": -1 << 63}[v]
			if !ok {
				panic("harness: " + v)
			}
			return n
		}
		rel := func(base int) int {
			switch how {
			case "longer":
				return base + 1
			case "shorter":
				return base - 1
			}
			return setInt(how)
		}
		switch field {
		case "constant":
			m = constModel("sk")
			h.NF = setInt(how)
			if how == "neg" {
				h.NF = pick(r, -1, -2, -100)
			}
			data = skPickle(m, h, style, r)
		case "n_features_":
			switch how {
			case "less":
				h.NF = pick(r, 1, 0, -1)
			default:
				h.NF = rel(3)
			}
			data = skPickle(m, h, style, r)
		case "feature":
			m.Trees[r.Intn(2)].N[r.Intn(2)].F = beyond(r, how, 64)
			data = skPickle(m, h, style, r)
		case "n_estimators":
			h.NEst = rel(2)
			data = skPickle(m, h, style, r)
		case "n_estimators and shape":
			h.NEst = rel(2)
			h.Rows = h.NEst
			if how == "overflow" {
				panic("harness: overflow")
			}
			data = skPickle(m, h, style, r)
		case "overflow": // the number of trees wraps around to the length of the list
			h.NClasses, h.ClsLen, h.Cols, h.NPriors = 4, 4, 4, 4
			h.Init = "PriorProbabilityEstimator"
			h.NEst = 1 << 62
			if how == "some" {
				h.NEst = 1<<62 + 1
			}
			h.Rows = h.NEst
			h.Items = 4 * (h.NEst &^ (1 << 62))
			data = skPickle(m, h, style, r)
		case "classes":
			h.NClasses = rel(2)
			data = skPickle(m, h, style, r)
		case "items":
			h.Items = rel(2)
			data = skPickle(m, h, style, r)
		case "node_count", "nodes", "values":
			skTweak = field + " " + how
			data = skPickle(m, h, style, r)
			skTweak = ""
		}
	}
	ev := jm{"ev": "defect", "fmt": name, "what": d}
	c.op(ev, func() {
		res, why := probe(format, false, data, r)
		ev["res"] = res
		if why != "" {
			ev["why"] = why
		}
		if res != "err" {
			ev["data"] = base64.StdEncoding.EncodeToString(data)
		}
	})
}

func pickS(r *rand.Rand, a ...string) string { return a[r.Intn(len(a))] }

// ---------------------------------------------------------------------- sweeps

// tokens: places of numbers and words in a text.
func tokenSpans(b []byte, sep string) [][2]int {
	var out [][2]int
	in := -1
	for i := 0; i <= len(b); i++ {
		brk := i == len(b) || strings.IndexByte(sep, b[i]) >= 0
		if brk && in >= 0 {
			out = append(out, [2]int{in, i})
			in = -1
		} else if !brk && in < 0 {
			in = i
		}
	}
	return out
}

var oddTokens = []string{"", "0", "1", "2", "3", "-1", "-2", "-3", "5", "7", "31", "32", "33", "64", "100", "255", "256", "1000", "65536",
	"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
	"1e999", "-1e999", "nan", "NaN", "inf", "-inf", "1e-400", "0.5", "1.9999999", "-0", "0x10", "x", "=", "true", "null", "\"\"", "[]", "{}", "1||2", "||", "3||", "0||2000", "1_000"}

func cat(parts ...[]byte) []byte {
	n := 0
	for _, p := range parts {
		n += len(p)
	}
	out := make([]byte, 0, n)
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

// damageBytes: one change, whatever the format.
func damageBytes(b []byte, r *rand.Rand, other []byte) ([]byte, string) {
	if len(b) == 0 {
		return []byte{byte(r.Intn(256))}, "byte"
	}
	i := r.Intn(len(b))
	j := i + r.Intn(1+minInt(len(b)-i, pick(r, 1, 2, 4, 8, 40)))
	switch r.Intn(8) {
	case 0, 1:
		return cat(b[:i], []byte{b[i] ^ 1<<uint(r.Intn(8))}, b[i+1:]), "flip"
	case 2:
		return cat(b[:i], []byte{byte(pick(r, 0, 255, 127, 128, '-', '0', '9', '\n', ' ', '=', '\\', '.', r.Intn(256)))}, b[i+1:]), "byte"
	case 3:
		return cat(b[:i], b[j:]), "delete"
	case 4:
		return cat(b[:j], b[i:j], b[j:]), "repeat"
	case 5:
		n := make([]byte, 1+r.Intn(6))
		r.Read(n)
		return cat(b[:i], n, b[i:]), "insert"
	case 6:
		return b[:i], "cut"
	default:
		k := r.Intn(len(other))
		l := k + r.Intn(1+minInt(len(other)-k, 60))
		return cat(b[:i], other[k:l], b[j:]), "splice"
	}
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func damageText(b []byte, r *rand.Rand, sep string) ([]byte, string) {
	switch r.Intn(5) {
	case 0: // lines
		ls := bytes.Split(b, []byte("\n"))
		i, j := r.Intn(len(ls)), r.Intn(len(ls))
		switch r.Intn(3) {
		case 0:
			ls = append(ls[:i:i], ls[i+1:]...)
		case 1:
			ls = append(ls[:i:i], append([][]byte{ls[j]}, ls[i:]...)...)
		default:
			ls[i], ls[j] = ls[j], ls[i]
		}
		return bytes.Join(ls, []byte("\n")), "lines"
	}
	sp := tokenSpans(b, sep)
	if len(sp) == 0 {
		return b, "nothing"
	}
	s := sp[r.Intn(len(sp))]
	if r.Intn(3) == 0 {
		o := sp[r.Intn(len(sp))]
		return cat(b[:s[0]], b[o[0]:o[1]], b[s[1]:]), "token of elsewhere"
	}
	return cat(b[:s[0]], []byte(oddTokens[r.Intn(len(oddTokens))]), b[s[1]:]), "token"
}

func damageWords(b []byte, r *rand.Rand) ([]byte, string) {
	out := append([]byte{}, b...)
	if len(b) < 16 {
		return out, "nothing"
	}
	i := r.Intn(len(b) - 8)
	if r.Intn(4) > 0 { // fields lie at multiples of four from some string's end
		i = i &^ 3
		i += r.Intn(4)
		if i+8 > len(b) {
			i = len(b) - 8
		}
	}
	v := uint64(pick(r, 0, 1, 2, 3, 4, 5, 7, -1, -2, 1<<31-1, 1<<31, -1<<31, 1<<20, 1<<30, r.Intn(1<<31)))
	if r.Intn(3) == 0 {
		binary.LittleEndian.PutUint64(out[i:], v<<uint(pick(r, 0, 0, 31, 32, 60)))
		return out, "long"
	}
	binary.LittleEndian.PutUint32(out[i:], uint32(v))
	return out, "word"
}

// jsonPaths collects every place of a value.
type place struct {
	get func() interface{}
	set func(v interface{})
	del func()
}

func jsonPlaces(v interface{}, out *[]place) {
	switch x := v.(type) {
	case map[string]interface{}:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			k := k
			*out = append(*out, place{func() interface{} { return x[k] }, func(v interface{}) { x[k] = v }, func() { delete(x, k) }})
			jsonPlaces(x[k], out)
		}
	case []interface{}:
		for i := range x {
			i := i
			*out = append(*out, place{func() interface{} { return x[i] }, func(v interface{}) { x[i] = v }, func() { x[i] = nil }})
			jsonPlaces(x[i], out)
		}
	}
}

func damageJSON(b []byte, r *rand.Rand) ([]byte, string) {
	var v interface{}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if d.Decode(&v) != nil {
		return b, "nothing"
	}
	var ps []place
	jsonPlaces(v, &ps)
	if len(ps) == 0 {
		return b, "nothing"
	}
	p := ps[r.Intn(len(ps))]
	what := "value"
	switch r.Intn(4) {
	case 0:
		p.del()
		what = "key"
	case 1:
		q := ps[r.Intn(len(ps))].get()
		c, err := json.Marshal(q) // a copy: no cycles
		must(err)
		var w interface{}
		d := json.NewDecoder(bytes.NewReader(c))
		d.UseNumber()
		must(d.Decode(&w))
		p.set(w)
		what = "value of elsewhere"
	default:
		p.set([]interface{}{nil, true, "", "x", json.Number("-1"), json.Number("0"), json.Number("1"), json.Number("2"), json.Number("7"), json.Number("1e99"),
			json.Number("2147483647"), json.Number("4294967295"), json.Number("4294967296"), json.Number("9223372036854775808"), json.Number("0.5"),
			[]interface{}{}, jm{}, "1||2", "||", "-1||5", "4294967296||0", "2||70||3", "12", "<=", "==", "NaN", "Zero", "None"}[r.Intn(28)])
	}
	out, err := json.Marshal(v)
	must(err)
	return out, what
}

func damageOne(format string, b []byte, r *rand.Rand, other []byte) ([]byte, string) {
	switch format {
	case "lgtext":
		if r.Intn(4) > 0 {
			return damageText(b, r, " =\n\r:")
		}
	case "lgjson":
		switch r.Intn(6) {
		case 0, 1, 2:
			return damageJSON(b, r)
		case 3, 4:
			return damageText(b, r, " \n\",:{}[]|")
		}
	case "xgbin", "linbin":
		if r.Intn(4) > 0 {
			return damageWords(b, r)
		}
	case "skpkl":
		switch r.Intn(6) {
		case 0, 1:
			return damageText(b, r, "\n")
		case 2:
			return damageText(b, r, "\nIpgVLFc(tldas.RNb")
		case 3: // one operation for another
			i := r.Intn(len(b) + 1)
			if i < len(b) {
				ops := "(.RbctldasNpgIFVL0eu"
				return cat(b[:i], []byte{ops[r.Intn(len(ops))]}, b[i+1:]), "op"
			}
		}
	}
	return damageBytes(b, r, other)
}

// damageSweep: a model of the format, damaged many times over.
func (c *Ctx) damageSweep(format string, n int) {
	r := c.r
	kind := map[string]string{"lgtext": "lg", "lgjson": "lg", "xgbin": pickS(r, "xg", "dart"), "linbin": "lin", "skpkl": "sk"}[format]
	mk := func() []byte {
		o := ModelOpts{Kind: kind, MaxIter: 2, MaxK: 3, MaxLeaves: 5, CatProb: 0.5, MaxNF: 3}
		if r.Intn(3) == 0 {
			o.K = 1
		}
		if kind == "lg" && format == "lgtext" {
			o.Avg = r.Intn(4) == 0
		}
		m := RandModel(r, o)
		switch format {
		case "lgtext":
			l := randLayout(r)
			if r.Intn(2) == 0 {
				l = plainLayout()
				l.Objective = pickS(r, "regression", "binary sigmoid:1", fmt.Sprintf("multiclass num_class:%d", m.K))
			}
			return lgText(m, l, r)
		case "lgjson":
			return lgJSON(m, r)
		case "skpkl":
			return skPickle(m, skHead(m, r), randStyle(r), r)
		}
		return xgBin(m, xgHead(m, "binary:logistic"), r)
	}
	base, other := mk(), mk()
	xf := format != "lgjson" && r.Intn(3) == 0
	ev := jm{"ev": "sweep", "fmt": format, "n": 0, "loaded": 0, "bad": []interface{}{}}
	c.op(ev, func() {
		loaded, bad := 0, []interface{}{}
		how := map[string]int{}
		for i := 0; i < n; i++ {
			data, what := damageOne(format, base, r, other)
			for k := pick(r, 0, 0, 0, 1, 2); k > 0; k-- {
				var w string
				data, w = damageOne(format, data, r, other)
				what += "+" + w
			}
			c.current(ev, data)
			res, why := probe(format, xf, data, r)
			switch res {
			case "err":
			case "ok":
				loaded++
				how[what]++
			default:
				if len(bad) < 3 {
					bad = append(bad, jm{"res": res, "why": why, "how": what, "data": base64.StdEncoding.EncodeToString(data)})
				}
			}
		}
		delete(ev, "cur")
		ev["n"], ev["loaded"], ev["bad"], ev["res"], ev["xf"] = n, loaded, bad, "ok", xf
	})
}

// current notes the file under test, in case the process dies of it, and gives it its own time.
func (c *Ctx) current(ev jm, data []byte) {
	ev["cur"] = base64.StdEncoding.EncodeToString(data)
	b, err := json.Marshal(ev)
	must(err)
	must(c.journal.Truncate(0))
	_, err = c.journal.WriteAt(append([]byte("P"), b...), 0)
	must(err)
	atomic.StoreInt64(&opDeadline, time.Now().Add(opSeconds*time.Second).UnixNano())
}

// replayDamaged loads one file: for looking into a report.
func replayDamaged(format string, xf bool, name string) {
	b, err := os.ReadFile(name)
	must(err)
	if d, err := base64.StdEncoding.DecodeString(strings.TrimSpace(string(b))); err == nil {
		b = d
	}
	fmt.Println(probe(format, xf, b, rand.New(rand.NewSource(1))))
}
