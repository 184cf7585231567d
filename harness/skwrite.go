package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"strconv"
)

// A little pickler (protocol 0). Containers and objects are pointers, so that
// sharing is by identity, as in Python.
type (
	pUni    struct{ s string }
	pTuple  struct{ v []interface{} }
	pList   struct{ v []interface{} }
	pDict   struct{ kv []interface{} }
	pGlobal struct{ mod, name string }
	pReduce struct {
		fn    *pGlobal
		args  *pTuple
		state interface{} // nil: no BUILD
	}
	pBool bool
)

// PickleStyle are the pickler's freedoms.
type PickleStyle struct {
	Memo    int  // 0 as Python (PUT everything, GET repeats), 1 PUT only what is shared, 2 no memo
	BulkLst bool // lists in one go (MARK items LIST) instead of APPENDs
	BulkDct bool
	Keys    int // memo keys: 0 sequence, 1 odd numbers from 7, 2 reused for things never fetched again
	LongInt bool
	PutLate bool // PUT objects after BUILD instead of before
	Self    bool // objects that know themselves
}

type pickler struct {
	b    bytes.Buffer
	st   PickleStyle
	r    *rand.Rand
	memo map[interface{}]string
	cnt  map[interface{}]int
	next int
	uni  map[string]*pUni
	glob map[[2]string]*pGlobal
}

func newPickler(st PickleStyle, r *rand.Rand) *pickler {
	return &pickler{st: st, r: r, memo: map[interface{}]string{}, cnt: map[interface{}]int{},
		uni: map[string]*pUni{}, glob: map[[2]string]*pGlobal{}}
}

func (p *pickler) u(s string) *pUni {
	if x, ok := p.uni[s]; ok {
		return x
	}
	x := &pUni{s}
	p.uni[s] = x
	return x
}

func (p *pickler) g(mod, name string) *pGlobal {
	k := [2]string{mod, name}
	if x, ok := p.glob[k]; ok {
		return x
	}
	x := &pGlobal{mod, name}
	p.glob[k] = x
	return x
}

func tup(v ...interface{}) *pTuple { return &pTuple{v} }

func (p *pickler) count(o interface{}) {
	switch x := o.(type) {
	case *pUni, *pGlobal:
		p.cnt[o]++
	case *pTuple:
		p.cnt[o]++
		if p.cnt[o] == 1 {
			for _, e := range x.v {
				p.count(e)
			}
		}
	case *pList:
		p.cnt[o]++
		if p.cnt[o] == 1 {
			for _, e := range x.v {
				p.count(e)
			}
		}
	case *pDict:
		p.cnt[o]++
		if p.cnt[o] == 1 {
			for _, e := range x.kv {
				p.count(e)
			}
		}
	case *pReduce:
		p.cnt[o]++
		if p.cnt[o] == 1 {
			p.count(x.fn)
			p.count(x.args)
			if x.state != nil {
				p.count(x.state)
			}
		}
	}
}

func (p *pickler) put(o interface{}) {
	if p.st.Memo == 2 || (p.st.Memo == 1 && p.cnt[o] < 2) {
		return
	}
	if t, ok := o.(*pTuple); ok && len(t.v) == 0 {
		return
	}
	p.next++
	k := strconv.Itoa(p.next)
	if p.st.Keys == 1 {
		k = strconv.Itoa(2*p.next + 5)
	}
	if p.st.Keys == 2 && p.cnt[o] < 2 {
		k = "0"
	}
	p.memo[o] = k
	fmt.Fprintf(&p.b, "p%s\n", k)
}

func (p *pickler) save(o interface{}) {
	if p.cnt[o] > 1 {
		if k, ok := p.memo[o]; ok {
			fmt.Fprintf(&p.b, "g%s\n", k)
			return
		}
	}
	switch x := o.(type) {
	case nil:
		p.b.WriteByte('N')
	case int:
		if p.st.LongInt && p.r.Intn(2) == 0 {
			fmt.Fprintf(&p.b, "L%dL\n", x)
		} else {
			fmt.Fprintf(&p.b, "I%d\n", x)
		}
	case pBool:
		if x {
			p.b.WriteString("I01\n")
		} else {
			p.b.WriteString("I00\n")
		}
	case float64:
		fmt.Fprintf(&p.b, "F%s\n", strconv.FormatFloat(x, 'g', 17, 64))
	case *pUni:
		p.b.WriteByte('V')
		p.b.WriteString(rawUnicodeEscape(x.s, p.r))
		p.b.WriteByte('\n')
		p.put(o)
	case *pGlobal:
		fmt.Fprintf(&p.b, "c%s\n%s\n", x.mod, x.name)
		p.put(o)
	case *pTuple:
		p.b.WriteByte('(')
		for _, e := range x.v {
			p.save(e)
		}
		p.b.WriteByte('t')
		p.put(o)
	case *pList:
		p.b.WriteByte('(')
		if p.st.BulkLst {
			for _, e := range x.v {
				p.save(e)
			}
			p.b.WriteByte('l')
			p.put(o)
			return
		}
		p.b.WriteByte('l')
		p.put(o)
		for _, e := range x.v {
			p.save(e)
			p.b.WriteByte('a')
		}
	case *pDict:
		p.b.WriteByte('(')
		if p.st.BulkDct {
			for _, e := range x.kv {
				p.save(e)
			}
			p.b.WriteByte('d')
			p.put(o)
			return
		}
		p.b.WriteByte('d')
		p.put(o)
		for i := 0; i < len(x.kv); i += 2 {
			p.save(x.kv[i])
			p.save(x.kv[i+1])
			p.b.WriteByte('s')
		}
	case *pReduce:
		p.save(x.fn)
		p.save(x.args)
		p.b.WriteByte('R')
		if !p.st.PutLate {
			p.put(o)
		}
		if x.state != nil {
			p.save(x.state)
			p.b.WriteByte('b')
		}
		if p.st.PutLate {
			p.put(o)
		}
	default:
		panic(fmt.Sprintf("pickle of %T", o))
	}
}

// rawUnicodeEscape writes a string of latin-1 characters as Python's pickle does.
// Older Pythons escape only backslash and newline.
func rawUnicodeEscape(s string, r *rand.Rand) string {
	var b bytes.Buffer
	modern := r.Intn(2) == 0
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '\\' || c == '\n' || (modern && (c == 0 || c == '\r' || c == 0x1a)) {
			fmt.Fprintf(&b, "\\u%04x", c)
		} else {
			b.WriteByte(c)
		}
	}
	return b.String()
}

func le64(vs ...int) string {
	var b bytes.Buffer
	for _, v := range vs {
		must(binary.Write(&b, binary.LittleEndian, int64(v)))
	}
	return b.String()
}

func f64s(big bool, vs ...float64) string {
	var b bytes.Buffer
	for _, v := range vs {
		if big {
			must(binary.Write(&b, binary.BigEndian, v))
		} else {
			must(binary.Write(&b, binary.LittleEndian, v))
		}
	}
	return b.String()
}

// SKHead are the header fields a test may vary.
type SKHead struct {
	NClasses, NEst, Rows, Cols, Items, NPriors int
	Init                                       string
	Cls                                        string
	ClsLen                                     int
	NF                                         int
	MaxF                                       int
}

func skHead(m *Model, r *rand.Rand) SKHead {
	h := SKHead{NClasses: m.K, NEst: m.NE(), Rows: m.NE(), Cols: m.K, Items: len(m.Trees), NPriors: m.K,
		Init: "PriorProbabilityEstimator", Cls: "GradientBoostingClassifier", NF: m.NF, MaxF: m.NF}
	if m.K == 1 {
		h.NClasses = 2
		h.Init = "LogOddsEstimator"
		if r.Intn(3) == 0 {
			h.Init = "PriorProbabilityEstimator"
		}
	}
	h.ClsLen = h.NClasses
	if m.NF > 1 && r.Intn(2) == 0 {
		h.MaxF = 1 + r.Intn(m.NF)
	}
	return h
}

// skTweak damages the arrays of every tree: "array how".
var skTweak string

func tweaked(field string, n int) int {
	switch skTweak {
	case field + " longer":
		return n + 1
	case field + " shorter":
		return n - 1
	case field + " zero":
		return 0
	case field + " neg":
		return -1
	case field + " p31m1":
		return 1<<31 - 1
	case field + " p62":
		return 1 << 62
	case field + " p40":
		return 1 << 40
	}
	return n
}

// tweakBytes resizes the contents of an array of elements of the size.
func tweakBytes(field string, s string, size int) string {
	switch skTweak {
	case field + " longer":
		return s + s[:size]
	case field + " shorter":
		return s[:len(s)-size]
	case field + " zero":
		return ""
	case field + " ragged":
		return s[:len(s)-3]
	}
	return s
}

// skPickle writes the model as a pickled GradientBoostingClassifier.
func skPickle(m *Model, h SKHead, st PickleStyle, r *rand.Rand) []byte {
	p := newPickler(st, r)
	share := map[string]*pReduce{}
	dtype := func(t, e string) *pReduce {
		if d, ok := share[t+e]; ok && r.Intn(4) > 0 {
			return d
		}
		d := &pReduce{p.g("numpy", "dtype"), tup(p.u(t), 0, 1), tup(3, p.u(e), nil, nil, nil, -1, -1, 0)}
		share[t+e] = d
		return d
	}
	v56 := func() *pReduce {
		if d, ok := share["V56"]; ok && r.Intn(4) > 0 {
			return d
		}
		d := &pReduce{p.g("numpy", "dtype"), tup(p.u("V56"), 0, 1),
			tup(3, p.u("|"), nil, tup(p.u("left_child"), p.u("threshold")),
				&pDict{[]interface{}{p.u("left_child"), tup(dtype("i8", "<"), 0), p.u("threshold"), tup(dtype("f8", "<"), 24)}}, 56, 1, 16)}
		share["V56"] = d
		return d
	}
	raw := func(s string) *pReduce {
		if d, ok := share["raw"+s]; ok && r.Intn(2) > 0 {
			return d
		}
		d := &pReduce{p.g("_codecs", "encode"), tup(p.u(s), p.u("latin1")), nil}
		share["raw"+s] = d
		return d
	}
	arr := func(shape *pTuple, d *pReduce, data interface{}) *pReduce {
		return &pReduce{p.g("numpy.core.multiarray", "_reconstruct"),
			tup(p.g("numpy", "ndarray"), tup(0), p.u("b")), tup(1, shape, d, pBool(false), data)}
	}
	scalar := func(d *pReduce, s string) *pReduce {
		return &pReduce{p.g("numpy.core.multiarray", "scalar"), tup(d, raw(s)), nil}
	}
	recon := func(mod, name string, state interface{}) *pReduce {
		return &pReduce{p.g("copy_reg", "_reconstructor"), tup(p.g(mod, name), p.g("__builtin__", "object"), nil), state}
	}
	dict := func(kv ...interface{}) *pDict {
		d := &pDict{}
		ord := r.Perm(len(kv) / 2)
		for _, i := range ord {
			d.kv = append(d.kv, p.u(kv[2*i].(string)), kv[2*i+1])
		}
		if skEdit != nil {
			skEdit(p, d)
		}
		return d
	}
	end := func() (string, bool) {
		if r.Intn(5) == 0 {
			return ">", true
		}
		return "<", false
	}
	same := map[*Node]*pReduce{}
	tree := func(t *Tree) *pReduce {
		if x, ok := same[&t.N[0]]; ok { // the very same tree again
			return x
		}
		var nodes bytes.Buffer
		vals := []float64{}
		for _, n := range t.N {
			thr, f := decode(n.T, true), n.F
			if _, e := split(n.T); e < 3 && r.Intn(2) == 0 { // thresholds are float64: between two float32 values
				thr = (thr + decode(n.T+1, true)) / 2
			}
			if n.L < 0 {
				thr, f = -2, -2
			}
			nodes.WriteString(le64(n.L, n.R, f))
			nodes.WriteString(f64s(false, thr, pickFloat(r, 0, 0.25, 1e-9, r.Float64()))) // impurity, samples, their weight
			nodes.WriteString(le64(pick(r, 0, 1, 5, r.Intn(100000))))
			nodes.WriteString(f64s(false, pickFloat(r, 0, 5, 0.5, r.Float64())))
			v := eighths(n.V)
			if n.L >= 0 {
				v = pickFloat(r, 99.5, 0, -3, 1e300)
			}
			vals = append(vals, v)
		}
		e, big := end()
		to := &pReduce{p.g("sklearn.tree._tree", "Tree"), tup(m.NF, arr(tup(1), dtype("i8", "<"), raw(le64(1))), 1),
			dict("max_depth", r.Intn(5), "node_count", tweaked("node_count", len(t.N)),
				"nodes", arr(tup(len(t.N)), v56(), raw(tweakBytes("nodes", nodes.String(), 56))),
				"values", arr(tup(len(t.N), 1, 1), dtype("f8", e), raw(tweakBytes("values", f64s(big, vals...), 8))))}
		x := recon("sklearn.tree.tree", "DecisionTreeRegressor", dict(
			"criterion", p.u("friedman_mse"), "n_classes_", scalar(dtype("i8", "<"), le64(1)),
			"max_features_", h.MaxF, "n_features_", h.NF, "n_outputs_", 1, "tree_", to))
		same[&t.N[0]] = x
		return x
	}
	ests := &pList{}
	for i := 0; i < h.Items; i++ {
		ests.v = append(ests.v, tree(&m.Trees[i%len(m.Trees)]))
	}
	pri := make([]float64, h.NPriors)
	for k := range pri {
		pri[k] = eighths(m.Base[k%len(m.Base)])
	}
	e, big := end()
	var init *pReduce
	if h.Init == "LogOddsEstimator" {
		init = recon("sklearn.ensemble.gradient_boosting", h.Init, dict("prior", scalar(dtype("f8", e), f64s(big, pri...))))
	} else {
		init = recon("sklearn.ensemble.gradient_boosting", h.Init, dict("priors", arr(tup(h.NPriors), dtype("f8", e), raw(f64s(big, pri...)))))
	}
	cls := make([]int, h.ClsLen)
	for i := range cls {
		cls[i] = i
	}
	var lr interface{} = float64(m.LR) / 4
	if m.LR%4 == 0 && r.Intn(2) == 0 { // as the user has spelled it
		lr = int(m.LR / 4)
	}
	top := recon("sklearn.ensemble.gradient_boosting", h.Cls, dict(
		"n_classes_", h.NClasses, "learning_rate", lr, "loss", p.u("deviance"), "init_", init,
		"classes_", arr(tup(h.ClsLen), dtype("i8", "<"), raw(le64(cls...))), "max_features_", h.MaxF, "n_features_", h.NF,
		"n_estimators", h.NEst, "estimators_", arr(tup(h.Rows, h.Cols), dtype("O8", "|"), ests),
		"verbose", 0, "random_state", nil, "subsample", pickFloat(r, math.Pi, 0.5, 1), "max_depth", r.Intn(4)))
	if st.Self && st.Memo != 2 && !st.PutLate && !st.BulkDct {
		d := top.state.(*pDict)
		d.kv = append(d.kv, p.u("myself"), top, p.u("my_dict"), d, p.u("again"), d.kv[1], p.u("my_list"), ests)
	}
	p.count(top)
	p.save(top)
	p.b.WriteByte('.')
	return p.b.Bytes()
}

func plainStyle() PickleStyle { return PickleStyle{} }

func randStyle(r *rand.Rand) PickleStyle {
	return PickleStyle{Memo: r.Intn(3), BulkLst: r.Intn(3) == 0, BulkDct: r.Intn(3) == 0, Keys: r.Intn(3),
		LongInt: r.Intn(3) == 0, PutLate: r.Intn(4) == 0}
}
