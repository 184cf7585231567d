package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strconv"
	"strings"

	leaves "github.com/dmitryikh/leaves"
)

// C22: files whose trees deviate from what the format defines, as spec/Bodies
// enumerates them.

type bodyCase struct {
	Fmt string      `json:"fmt"`
	Ds  [][3]string `json:"ds"`
}

var numWords = []string{"x", "abc", "--1", "one", "1,5", "0x", "e5", "+-1", "1e+", ".", "=", "null", "true", "1..5"}

// spelled changes one number of a field's list.
func spelled(how, tok string, f string, r *rand.Rand) string {
	plus := func(bits uint) string {
		v, ok := new(big.Int).SetString(tok, 10)
		if !ok {
			v = big.NewInt(1)
		}
		d := new(big.Int).Lsh(big.NewInt(1), bits)
		if v.Sign() < 0 {
			d.Neg(d)
		}
		return v.Add(v, d).String()
	}
	switch how {
	case "word":
		return numWords[r.Intn(len(numWords))]
	case "blank":
		return ""
	case "tail":
		return tok + pickS(r, "x", "_", ";", "..", "?", "u", "L")
	case "two":
		return tok + " " + tok
	case "frac":
		return tok + ".5"
	case "exp":
		return tok + "e1"
	case "over":
		if f == "num_leaves" || f == "num_cat" {
			return plus(64)
		}
		return plus(32)
	case "neg":
		return pickS(r, "-1", "-2", "-"+tok)
	case "m3":
		d, err := strconv.Atoi(tok)
		must(err)
		return itoa(d | 12)
	}
	panic("harness: " + how)
}

func treeKind(t *Tree) string {
	if len(t.N) == 0 {
		return "constant"
	}
	for _, n := range t.N {
		if n.K == "c" {
			return "mixed"
		}
	}
	return "numeric"
}

// bodyModel: trees of every kind; where gives one tree of each.
func bodyModel(r *rand.Rand) (m *Model, where map[string]int) {
	m = RandModel(r, ModelOpts{Kind: "lg", NF: 3, K: 1, Iter: 1 + r.Intn(4), MaxLeaves: 6, CatProb: 0.4})
	fixed := damModel("lg").Trees
	fixed = append(fixed, constModel("lg").Trees[0])
	for _, t := range fixed {
		has := false
		for i := range m.Trees {
			has = has || treeKind(&m.Trees[i]) == treeKind(&t)
		}
		if !has || r.Intn(3) == 0 {
			i := r.Intn(len(m.Trees) + 1)
			m.Trees = append(m.Trees[:i:i], append([]Tree{t}, m.Trees[i:]...)...)
		}
	}
	where = map[string]int{}
	for _, i := range r.Perm(len(m.Trees)) {
		where[treeKind(&m.Trees[i])] = i
	}
	return m, where
}

func bodyText(ds [][3]string, m *Model, where map[string]int, r *rand.Rand) []byte {
	lay := plainLayout()
	lay.Shuffle = r.Intn(2) == 0
	secs := lgSections(m, lay, r)
	for _, d := range ds {
		s := &secs[1+where[d[0]]]
		f, how := d[1], d[2]
		at := -1
		for i, l := range s.Lines {
			if strings.HasPrefix(l, f+"=") {
				at = i
			}
		}
		switch {
		case f == "another":
			l := pickS(r, "is_linear=0", "x=1 2 y", "something=", "leaf_const=a b")
			if how == "flag" {
				l = pickS(r, "something", "leaf", "0")
			}
			i := r.Intn(len(s.Lines) + 1)
			if strings.HasPrefix(s.Lines[0], "Tree=") && i == 0 {
				i = 1
			}
			s.Lines = append(s.Lines[:i:i], append([]string{l}, s.Lines[i:]...)...)
			s.Req = append(s.Req[:i:i], append([]bool{false}, s.Req[i:]...)...)
		case how == "absent":
			if at >= 0 {
				s.Lines = append(s.Lines[:at:at], s.Lines[at+1:]...)
				s.Req = append(s.Req[:at:at], s.Req[at+1:]...)
			}
		case at < 0:
			s.add(true, "%s=%s", f, spelled(how, "1", f, r))
		default:
			toks := strings.Split(s.Lines[at][len(f)+1:], " ")
			i := r.Intn(len(toks))
			if toks[i] == "" {
				toks[i] = "1"
			}
			toks[i] = spelled(how, toks[i], f, r)
			s.Lines[at] = f + "=" + strings.Join(toks, " ")
		}
	}
	lines, _ := lgLines(secs, lay, r)
	return joinLines(lines, lay)
}

// jsonValue replaces a value by one of another class.
func jsonValue(how string, v interface{}, f string, r *rand.Rand) interface{} {
	switch how {
	case "null":
		return nil
	case "true":
		return r.Intn(2) == 0
	case "word":
		return pickS(r, "x", "one", "true", "1.x", "-", "nul")
	case "empty":
		return ""
	case "digits":
		return fmt.Sprint(v)
	case "half":
		return json.Number(fmt.Sprint(v) + ".5")
	case "neg":
		return -1 - r.Intn(2)
	case "over":
		d := new(big.Int).Lsh(big.NewInt(1), 32)
		if f == "num_leaves" {
			d.Lsh(d, 32)
		}
		x, ok := new(big.Int).SetString(fmt.Sprint(v), 10)
		if !ok {
			panic("harness: " + fmt.Sprint(v))
		}
		return json.Number(d.Add(d, x).String())
	case "list":
		if r.Intn(3) == 0 {
			return []interface{}{}
		}
		return []interface{}{v}
	case "object":
		if r.Intn(2) == 0 {
			return jm{}
		}
		return jm{"value": v}
	case "number":
		return r.Intn(4)
	case "lists":
		return []interface{}{3, 70}
	case "open":
		return pickS(r, fmt.Sprint(v)+"||", "||"+fmt.Sprint(v), "||", "3||||70")
	case "bar":
		return pickS(r, "3|70", "3 70", "3,70", "3||70|", "3-70", " 3||70", "3|| 70", "3||70 ")
	case "minus":
		return pickS(r, fmt.Sprint(v)+"||-1", "-1||"+fmt.Sprint(v), "-3")
	case "point":
		return pickS(r, fmt.Sprint(v)+"||2.5", "1.5||"+fmt.Sprint(v), "7.5", "1e1", "0x3")
	}
	return how // the text itself
}

func bodyJSON(ds [][3]string, m *Model, where map[string]int, r *rand.Rand) []byte {
	o := lgJSONObj(m, r)
	trees := o["tree_info"].([]interface{})
	var split map[string][]jm = map[string][]jm{}
	var walk func(x jm, root bool)
	walk = func(x jm, root bool) {
		switch d := x["decision_type"]; {
		case d == nil && root:
			split["constant"] = append(split["constant"], x)
		case d == nil:
			split["leaf"] = append(split["leaf"], x)
		case d == "==":
			split["categorical"] = append(split["categorical"], x)
		default:
			split["numeric"] = append(split["numeric"], x)
		}
		for _, s := range []string{"left_child", "right_child"} {
			if k, ok := x[s].(jm); ok {
				walk(k, false)
			}
		}
	}
	for _, t := range trees {
		split["tree"] = append(split["tree"], t.(jm))
		walk(t.(jm)["tree_structure"].(jm), true)
	}
	at := map[string]int{}
	for k, v := range split {
		at[k] = r.Intn(len(v))
	}
	for _, d := range ds {
		x := split[d[0]][at[d[0]]]
		f, how := d[1], d[2]
		switch {
		case f == "another":
			x[pickS(r, "zz", "value", "leaf_const", "split_features")] = []interface{}{1, "x", nil, jm{}, []interface{}{2}, 0.5}[r.Intn(6)]
		case how == "absent":
			delete(x, f)
		default:
			x[f] = jsonValue(how, x[f], f, r)
		}
	}
	b, err := json.Marshal(o)
	must(err)
	return b
}

// skEdit changes the attributes of an object while it is written.
var skEdit func(p *pickler, d *pDict)

func bodySK(ds [][3]string, m *Model, h SKHead, r *rand.Rand) []byte {
	count := map[string]int{}
	tree := r.Intn(len(m.Trees))
	skEdit = func(p *pickler, d *pDict) {
		has := func(k string) int {
			for i := 0; i < len(d.kv); i += 2 {
				if u, ok := d.kv[i].(*pUni); ok && u.s == k {
					return i
				}
			}
			return -1
		}
		place := ""
		for _, x := range [][2]string{{"estimators_", "model"}, {"tree_", "regressor"}, {"node_count", "tree"}, {"prior", "logodds"}, {"priors", "priors"}} {
			if has(x[0]) >= 0 {
				place = x[1]
			}
		}
		count[place]++
		if (place == "regressor" || place == "tree") && count[place]-1 != tree {
			return
		}
		for _, dev := range ds {
			if dev[0] != place {
				continue
			}
			f, how := dev[1], dev[2]
			if f == "another" {
				d.kv = append(d.kv, p.u(pickS(r, "zz", "value_", "n_iter_no_change", "_sklearn_version")), []interface{}{nil, 1, 0.5, p.u("x"), tup(1), &pList{}, &pDict{}}[r.Intn(7)])
				continue
			}
			i := has(f)
			if i < 0 {
				panic("harness: no " + f + " in " + place)
			}
			if how == "absent" {
				d.kv = append(d.kv[:i:i], d.kv[i+2:]...)
				continue
			}
			d.kv[i+1] = skValue(p, how, d.kv[i+1], r)
		}
	}
	defer func() { skEdit = nil }()
	st := randStyle(r)
	return skPickle(m, h, st, r)
}

// skValue replaces the value of an attribute by one of another class.
func skValue(p *pickler, how string, v interface{}, r *rand.Rand) interface{} {
	bytesOf := func(s string) *pReduce {
		return &pReduce{p.g("_codecs", "encode"), tup(p.u(s), p.u("latin1")), nil}
	}
	kind := func(t string) *pReduce {
		return &pReduce{p.g("numpy", "dtype"), tup(p.u(t), 0, 1), tup(3, p.u("<"), nil, nil, nil, -1, -1, 0)}
	}
	array := func(shape, kind, fortran, data interface{}) *pReduce {
		return &pReduce{p.g("numpy.core.multiarray", "_reconstruct"), tup(p.g("numpy", "ndarray"), tup(0), p.u("b")), tup(1, shape, kind, fortran, data)}
	}
	switch how {
	case "none":
		return nil
	case "word":
		return p.u(pickS(r, "x", "0.5", "3", ""))
	case "int":
		return pick(r, 0, 1, 2)
	case "real":
		return []float64{0, 1, 2, 0.5}[r.Intn(4)]
	case "tuple":
		return tup(v)
	case "dict":
		return &pDict{}
	case "empty list":
		return &pList{}
	case "array":
		return array(tup(1), kind("f8"), pBool(false), bytesOf(f64s(false, 1)))
	}
	o, isObj := v.(*pReduce)
	other := func() *pGlobal {
		return p.g(pickS(r, "a.b", "sklearn.tree.tree", "numpy", "sklearn.ensemble.gradient_boosting"), pickS(r, "C", "DecisionTreeClassifier", "MeanEstimator", "ZeroEstimator", "matrix", "ScaledLogOddsEstimator"))
	}
	// with: the call with another argument
	with := func(o *pReduce, i int, x interface{}) *pReduce {
		v := append([]interface{}{}, o.args.v...)
		v[i] = x
		return &pReduce{o.fn, &pTuple{v}, o.state}
	}
	if how == "object" {
		if isObj && r.Intn(2) == 0 { // a bare one, nobody has set its state
			return &pReduce{p.g("copy_reg", "_reconstructor"), tup(p.g("a.b", "C"), p.g("__builtin__", "object"), nil), nil}
		}
		return &pReduce{p.g("copy_reg", "_reconstructor"), tup(p.g("a.b", "C"), p.g("__builtin__", "object"), nil), &pDict{}}
	}
	if !isObj {
		panic("harness: " + how)
	}
	switch how {
	case "class":
		if _, ok := o.args.v[0].(*pGlobal); ok {
			return with(o, 0, other())
		}
		return &pReduce{other(), o.args, o.state}
	case "constructor":
		return &pReduce{p.g(pickS(r, "a.b", "numpy", "numpy.core.multiarray"), pickS(r, "C", "frombuffer", "empty")), o.args, o.state}
	}
	st, isArray := o.state.(*pTuple)
	dtype := func(d *pReduce) *pReduce {
		order := func(s string) *pReduce {
			v := append([]interface{}{}, d.state.(*pTuple).v...)
			v[1] = p.u(s)
			return &pReduce{d.fn, d.args, &pTuple{v}}
		}
		big := d.state.(*pTuple).v[1].(*pUni).s == ">"
		switch how {
		case "dtype":
			return &pReduce{other(), d.args, d.state}
		case "kind":
			if d.args.v[0].(*pUni).s == "V56" {
				return with(d, 0, p.u(pickS(r, "V64", "V8", "V112", "V1", "S56", "f8")))
			}
			return with(d, 0, p.u(pickS(r, "f2", "f16", "c8", "u8", "m8", "S8", "V8", "O8", "b1")))
		case "order x":
			return order(pickS(r, "x", "", "<<", "1", " ", "L", "B"))
		case "order =", "order |":
			if !big {
				return order(how[6:])
			}
		}
		return d
	}
	codec := func(b *pReduce) *pReduce {
		if how == "codec" {
			return &pReduce{p.g(pickS(r, "a.b", "_codecs", "codecs"), pickS(r, "C", "decode", "encodes")), b.args, b.state}
		}
		return b
	}
	if !isArray { // a scalar: its kind and its bytes are arguments
		raw := o.args.v[1].(*pReduce).args.v[0].(*pUni).s
		t := o.args.v[0]
		switch how {
		case "dtype", "kind", "order x", "order =", "order |", "codec":
			return &pReduce{o.fn, tup(dtype(t.(*pReduce)), codec(o.args.v[1].(*pReduce))), nil}
		case "float32":
			t = kind("f4")
			if r.Intn(2) == 0 {
				raw = raw[:4]
			}
		case "int64":
			t = kind("i8")
		case "half":
			raw = raw[:pick(r, 0, 4, 7)]
		default:
			panic("harness: " + how)
		}
		return &pReduce{o.fn, tup(t, bytesOf(raw)), nil}
	}
	shape, t, fortran, data := st.v[1], st.v[2], st.v[3], st.v[4]
	raw := ""
	if b, ok := data.(*pReduce); ok {
		raw = b.args.v[0].(*pUni).s
	}
	switch how {
	case "dtype", "kind", "order x", "order =", "order |", "codec":
		if b, ok := data.(*pReduce); ok {
			data = codec(b)
		}
		t = dtype(t.(*pReduce))
	case "float kind":
		t = kind("f8")
	case "shape":
		d := append([]interface{}{}, shape.(*pTuple).v...)
		d[r.Intn(len(d))] = pick(r, 0, 1, 2, 100)
		shape = &pTuple{d}
	case "item none", "item word", "item list", "item class":
		l := &pList{append([]interface{}{}, data.(*pList).v...)}
		i := r.Intn(len(l.v))
		switch how[5:] {
		case "none":
			l.v[i] = nil
		case "word":
			l.v[i] = p.u("x")
		case "list":
			l.v[i] = &pList{[]interface{}{l.v[i]}}
		case "class":
			l.v[i] = with(l.v[i].(*pReduce), 0, other())
		}
		data = l
	case "fortran":
		fortran = pBool(true)
	case "raw":
		t, data = kind("f8"), bytesOf(strings.Repeat("\x00", 8*len(data.(*pList).v)))
	case "list":
		l := &pList{}
		for i := 0; i < len(raw)/8; i++ {
			l.v = append(l.v, float64(i))
		}
		data = l
	case "float32":
		t = kind("f4")
		if r.Intn(2) == 0 {
			data = bytesOf(raw[:len(raw)/2])
		}
	case "int64":
		t = kind("i8")
	case "half":
		data = bytesOf(raw[:len(raw)-pick(r, 1, 4, 7)])
	default:
		panic("harness: " + how)
	}
	return array(shape, t, fortran, data)
}

// scoresOf: the raw scores of rows, bit by bit.
func scoresOf(e *leaves.Ensemble, rows [][]float64) string {
	var b strings.Builder
	out := make([]float64, e.NOutputGroups())
	for _, row := range rows {
		if err := e.Predict(row, 0, out); err != nil {
			return err.Error()
		}
		for _, x := range out {
			fmt.Fprintf(&b, "%x ", math.Float64bits(x))
		}
	}
	return b.String()
}

func (c *Ctx) body(k bodyCase) {
	r := c.r
	seed := r.Int63()
	var m *Model
	var data func(ds [][3]string) []byte
	// the same random numbers up to the deviations: the intact file is that of the same model
	switch k.Fmt {
	case "lgtext", "lgjson":
		var where map[string]int
		m, where = bodyModel(r)
		data = func(ds [][3]string) []byte {
			r := rand.New(rand.NewSource(seed))
			if k.Fmt == "lgtext" {
				return bodyText(ds, m, where, r)
			}
			return bodyJSON(ds, m, where, r)
		}
	default:
		K := pick(r, 1, 3)
		init := ""
		for _, d := range k.Ds {
			switch {
			case d[0] == "logodds":
				K, init = 1, "LogOddsEstimator"
			case d[0] == "priors":
				init = "PriorProbabilityEstimator"
			case d[2] == "fortran":
				K = 3
			}
		}
		m = RandModel(r, ModelOpts{Kind: "sk", NF: 3, K: K, Iter: 2 + r.Intn(2), MaxLeaves: 5})
		data = func(ds [][3]string) []byte {
			r := rand.New(rand.NewSource(seed))
			h := skHead(m, r)
			if init != "" {
				h.Init = init
			}
			return bodySK(ds, m, h, r)
		}
	}
	rows := make([][]float64, 25)
	for i := range rows {
		rows[i] = make([]float64, 3)
		for j := range rows[i] {
			switch r.Intn(5) {
			case 0:
				rows[i][j] = math.NaN()
			case 1:
				rows[i][j] = float64(r.Intn(110))
			default:
				rows[i][j] = float64(r.Intn(33)-16) / 4
			}
		}
	}
	ev := jm{"ev": "body", "fmt": k.Fmt, "ds": k.Ds, "same": false}
	intact, file := data(nil), data(k.Ds)
	c.op(ev, func() {
		e, err := loader(k.Fmt, false)(strings.NewReader(string(file)))
		if err != nil {
			ev["res"], ev["why"] = "err", err.Error()
			return
		}
		ev["res"] = "ok"
		ref, err := loader(k.Fmt, false)(strings.NewReader(string(intact)))
		if err != nil {
			ev["why"] = "intact file: " + err.Error()
			return
		}
		ev["same"] = scoresOf(e, rows) == scoresOf(ref, rows)
	})
	if ev["res"] != "err" {
		ev["data"] = base64.StdEncoding.EncodeToString(file)
	}
}

// bodies: the cases of the generator; pairs in a random order, share of them.
func (c *Ctx) bodies(part, parts int, times int, share int) {
	for i, g := range genCases {
		if i%parts != part {
			continue
		}
		var k bodyCase
		must(json.Unmarshal(g, &k))
		if k.Ds == nil {
			k.Ds = [][3]string{}
		}
		n := times
		if len(k.Ds) > 1 {
			n = 0
			if c.r.Intn(share) == 0 {
				n = 1
			}
		}
		for j := 0; j < n; j++ {
			c.body(k)
		}
	}
}
