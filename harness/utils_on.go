//go:build verifutil

package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"

	"github.com/dmitryikh/leaves/util"
)

// ucase is an input of the helpers, as in spec/GenUtil.tla.
type ucase struct {
	What  string     `json:"what"`
	Doc   []confLine `json:"doc"`
	Final bool       `json:"final"`
	Toks  []int      `json:"toks"`
	Set   []int      `json:"set"`
	A     []int      `json:"a"`
	B     []int      `json:"b"`
	Thr   int        `json:"thr"`
}

type confLine struct {
	K  string `json:"k"`
	Eq bool   `json:"eq"`
	V  string `json:"v"`
}

// the texts of Spellings in spec/Util.tla
var spellings = []string{"0", "1", "-1", "+1", "007", "-0", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
	"9223372036854775807", "9223372036854775808", "1.5", "-.25", "1e3", "5e-1", "0x10", "0x1p4", "_1", "", "x", "1x", "1,2", "--1", "nan", "inf", "-Inf", "1e999", "0.1"}

func (c *Ctx) utilGen(part, parts int) {
	for i := part; i < len(genCases); i += parts {
		var g ucase
		must(json.Unmarshal(genCases[i], &g))
		switch g.What {
		case "section":
			c.utilSection(g.Doc, g.Final, false)
			if c.r.Intn(4) == 0 {
				c.utilSection(g.Doc, g.Final, true)
			}
		case "list":
			c.utilList(g.Toks)
		case "bits":
			c.utilBits(g.Set)
		case "slices":
			c.utilCompare(g.A, g.B, g.Thr)
		}
	}
}

func (c *Ctx) utilSection(doc []confLine, final, fail bool) {
	r := c.r
	nl := pickStr(r, "\n", "\n", "\r\n", " \n", "\t\r\n")
	var data []byte
	starts := []int{}
	firstEnd := -1 // where the section's end is known
	seen := false
	for i, x := range doc {
		starts = append(starts, len(data))
		s := x.K
		if x.Eq {
			s += "=" + x.V
		}
		blank := s == ""
		if r.Intn(3) == 0 {
			s = pickStr(r, " ", "\t", "  ") + s
		}
		data = append(data, s...)
		if i < len(doc)-1 || final {
			data = append(data, nl...)
		}
		if !blank {
			seen = true
		} else if seen && firstEnd < 0 {
			firstEnd = len(data)
		}
	}
	starts = append(starts, len(data))
	cut, mode := len(data), pickStr(r, "plain", "one", "rand", "zero", "dataeof")
	if fail {
		if firstEnd < 0 {
			firstEnd = len(data) + 1
		}
		mode, cut = pickStr(r, "err", "unexpected", "errdata"), r.Intn(firstEnd)
		if cut == 0 {
			mode = "err"
		}
	}
	var rd *bufio.Reader
	if r.Intn(2) == 0 {
		rd = bufio.NewReaderSize(&cutReader{data: data, cut: cut, mode: mode, r: r}, 16)
	} else {
		rd = bufio.NewReader(&cutReader{data: data, cut: cut, mode: mode, r: r})
	}
	if doc == nil {
		doc = []confLine{}
	}
	ev := jm{"ev": "usec", "doc": doc, "final": final, "fail": fail, "params": [][2]string{}, "rest": []int{}, "pure": true}
	c.op(ev, func() {
		p, err := util.ReadParamsUntilBlank(rd)
		if err != nil {
			ev["res"], ev["why"] = "err", err.Error()
			return
		}
		ev["res"] = "ok"
		if fail {
			return
		}
		kv := [][2]string{}
		for k, v := range p {
			kv = append(kv, [2]string{k, v})
		}
		ev["params"] = kv
		rest, rerr := io.ReadAll(rd)
		must(rerr)
		at := len(data) - len(rest)
		places := []int{} // an empty last line begins where the text ends
		for k := range starts {
			if starts[k] == at && string(rest) == string(data[at:]) {
				places = append(places, len(doc)-k)
			}
		}
		ev["rest"] = places
	})
}

func (c *Ctx) utilList(toks []int) {
	parts := []string{}
	for _, t := range toks {
		parts = append(parts, spellings[t-1])
	}
	value := strings.Join(parts, " ")
	p, err := util.ReadParamsUntilBlank(bufio.NewReader(strings.NewReader("other=1\n\n")))
	must(err)
	p["f"] = value
	ev := jm{"ev": "ulist", "toks": toks, "pure": true}
	none := jm{"ok": false, "v": []string{}}
	ev["int"], ev["u32"], ev["i32"], ev["f64"], ev["strs"], ev["has"], ev["absent"] = none, none, none, none, []string{}, false, false
	c.op(ev, func() {
		if v, err := p.ToInt("f"); err == nil {
			ev["int"] = jm{"ok": true, "v": []string{strconv.Itoa(v)}}
		}
		if v, err := p.ToUint32Slice("f"); err == nil {
			out := []string{}
			for _, x := range v {
				out = append(out, fmt.Sprint(x))
			}
			ev["u32"] = jm{"ok": true, "v": out}
		}
		if v, err := p.ToInt32Slice("f"); err == nil {
			out := []string{}
			for _, x := range v {
				out = append(out, fmt.Sprint(x))
			}
			ev["i32"] = jm{"ok": true, "v": out}
		}
		if v, err := p.ToFloat64Slice("f"); err == nil {
			out := []string{}
			for _, x := range v {
				out = append(out, strconv.FormatFloat(x, 'f', -1, 64))
			}
			ev["f64"] = jm{"ok": true, "v": out}
		}
		if v, err := p.ToStrSlice("f"); err == nil {
			ev["strs"] = v
		}
		s, err := p.ToString("f")
		ev["has"] = err == nil && s == value && p.Contains("f") && p.Compare("f", value) == nil && p.Compare("f", value+"x") != nil && p.Compare("f", value+" ") != nil && (value == "" || p.Compare("f", value[1:]) != nil && p.Compare("f", value[:len(value)-1]) != nil) && p.Compare("other", "1") == nil
		ok := !p.Contains("g") && p.Compare("g", "") != nil
		_, e1 := p.ToString("g")
		_, e2 := p.ToInt("g")
		_, e3 := p.ToStrSlice("g")
		_, e4 := p.ToFloat64Slice("g")
		_, e5 := p.ToUint32Slice("g")
		_, e6 := p.ToInt32Slice("g")
		ev["absent"] = ok && e1 != nil && e2 != nil && e3 != nil && e4 != nil && e5 != nil && e6 != nil
		ev["pure"] = len(p) == 2 && p["f"] == value && p["other"] == "1"
		ev["res"] = "ok"
	})
}

func bitsOfWord(w uint32) []int {
	out := []int{}
	for b := 0; b < 32; b++ {
		if w>>uint(b)&1 == 1 {
			out = append(out, b)
		}
	}
	return out
}

func (c *Ctx) utilBits(set []int) {
	r := c.r
	vals := append([]int{}, set...)
	for i := len(vals); i > 0 && r.Intn(3) == 0; i-- { // some twice
		vals = append(vals, vals[r.Intn(len(vals))])
	}
	r.Shuffle(len(vals), func(i, j int) { vals[i], vals[j] = vals[j], vals[i] })
	if set == nil {
		set = []int{}
	}
	ev := jm{"ev": "ubits", "set": set, "words": [][2]interface{}{}, "n": 0, "count": -1, "first": -1, "finds": [][2]int{}, "pure": true}
	c.op(ev, func() {
		given := append([]int{}, vals...)
		words := util.ConstructBitset(given)
		pure := fmt.Sprint(given) == fmt.Sprint(vals)
		ev["n"] = len(words)
		out := [][2]interface{}{}
		for i, w := range words {
			if w != 0 {
				out = append(out, [2]interface{}{i, bitsOfWord(w)})
			}
		}
		ev["words"] = out
		// from here on with words of our own, and empty ones behind
		max := 0
		for _, v := range set {
			if v > max {
				max = v
			}
		}
		own := make([]uint32, max/32+1+r.Intn(3))
		if len(set) == 0 && r.Intn(2) == 0 {
			own = nil
		}
		for _, v := range set {
			own[v/32] |= 1 << uint(v%32)
		}
		before := fmt.Sprint(own)
		ev["count"] = int(util.NumberOfSetBits(own))
		if f, err := util.FirstNonZeroBit(own); err == nil {
			ev["first"] = int(f)
		}
		finds := [][2]int{}
		if len(own) > 0 {
			for _, pos := range []uint32{0, 1, 6, 7, 15, 30, 31, 32, 33, 63, 64, 95, 96, 1 << 29} {
				got := 0
				if util.FindInBitsetUint32(own[0], pos) {
					got = 1
				}
				finds = append(finds, [2]int{int(pos), got})
			}
			for _, pos := range []uint32{1 << 31, math.MaxUint32, 1<<32 - 32} {
				if util.FindInBitsetUint32(own[0], pos) {
					finds = append(finds, [2]int{2000000000, 1})
				}
			}
		}
		ev["finds"] = finds
		ev["pure"] = pure && before == fmt.Sprint(own)
		ev["res"] = "ok"
	})
}

func inEighths(v []int) []float64 {
	out := []float64{}
	for _, x := range v {
		switch x {
		case 1000000000:
			out = append(out, math.Inf(1))
		case -1000000000:
			out = append(out, math.Inf(-1))
		default:
			out = append(out, float64(x)/8)
		}
	}
	return out
}

func (c *Ctx) utilCompare(a, b []int, thr int) {
	for i := range a { // an infinity and itself: nothing is said
		if i < len(b) && a[i] == 1000000000 && b[i] == a[i] {
			return
		}
	}
	flip := c.r.Intn(2) == 0
	if flip {
		a, b = append([]int{}, a...), append([]int{}, b...)
		for _, s := range [][]int{a, b} {
			for i := range s {
				s[i] = -s[i]
			}
		}
	}
	if a == nil {
		a = []int{}
	}
	if b == nil {
		b = []int{}
	}
	x, y := inEighths(a), inEighths(b)
	ev := jm{"ev": "ucmp", "a": a, "b": b, "thr": thr, "equal": false, "cok": false, "count": 0, "each": []bool{}, "pure": true}
	c.op(ev, func() {
		t := float64(thr) / 8
		ev["equal"] = util.AlmostEqualFloat64Slices(x, y, t) == nil
		n, err := util.NumMismatchedFloat64Slices(x, y, t)
		ev["cok"], ev["count"] = err == nil, n
		each := []bool{}
		for i := range x {
			if i < len(y) {
				each = append(each, util.AlmostEqualFloat64(x[i], y[i], t))
			}
		}
		ev["each"] = each
		ev["pure"] = fmt.Sprint(x, y) == fmt.Sprint(inEighths(a), inEighths(b))
		ev["res"] = "ok"
	})
}

// utilSoftmax: probabilities in the order of the values, at their place and nowhere else.
func (c *Ctx) utilSoftmax() {
	r := c.r
	raw, order := []float64{}, []int{}
	top := pick(r, 1, 3, 20)
	step := pickFloat(r, 0.125, 1, 30)
	base := pickFloat(r, 0, 0, -3, 1000, -1000, 1e300)
	for n := 1 + r.Intn(9); n > 0; n-- {
		o := r.Intn(top)
		order = append(order, o)
		raw = append(raw, base+step*float64(o))
	}
	if base == 1e300 {
		for i := range order {
			order[i] = 0
		}
	}
	start := r.Intn(4)
	out := make([]float64, start+len(raw)+r.Intn(4))
	for i := range out {
		out[i] = 7.5 + float64(i)
	}
	ev := jm{"ev": "usoft", "order": order, "start": start, "outside": false, "range": false, "one": false, "ranks": []int{}, "pure": true}
	c.op(ev, func() {
		given := append([]float64{}, raw...)
		util.SoftmaxFloat64Slice(given, out, start)
		outside, inside, sum := true, true, 0.0
		got := out[start : start+len(raw)]
		for i, v := range out {
			if i >= start && i < start+len(raw) {
				inside = inside && v >= 0 && v <= 1
				sum += v
			} else {
				outside = outside && v == 7.5+float64(i)
			}
		}
		ranks := []int{} // how many are less
		for _, v := range got {
			n := 0
			for _, w := range got {
				if w < v {
					n++
				}
			}
			ranks = append(ranks, n)
		}
		ev["outside"], ev["range"], ev["one"], ev["ranks"] = outside, inside, math.Abs(sum-1) < 1e-12, ranks
		ev["pure"] = fmt.Sprint(given) == fmt.Sprint(raw)
		ev["res"] = "ok"
	})
}

// utilRandom: greater inputs.
func (c *Ctx) utilRandom() {
	r := c.r
	for rep := 0; rep < 8; rep++ {
		var doc []confLine
		for n := r.Intn(12); n > 0; n-- {
			x := confLine{}
			if r.Intn(5) > 0 {
				x.K = pickStr(r, "a", "b", "c", "leaf_value", "Tree", "a b", "ключ", strings.Repeat("k", r.Intn(300)))
				x.Eq = r.Intn(4) > 0
				if x.Eq {
					x.V = pickStr(r, "", "1", "0.5 -1 2", "==", "=", "x y=z", "\u00e9", strings.Repeat("12 ", r.Intn(pick(r, 10, 3000, 3000, 40000)))+"3")
				}
			}
			doc = append(doc, x)
		}
		c.utilSection(doc, r.Intn(3) > 0, r.Intn(4) == 0)

		var toks []int
		for n := 1 + r.Intn(30); n > 0; n-- {
			t := 1 + r.Intn(len(spellings))
			if r.Intn(8) > 0 {
				t = 1 + r.Intn(5)
			}
			toks = append(toks, t)
		}
		c.utilList(toks)

		in := map[int]bool{}
		top := pick(r, 8, 32, 40, 200, 5000, 1<<20)
		set := []int{}
		n := r.Intn(40)
		if r.Intn(4) == 0 {
			n = r.Intn(300)
		}
		for ; n > 0; n-- {
			v := r.Intn(top)
			if !in[v] {
				in[v] = true
				set = append(set, v)
			}
		}
		if r.Intn(6) == 0 && top <= 200 {
			set = []int{}
			for v := 0; v < top; v++ {
				set = append(set, v)
			}
		}
		c.utilBits(set)

		a := []int{}
		for n := r.Intn(40); n > 0; n-- {
			a = append(a, r.Intn(2000000)-1000000)
		}
		b := append([]int{}, a...)
		for i := range b {
			if r.Intn(3) == 0 {
				b[i] += pick(r, -1, 1, 2, -2, 3, 100, -1000)
			}
		}
		if r.Intn(5) == 0 {
			b = b[:r.Intn(len(b)+1)]
		}
		c.utilCompare(a, b, pick(r, 0, 0, 1, 2, 99, 100, 5000, -1))

		bytes := make([]byte, 8)
		r.Read(bytes)
		if r.Intn(3) == 0 {
			copy(bytes, []byte{0x7f, 0xf0, 0, 0, 0, 0, 0, byte(r.Intn(2))}[:1+r.Intn(8)])
		}
		bs := []int{}
		for _, x := range bytes {
			bs = append(bs, int(x))
		}
		for _, little := range []bool{true, false} {
			ev := jm{"ev": "ubytes", "bytes": bs, "little": little, "got": []int{}, "pure": true}
			little := little
			c.op(ev, func() {
				given := append([]byte{}, bytes...)
				v := math.Float64bits(util.Float64FromBytes(given, little))
				got := []int{}
				for i := 7; i >= 0; i-- {
					got = append(got, int(v>>uint(8*i)&255))
				}
				ev["got"], ev["pure"], ev["res"] = got, string(given) == string(bytes), "ok"
			})
		}
		c.utilSoftmax()
		x, y := r.Intn(2000)-1000, r.Intn(2000)-1000
		if r.Intn(3) == 0 {
			y = x + r.Intn(3) - 1
		}
		ev := jm{"ev": "umin", "a": x, "b": y, "got": 0, "pure": true}
		c.op(ev, func() { ev["got"], ev["res"] = util.MinInt(x, y), "ok" })

		var vec []float64
		for n := r.Intn(9); n > 0; n-- {
			vec = append(vec, pickFloat(r, 0, 1, -1, 800, -800, 36, -745.5, math.Inf(1), math.Inf(-1), r.NormFloat64()))
		}
		sev := jm{"ev": "usig", "got": []int{}, "want": []int{}, "pure": true}
		c.op(sev, func() {
			want, got := []int{}, []int{}
			for _, v := range vec {
				want = append(want, c.intern(bitsOf([]float64{util.Sigmoid(v)})))
			}
			util.SigmoidFloat64SliceInplace(vec)
			for _, v := range vec {
				got = append(got, c.intern(bitsOf([]float64{v})))
			}
			sev["got"], sev["want"], sev["res"] = got, want, "ok"
		})
	}
}
