package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
)

// pinstr is an instruction of spec/PickleVM.tla.
type pinstr struct {
	C string
	N int
}

func (i pinstr) MarshalJSON() ([]byte, error) { return json.Marshal([]interface{}{i.C, i.N}) }
func (i *pinstr) UnmarshalJSON(b []byte) error {
	var x []json.RawMessage
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	if err := json.Unmarshal(x[0], &i.C); err != nil {
		return err
	}
	return json.Unmarshal(x[1], &i.N)
}

type pval struct {
	K string `json:"k"`
	N int    `json:"n"`
	E []pval `json:"e"`
}

type pobj struct {
	K  string `json:"k"`
	Ks []int  `json:"ks"`
	E  []pval `json:"e"`
}

// pnames names the contents of one program: operands and what they stand for.
type pnames struct {
	c    *Ctx
	ints map[int]int
	flts map[int]float64
	strs map[int]string
	clss map[int][2]string
	keys map[int]string
	rev  map[string]int
	next int
}

func (c *Ctx) newPNames() *pnames {
	return &pnames{c, map[int]int{}, map[int]float64{}, map[int]string{}, map[int][2]string{}, map[int]string{}, map[string]int{}, 1000000}
}

// name gives the operand for some contents, known or not.
func (p *pnames) name(kind string, contents string) int {
	k := kind + contents
	if n, ok := p.rev[k]; ok {
		return n
	}
	p.next++
	p.rev[k] = p.next
	return p.next
}

func (p *pnames) fresh(kind string, n int, make func() string) {
	for try := 0; ; try++ {
		s := make()
		if _, ok := p.rev[kind+s]; !ok {
			p.rev[kind+s] = n
			return
		}
		if try > 1000 {
			panic("harness: no fresh contents")
		}
	}
}

func (p *pnames) intOf(n int) int {
	r := p.c.r
	if _, ok := p.ints[n]; !ok {
		p.fresh("int", n, func() string {
			v := pick(r, 0, 1, -1, r.Intn(1000), -r.Intn(1000), math.MaxInt64, math.MinInt64, 1<<31, -(1 << 31), 1<<32+1)
			p.ints[n] = v
			return itoa(v)
		})
	}
	return p.ints[n]
}

func (p *pnames) fltOf(n int) float64 {
	if _, ok := p.flts[n]; !ok {
		p.fresh("flt", n, func() string {
			v := randValue(p.c.r, false)
			for math.IsInf(v, 0) {
				v = randValue(p.c.r, false)
			}
			p.flts[n] = v
			return fmt.Sprint(math.Float64bits(v))
		})
	}
	return p.flts[n]
}

func (p *pnames) strOf(n int) string {
	r := p.c.r
	if _, ok := p.strs[n]; !ok {
		p.fresh("str", n, func() string {
			b := []byte{}
			for k := r.Intn(7); k > 0; k-- {
				switch r.Intn(5) {
				case 0:
					b = append(b, pickStr(r, "\\", "\n", "\r", "\x00", "\x1a", "\\u", "\\u0041", "\\\\", "u005c", "\xe9", "\xff", "'", "\"", "\\n", "\\x41", "u00", "\\u00")...)
				case 1:
					b = append(b, byte(r.Intn(256)))
				default:
					b = append(b, pickStr(r, "a", "b", "key", "n_classes_", "<", " ", "#", ".", "0")...)
				}
			}
			if r.Intn(40) == 0 {
				b = append(b, bytes.Repeat([]byte("long\n"), pick(r, 1000, 1000, 1000, 1000, 15000))...)
			}
			p.strs[n] = string(b)
			return string(b)
		})
	}
	return p.strs[n]
}

func (p *pnames) clsOf(n int) [2]string {
	r := p.c.r
	if _, ok := p.clss[n]; !ok {
		p.fresh("cls", n, func() string {
			v := [2]string{pickStr(r, "copy_reg", "numpy", "numpy.core.multiarray", "m"+itoa(r.Intn(99)), "é"), pickStr(r, "_reconstructor", "dtype", "ndarray", "f"+itoa(r.Intn(99)))}
			p.clss[n] = v
			return v[0] + "\n" + v[1]
		})
	}
	return p.clss[n]
}

func (p *pnames) keyOf(n int) string {
	r := p.c.r
	if _, ok := p.keys[n]; !ok {
		p.fresh("key", n, func() string {
			v := itoa(pick(r, r.Intn(10), r.Intn(10), r.Intn(300), 1000000+r.Intn(1000), 1<<40+r.Intn(1000)))
			p.keys[n] = v
			return v
		})
	}
	return p.keys[n]
}

// escape writes the contents in one of the ways that mean exactly them.
func (p *pnames) escape(s string) string {
	r := p.c.r
	style := r.Intn(4) // 0 old Python, 1 new Python, 2 everything, 3 whatever means the same
	var b bytes.Buffer
	for i := 0; i < len(s); i++ {
		ch := s[i]
		esc := ch == '\n' || ch == '\\'
		switch style {
		case 1:
			esc = esc || ch == 0 || ch == '\r' || ch == 0x1a
		case 2:
			esc = true
		case 3:
			esc = esc || r.Intn(4) == 0
			if ch == '\\' && i+1 < len(s) && s[i+1] != 'u' && s[i+1] != 'U' && s[i+1] != '\\' && s[i+1] != '\n' && r.Intn(2) == 0 {
				// a backslash that begins no escape (nor is one begun after it)
				if nx := s[i+1]; nx >= ' ' && nx < 0x7f {
					b.WriteByte('\\')
					b.WriteByte(nx)
					i++
					continue
				}
			}
			if ch == '\\' && i+1 < len(s) && s[i+1] == '\\' && r.Intn(2) == 0 {
				b.WriteString("\\\\") // two of them stand for themselves
				i++
				continue
			}
		}
		if !esc {
			b.WriteByte(ch)
		} else if r.Intn(2) == 0 {
			fmt.Fprintf(&b, "\\u%04x", ch)
		} else {
			fmt.Fprintf(&b, "\\u%04X", ch)
		}
	}
	return b.String()
}

// bytesOf renders a program.
func (p *pnames) bytesOf(prog []pinstr) []byte {
	r := p.c.r
	var b bytes.Buffer
	for _, i := range prog {
		switch i.C {
		case "I":
			v := p.intOf(i.N)
			switch {
			case (v == 0 || v == 1) && r.Intn(3) == 0:
				fmt.Fprintf(&b, "I0%d\n", v)
			case r.Intn(3) == 0:
				fmt.Fprintf(&b, "L%dL\n", v)
			default:
				fmt.Fprintf(&b, "I%d\n", v)
			}
		case "Y":
			fmt.Fprintf(&b, pickStr(r, "L%d\n", "I %d\n", "I%d \n", "L %dL\n", "I%dL\n"), p.intOf(i.N))
		case "F":
			fmt.Fprintf(&b, "F%s\n", spell(p.fltOf(i.N), r, "Inf"))
		case "V":
			fmt.Fprintf(&b, "V%s\n", p.escape(p.strOf(i.N)))
		case "c":
			v := p.clsOf(i.N)
			fmt.Fprintf(&b, "c%s\n%s\n", v[0], v[1])
		case "p", "g":
			fmt.Fprintf(&b, "%s%s\n", i.C, p.keyOf(i.N))
		case "X":
			b.WriteString(pickStr(r, "Ix\n", "I\n", "I1.5\n", "I5x\n", "Lx\n", "L\n", "LL\n", "LxL\n", "Fx\n", "F\n", "F1.2.3\n"))
		case "?":
			for {
				ch := byte(r.Intn(256))
				if r.Intn(2) == 0 {
					ch = "02iPS]})qhKMXuehj\x80\x85QGToJB"[r.Intn(28-5)]
				}
				if !strings.ContainsRune("(.FILNRVabcdglpst", rune(ch)) {
					b.WriteByte(ch)
					if r.Intn(2) == 0 { // an operand that would suit it
						b.WriteString(pickStr(r, "1\n", "'abc'\n", "m\nn\n"))
					}
					break
				}
			}
		default:
			b.WriteString(i.C)
		}
	}
	return b.Bytes()
}

// graph reads a decoded object: shared objects become references into a heap.
// What is not recognised is opaque.
type graph struct {
	p    *pnames
	heap []pobj
	at   map[uintptr]int
	left int
}

var opaque = pval{K: "opaque", E: []pval{}}

func (g *graph) obj(ptr uintptr, kind string) (int, bool) {
	if i, ok := g.at[ptr]; ok {
		return i, true
	}
	g.heap = append(g.heap, pobj{K: kind, Ks: []int{}, E: []pval{}})
	g.at[ptr] = len(g.heap)
	return len(g.heap), false
}

func (g *graph) val(v reflect.Value) pval {
	for v.IsValid() && v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if !v.IsValid() {
		return opaque
	}
	e := []pval{}
	t := v.Type()
	name := t.Name()
	if t.Kind() == reflect.Ptr {
		name = "*" + t.Elem().Name()
	}
	switch {
	case t.Kind() == reflect.Int && name == "int":
		return pval{"int", g.p.name("int", itoa(int(v.Int()))), e}
	case t.Kind() == reflect.Float64 && name == "float64":
		return pval{"flt", g.p.name("flt", fmt.Sprint(math.Float64bits(v.Float()))), e}
	case name == "None":
		return pval{"none", 0, e}
	case name == "Unicode" && t.Kind() == reflect.Slice:
		return pval{"str", g.p.name("str", string(v.Bytes())), e}
	case name == "Global" && t.Kind() == reflect.Struct:
		m, n := v.FieldByName("Module"), v.FieldByName("Name")
		if !m.IsValid() || !n.IsValid() || m.Kind() != reflect.String || n.Kind() != reflect.String {
			return opaque
		}
		return pval{"cls", g.p.name("cls", m.String()+"\n"+n.String()), e}
	case name == "Tuple" && t.Kind() == reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			e = append(e, g.val(v.Index(i)))
		}
		return pval{"tup", 0, e}
	case name == "*List" && t.Elem().Kind() == reflect.Slice:
		i, known := g.obj(v.Pointer(), "list")
		if !known {
			for j := 0; j < v.Elem().Len(); j++ {
				e = append(e, g.val(v.Elem().Index(j)))
			}
			g.heap[i-1].E = e
		}
		return pval{"ref", i, []pval{}}
	case name == "Dict" && t.Kind() == reflect.Map:
		i, known := g.obj(v.Pointer(), "dict")
		if !known {
			ks := []int{}
			for _, k := range v.MapKeys() {
				if k.Kind() != reflect.String {
					return opaque
				}
				ks = append(ks, g.p.name("str", k.String()))
				e = append(e, g.val(v.MapIndex(k)))
			}
			g.heap[i-1].Ks = ks
			g.heap[i-1].E = e
		}
		return pval{"ref", i, []pval{}}
	case name == "*Reduce" && t.Elem().Kind() == reflect.Struct:
		c, a, b := v.Elem().FieldByName("Callable"), v.Elem().FieldByName("Args"), v.Elem().FieldByName("Build")
		if !c.IsValid() || !a.IsValid() || !b.IsValid() || b.Kind() != reflect.Ptr {
			return opaque
		}
		i, known := g.obj(v.Pointer(), "red")
		if !known {
			e = append(e, g.val(c), g.val(a))
			if !b.IsNil() {
				s := b.Elem().FieldByName("Args")
				if !s.IsValid() {
					return opaque
				}
				e = append(e, g.val(s))
			}
			g.heap[i-1].E = e
		}
		return pval{"ref", i, []pval{}}
	}
	return opaque
}

// runPickle runs the program and records the object.
func (c *Ctx) runPickle(prog []pinstr) {
	if n := len(prog); n > 0 && prog[n-1].C != "." && c.r.Intn(4) > 0 { // a decoder that goes on finds an end
		prog = append(append([]pinstr{}, prog...), pinstr{"N", 0}, pinstr{".", 0})
	}
	p := c.newPNames()
	data := p.bytesOf(prog)
	c.pickleEvent(prog, p, data)
}

func (c *Ctx) pickleEvent(prog []pinstr, p *pnames, data []byte) {
	if n := len(prog); n > 0 && prog[n-1].C == "." && c.r.Intn(3) == 0 {
		data = append(data, pickStr(c.r, ".", "x", "\n", "(", "I5\n.")...) // what follows does not matter
	}
	ev := jm{"ev": "pickle", "prog": prog, "root": opaque, "heap": []pobj{}, "has": haveUnpickle}
	if len(data) < 400 {
		ev["text"] = string(data)
	}
	c.op(ev, func() {
		o, err := unpickle(bytes.NewReader(data))
		if err != nil {
			ev["res"] = "err"
			ev["why"] = err.Error()
			return
		}
		g := &graph{p: p, at: map[uintptr]int{}}
		ev["root"] = g.val(reflect.ValueOf(o))
		if g.heap != nil {
			ev["heap"] = g.heap
		}
		ev["res"] = "ok"
	})
}

var allCodes = []string{"(", ".", "N", "I", "F", "V", "c", "t", "l", "d", "a", "s", "R", "b", "p", "g", "X", "?", "Y"}

func (c *Ctx) randInstr() pinstr {
	r := c.r
	i := pinstr{C: allCodes[r.Intn(len(allCodes))]}
	switch i.C {
	case "I", "Y", "F", "V", "c", "p", "g":
		i.N = 1 + r.Intn(4)
	}
	return i
}

// mutant: a program with some instructions dropped, doubled, swapped or replaced.
func (c *Ctx) mutant(prog []pinstr) []pinstr {
	r := c.r
	q := append([]pinstr{}, prog...)
	for k := 1 + r.Intn(2); k > 0 && len(q) > 0; k-- {
		at := r.Intn(len(q))
		switch r.Intn(5) {
		case 0:
			q = append(q[:at], q[at+1:]...)
		case 1:
			q = append(q[:at+1], q[at:]...)
		case 2:
			b := r.Intn(len(q))
			q[at], q[b] = q[b], q[at]
		case 3:
			q[at] = c.randInstr()
		case 4:
			q = append(q[:at], append([]pinstr{c.randInstr()}, q[at:]...)...)
		}
	}
	return q
}

// pickleGen: programs enumerated by the specification, and mutants of them.
func (c *Ctx) pickleGen(from, to int) {
	if !haveUnpickle {
		return
	}
	for i := from; i < to && i < len(genCases); i++ {
		var k struct{ Prog []pinstr }
		must(json.Unmarshal(genCases[i], &k))
		c.runPickle(k.Prog)
		if len(k.Prog) > 5 && c.r.Intn(3) == 0 {
			c.runPickle(c.mutant(k.Prog))
		}
	}
}

// pickleRandom: pickles of random object graphs, and mutants of them.
func (c *Ctx) pickleRandom() {
	if !haveUnpickle {
		return
	}
	r := c.r
	type obj = interface{}
	for rep := 0; rep < 20; rep++ {
		prog := []pinstr{}
		emit := func(code string, n int) { prog = append(prog, pinstr{code, n}) }
		nkeys := 1 + r.Intn(12)
		set := []int{} // keys put
		budget := 5 + r.Intn(60)
		var value func(depth int)
		put := func() {
			for r.Intn(2) == 0 {
				k := 1 + r.Intn(nkeys)
				emit("p", k)
				set = append(set, k)
				if r.Intn(2) == 0 {
					break
				}
			}
		}
		value = func(depth int) {
			budget--
			kind := r.Intn(12)
			if depth > 6 || budget < 0 {
				kind = r.Intn(5)
			}
			switch kind {
			case 0:
				emit("I", 1+r.Intn(5))
			case 1:
				emit("V", 1+r.Intn(5))
				put()
			case 2:
				emit("F", 1+r.Intn(3))
			case 3:
				emit("N", 0)
			case 4, 5:
				if len(set) == 0 {
					emit("c", 1+r.Intn(3))
					put()
				} else {
					emit("g", set[r.Intn(len(set))])
				}
			case 6:
				emit("(", 0)
				for k := r.Intn(4); k > 0; k-- {
					value(depth + 1)
				}
				emit("t", 0)
				put()
			case 7, 8:
				emit("(", 0)
				for k := r.Intn(3); k > 0; k-- {
					value(depth + 1)
				}
				emit("l", 0)
				put()
				for k := r.Intn(4); k > 0; k-- {
					value(depth + 1)
					emit("a", 0)
				}
				put()
			case 9, 10:
				emit("(", 0)
				for k := r.Intn(3); k > 0; k-- {
					emit("V", 1+r.Intn(5))
					value(depth + 1)
				}
				emit("d", 0)
				put()
				for k := r.Intn(4); k > 0; k-- {
					emit("V", 1+r.Intn(5))
					put()
					value(depth + 1)
					emit("s", 0)
				}
				put()
			case 11:
				emit("c", 1+r.Intn(3))
				put()
				emit("(", 0)
				for k := r.Intn(3); k > 0; k-- {
					value(depth + 1)
				}
				emit("t", 0)
				put()
				emit("R", 0)
				put()
				if r.Intn(2) == 0 {
					value(depth + 1)
					emit("b", 0)
					put()
				}
			}
		}
		for k := r.Intn(3); k > 0; k-- { // things left below
			value(3)
			if r.Intn(3) == 0 {
				emit("(", 0)
			}
		}
		value(0)
		emit(".", 0)
		c.runPickle(prog)
		for k := 0; k < 2; k++ {
			c.runPickle(c.mutant(prog))
		}
		// cut short
		c.runPickle(prog[:r.Intn(len(prog))])
	}
}

// styles: one model, pickled in every style.
func (c *Ctx) pickleStyles() {
	m := RandModel(c.r, ModelOpts{Kind: "sk", MaxLeaves: 6, MaxIter: 3})
	rows := c.randRows(m, 8)
	for i := range rows {
		rows[i] = rows[i][:m.NF]
	}
	for k := 0; k < 5; k++ {
		st := randStyle(c.r)
		st.Memo = k % 3
		st.Self = c.r.Intn(2) == 0
		h := c.load(m, "skpkl", false, "", skPickle(m, skHead(m, c.r), st, c.r))
		if h != 0 {
			c.pred(Call{H: h, API: "dense", NCols: len(rows[0]), Rows: rows})
			c.pred(Call{H: c.view(h, "leaf"), API: "dense", NCols: len(rows[0]), Rows: rows})
		}
	}
	_ = strconv.Itoa
}
