package main

import (
	"encoding/json"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"time"

	leaves "github.com/dmitryikh/leaves"
)

// lcase is an order in which the streams of several loads deliver their
// chunks, as in spec/GenLoads.tla.
type lcase struct {
	N   []int  `json:"n"`
	Cut []bool `json:"cut"`
	H   []int  `json:"h"`
}

// loadRun is one of several loads under way at the same time.
type loadRun struct {
	Fmt  string    `json:"fmt"`
	Segs []segment `json:"segs"`
	cutRun
}

// known is a model file and what a load of it gives when nothing else runs.
type known struct {
	m      *Model
	format string
	xf     bool
	data   []byte
	segs   []segment
	bounds []int // places before the last needed byte where it may end
	need   int
	rows   [][]float64
	ref    string
	e      *leaves.Ensemble
}

func (c *Ctx) knownModel() *known {
	o := c.optsFor(pickStr(c.r, "lg", "lg", "rf", "xg", "dart", "lin", "sk"))
	o.MaxIter, o.MaxLeaves, o.MaxNF, o.MaxK = 3, 5, 4, 3
	o.BigCats = false
	k := &known{m: RandModel(c.r, o)}
	k.format = k.m.format()
	if k.m.Kind == "lg" && !k.m.Avg && c.r.Intn(2) == 0 {
		k.format = "lgjson"
	}
	obj := ""
	if k.format != "lgjson" && k.format != "skpkl" {
		obj = "regression"
		if os := xfObjs(k.m); len(os) > 0 && c.r.Intn(2) == 0 {
			k.xf, obj = true, os[c.r.Intn(len(os))]
		}
	}
	var bounds []int
	k.data, k.segs, bounds = c.modelFile(k.m, k.format, obj)
	pos := 0
	for _, s := range k.segs {
		pos += s.Len
		if s.Req && s.Len > 0 {
			k.need = pos
		}
	}
	for _, b := range bounds {
		if b < k.need {
			k.bounds = append(k.bounds, b)
		}
	}
	for i := 0; i < 3; i++ {
		k.rows = append(k.rows, decodeRow(k.m.RandRow(c.r, k.m.NF), k.m.F32(), nil))
	}
	return k
}

// alone loads the model while nothing else runs.
func (c *Ctx) alone(k *known) loadRun {
	run := loadRun{k.format, k.segs, cutRun{A: len(k.data), B: len(k.data), Same: true}}
	ev := jm{}
	guard(ev, func() {
		e, err := loader(k.format, k.xf)(&cutReader{data: k.data, cut: len(k.data), mode: "plain", r: c.r})
		run.Res = outcome(e, err)
		if run.Res == "ok" {
			k.e, k.ref = e, sign(e, k.m, k.rows)
		}
	})
	if ev["res"] == "panic" {
		run.Res, run.Why = "panic", ev["why"].(string)
	}
	return run
}

func outcome(e *leaves.Ensemble, err error) string {
	switch {
	case err != nil && e != nil:
		return "both"
	case err != nil:
		return "err"
	case e == nil:
		return "none"
	}
	return "ok"
}

// turnReader delivers its data in chunks, each when it is its turn.
type turnReader struct {
	data  []byte
	ends  []int // of the chunks
	k     int   // chunks begun
	pos   int
	want  chan struct{}
	grant chan struct{}
	free  chan struct{} // closed: no more turns
	done  chan struct{}
}

func (t *turnReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if t.k == 0 || t.pos == t.ends[t.k-1] {
		if t.k == len(t.ends) {
			return 0, io.EOF
		}
		select {
		case t.want <- struct{}{}:
			select {
			case <-t.grant:
			case <-t.free:
			}
		case <-t.free:
		}
		t.k++
	}
	n := copy(p, t.data[t.pos:t.ends[t.k-1]])
	t.pos += n
	return n, nil
}

// orders makes loads whose streams deliver in the orders of GenLoads.
func (c *Ctx) orders(part, parts int) {
	var ks []*known
	ev := jm{"ev": "loads", "order": []int{}}
	var runs []loadRun
	c.op(ev, func() {
		for i := 0; i < 6; i++ {
			k := c.knownModel()
			runs = append(runs, c.alone(k))
			if k.e != nil {
				ks = append(ks, k)
			}
		}
		ev["loads"], ev["res"] = runs, "ok"
	})
	if len(ks) == 0 {
		return
	}
	slow := 0
	for i := part; i < len(genCases); i += parts {
		var g lcase
		must(json.Unmarshal(genCases[i], &g))
		c.ordered(ks, g, &slow)
	}
}

func (c *Ctx) ordered(ks []*known, g lcase, slow *int) {
	n := len(g.N)
	free := make(chan struct{})
	src := make([]*known, n)
	tr := make([]*turnReader, n)
	runs := make([]loadRun, n)
	for i := range tr {
		k := ks[c.r.Intn(len(ks))]
		src[i] = k
		end := len(k.data)
		chunks := g.N[i]
		if g.Cut[i] && len(k.bounds) > 0 {
			end = k.bounds[c.r.Intn(len(k.bounds))]
			chunks--
		}
		ends := []int{end}
		for j := 1; j < chunks; j++ {
			ends = append(ends, c.r.Intn(end+1))
		}
		sort.Ints(ends)
		if end > 0 { // chunks are not empty
			out := ends[:0]
			last := 0
			for _, x := range ends {
				if x > last {
					out = append(out, x)
					last = x
				}
			}
			ends = out
		} else {
			ends = nil
		}
		tr[i] = &turnReader{data: k.data, ends: ends, want: make(chan struct{}), grant: make(chan struct{}), free: free, done: make(chan struct{})}
		runs[i] = loadRun{k.format, k.segs, cutRun{A: end, B: end}}
	}
	ev := jm{"ev": "loads", "order": g.H}
	c.op(ev, func() {
		waiting := make([]bool, n)
		await := func(i int) {
			waiting[i] = false
			d := 300 * time.Millisecond
			if *slow > 3 {
				d = time.Millisecond
			}
			select {
			case <-tr[i].want:
				waiting[i] = true
			case <-tr[i].done:
			case <-time.After(d):
				*slow++
			}
		}
		for i := range tr {
			go func(i int) {
				defer close(tr[i].done)
				one := jm{}
				guard(one, func() {
					e, err := loader(src[i].format, src[i].xf)(tr[i])
					runs[i].Res, runs[i].Same = outcome(e, err), true
					if err != nil {
						runs[i].Why = err.Error()
					}
					if runs[i].Res == "ok" {
						runs[i].Same = sign(e, src[i].m, src[i].rows) == src[i].ref
					}
				})
				if one["res"] == "panic" {
					runs[i].Res, runs[i].Why = "panic", one["why"].(string)
				}
			}(i)
			await(i)
		}
		// a model loaded before
		k := ks[c.r.Intn(len(ks))]
		old := loadRun{k.format, []segment{}, cutRun{Same: true}}
		for step, i := range g.H {
			i--
			if step == len(g.H)/2 {
				one := jm{}
				guard(one, func() {
					old.Res, old.Same = "ok", sign(k.e, k.m, k.rows) == k.ref
				})
				if one["res"] == "panic" {
					old.Res, old.Why = "panic", one["why"].(string)
				}
			}
			if !waiting[i] {
				continue
			}
			tr[i].grant <- struct{}{}
			await(i)
		}
		close(free)
		for i := range tr {
			<-tr[i].done
		}
		ev["loads"], ev["res"] = append(runs, old), "ok"
	})
}

// loadCrowd: loads made at the same time, nothing else synchronising them; under the race detector.
func (c *Ctx) loadCrowd() {
	ks := []*known{}
	ev := jm{"ev": "loads", "order": []int{}}
	var first []loadRun
	c.op(ev, func() {
		for i := 0; i < 3; i++ {
			k := c.knownModel()
			first = append(first, c.alone(k))
			if k.e != nil {
				ks = append(ks, k)
			}
		}
		ev["loads"], ev["res"] = first, "ok"
	})
	if len(ks) == 0 {
		return
	}
	ev = jm{"ev": "loads", "order": []int{}}
	const W, Reps = 6, 4
	runs := make([]loadRun, W*Reps)
	c.op(ev, func() {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for w := 0; w < W; w++ {
			wg.Add(1)
			go func(w int, r *rand.Rand) {
				defer wg.Done()
				<-start
				for rep := 0; rep < Reps; rep++ {
					k := ks[r.Intn(len(ks))]
					run := &runs[w*Reps+rep]
					*run = loadRun{k.format, k.segs, cutRun{A: len(k.data), B: len(k.data), Same: true}}
					if r.Intn(4) == 0 && len(k.bounds) > 0 {
						run.A = k.bounds[r.Intn(len(k.bounds))]
						run.B = run.A
					}
					one := jm{}
					guard(one, func() {
						var e *leaves.Ensemble
						var err error
						if fl := fileLoaders[k.format]; fl != nil && r.Intn(3) == 0 {
							name := filepath.Join(scratch(), "t"+itoa(w))
							must(os.WriteFile(name, k.data[:run.A], 0o644))
							e, err = fl(name, k.xf)
							must(os.Remove(name))
						} else {
							e, err = loader(k.format, k.xf)(&cutReader{data: k.data, cut: run.A, mode: pickStr(r, "plain", "one", "rand"), r: r})
						}
						run.Res = outcome(e, err)
						if err != nil {
							run.Why = err.Error()
						}
						if run.Res == "ok" {
							run.Same = sign(e, k.m, k.rows) == k.ref
						}
					})
					if one["res"] == "panic" {
						run.Res, run.Why = "panic", one["why"].(string)
					}
				}
			}(w, rand.New(rand.NewSource(c.r.Int63())))
		}
		close(start)
		wg.Wait()
		ev["loads"], ev["res"] = runs, "ok"
	})
}
