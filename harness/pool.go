package main

import (
	"encoding/json"
	"math"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"

	leaves "github.com/dmitryikh/leaves"
)

// gate records the begin and the end of every row evaluation and holds the
// first rows of batches so that they follow a schedule.
type gate struct {
	mu    sync.Mutex
	nf    int
	rows  map[string]int
	log   []jm
	sched []int // k+1: first row of batch k begins, -(k+1): it ends
	pos   int
	off   map[int]bool // tokens given up
	last  time.Time
	slow  int // spin in every hook, to widen windows
}

const holdFor = 4 * time.Millisecond

func (g *gate) row(fvals []float64) int {
	if len(fvals) < g.nf {
		return -1
	}
	if i, ok := g.rows[string(bitsOf(fvals[:g.nf]))]; ok {
		return i
	}
	return -1
}

func (g *gate) hook(begin bool, fvals []float64, start int) {
	g.mu.Lock()
	r := g.row(fvals)
	tok := 0
	if r >= 0 && r%leaves.BatchSize == 0 {
		tok = r/leaves.BatchSize + 1
		if !begin {
			tok = -tok
		}
	}
	if begin {
		g.log = append(g.log, jm{"ev": "pbegin", "row": r})
	}
	for tok != 0 {
		for g.pos < len(g.sched) && g.off[g.sched[g.pos]] {
			g.pos++
		}
		if g.pos >= len(g.sched) {
			break
		}
		if g.sched[g.pos] == tok {
			g.pos++
			g.last = time.Now()
			break
		}
		if time.Since(g.last) > holdFor { // the schedule does not fit: any row may go
			g.off[tok] = true
			g.last = time.Now()
			break
		}
		g.mu.Unlock()
		if g.slow > 0 {
			time.Sleep(20 * time.Microsecond)
		} else {
			runtime.Gosched()
		}
		g.mu.Lock()
	}
	if !begin {
		g.log = append(g.log, jm{"ev": "pend", "row": g.row(fvals)})
	}
	g.mu.Unlock()
	for i := 0; i < g.slow; i++ {
		runtime.Gosched()
	}
}

func (g *gate) take() []jm {
	g.mu.Lock()
	defer g.mu.Unlock()
	l := g.log
	g.log = nil
	return l
}

// poolCall makes a batch call and records what its workers do.
func (c *Ctx) poolCall(h int, api string, R, th, procs int, sched []int, useHook bool) {
	if h == 0 {
		return
	}
	e, m := c.handles[h], c.hsrc[h]
	old := runtime.GOMAXPROCS(procs)
	defer runtime.GOMAXPROCS(old)
	f32 := m.F32()
	G := e.NOutputGroups()
	nf := e.NFeatures()
	w := nf
	if api == "dense" && c.r.Intn(3) == 0 {
		w++
	}
	// rows that differ from one another
	g := &gate{nf: nf, rows: map[string]int{}, sched: sched, off: map[int]bool{}, slow: c.r.Intn(3), last: time.Now()}
	var codes [][]int
	for len(codes) < R {
		row := m.RandRow(c.r, w)
		if m.Kind == "sk" || c.r.Intn(2) == 0 {
			row[c.r.Intn(nf)] = mk(c.r.Intn(4000)-2000, 0)
		}
		d := append([]int{}, row...)
		for i, v := range d {
			if m.Kind != "sk" && c.r.Intn(5) == 0 {
				d[i] = NaNCode
			} else if c.r.Intn(7) == 0 {
				d[i] = 0
			} else {
				d[i] = v
			}
		}
		b := string(bitsOf(decodeRow(d, f32, nil)[:nf]))
		if _, ok := g.rows[b]; ok {
			continue
		}
		g.rows[b] = len(codes)
		codes = append(codes, d)
	}
	n := c.nFor(h)
	need := G * R
	want := make([]float64, need)
	var vals []float64
	for i, d := range codes {
		row := decodeRow(d, f32, nil)
		vals = append(vals, row...)
		if err := e.Predict(row, n, want[i*G:(i+1)*G]); err != nil {
			return // says the trace of another property
		}
	}
	got := make([]float64, need)
	for i := range got {
		got[i] = math.Float64frombits(0x7ff8dead00000000 + uint64(i))
	}
	// sparse form: absent cells hold the default of the format
	def := 0.0
	if m.Kind == "xg" || m.Kind == "dart" {
		def = math.NaN()
	}
	indptr, cols, svals := []int{0}, []int{}, []float64{}
	for i := range codes {
		ord := c.r.Perm(nf)
		for _, j := range ord {
			v := vals[i*w+j]
			if math.Float64bits(v) == math.Float64bits(def) || (math.IsNaN(v) && math.IsNaN(def)) {
				if c.r.Intn(4) > 0 {
					continue
				}
			}
			cols = append(cols, j)
			svals = append(svals, v)
		}
		if c.r.Intn(4) == 0 {
			cols = append(cols, nf+c.r.Intn(3))
			svals = append(svals, 77)
		}
		indptr = append(indptr, len(cols))
	}
	before := runtime.NumGoroutine()
	c.emit(jm{"ev": "pcall", "api": api, "rows": R, "th": th, "procs": procs, "kind": m.Kind, "n": n, "sched": len(sched)})
	if useHook {
		g.last = time.Now()
		useHook = setHook(g.hook)
	}
	ev := jm{"ev": "pret", "wrong": []int{}, "hooked": false}
	seen := 0
	c.op(ev, func() {
		var err error
		if api == "dense" {
			err = e.PredictDense(vals, R, w, got, n, th)
		} else {
			err = e.PredictCSR(indptr, cols, svals, got, n, th)
		}
		// what the caller sees now is what it got
		res := append([]float64{}, got...)
		for _, x := range g.take() {
			seen++
			c.emit(x)
		}
		ev["hooked"] = seen > 0
		ev["res"] = "ok"
		if err != nil {
			ev["res"], ev["why"] = "err", err.Error()
			return
		}
		wrong := []int{}
		for i := 0; i < R; i++ {
			if string(bitsOf(res[i*G:(i+1)*G])) != string(bitsOf(want[i*G:(i+1)*G])) {
				wrong = append(wrong, i)
			}
		}
		ev["wrong"] = wrong
	})
	left := 0
	tries := 400 // two seconds
	if leaked >= 5 {
		tries = 4
	}
	for i := 0; i < tries; i++ {
		left = runtime.NumGoroutine() - before
		if left <= 0 {
			break
		}
		if i > 3 {
			time.Sleep(5 * time.Millisecond)
		} else {
			runtime.Gosched()
		}
	}
	if useHook {
		setHook(nil)
	}
	for _, x := range g.take() {
		c.emit(x)
	}
	if left < 0 {
		left = 0
	}
	if left > 0 {
		leaked++
	}
	c.emit(jm{"ev": "pleft", "left": left})
}

// calls so far that left goroutines behind
var leaked int

type schedCase struct {
	W  int   `json:"w"`
	NB int   `json:"nb"`
	H  []int `json:"h"`
}

// C08: batch calls along the schedules of the generator, and free ones.
func (c *Ctx) pool(part, parts int) {
	B := leaves.BatchSize
	m := c.anyModel()
	h := c.anyHandle(m)
	if h == 0 {
		return
	}
	for i, x := range genCases {
		if i%parts != part {
			continue
		}
		var s schedCase
		must(json.Unmarshal(x, &s))
		R := (s.NB-1)*B + pick(c.r, 1, 2, B/2, B)
		if R <= B {
			R = B + 1
		}
		procs := s.W
		th := s.W
		switch c.r.Intn(4) {
		case 0:
			procs = s.W + 1 + c.r.Intn(3)
		case 1:
			th = pick(c.r, -1, -5, s.W+1, 1000)
		}
		c.poolCall(h, pickStr(c.r, "dense", "csr"), R, th, procs, s.H, true)
	}
	for k := 0; k < 4; k++ {
		R := pick(c.r, 0, 1, B-1, B, B+1, 2*B, 2*B+1, 3*B, 5*B-1, 100, 260)
		c.poolCall(h, pickStr(c.r, "dense", "csr"), R, threadNums[c.r.Intn(len(threadNums))], pick(c.r, 1, 2, 3, 4, 8), nil, c.r.Intn(4) > 0)
	}
}

// races: how many data races of the library the race detector has reported
type raceLog struct{ off int }

func (l *raceLog) count() int {
	name := os.Getenv("VERIF_RACELOG")
	if name == "" {
		return 0
	}
	b, err := os.ReadFile(name + "." + itoa(os.Getpid()))
	if err != nil {
		return 0
	}
	s := string(b[l.off:])
	l.off = len(b)
	n := 0
	for _, rep := range strings.Split(s, "==================") {
		if strings.Contains(rep, "DATA RACE") && strings.Contains(rep, "dmitryikh/leaves") {
			n++
		}
	}
	return n
}

var races raceLog

// raced runs a scenario and records the data races in it.
func raced(s scenario) scenario {
	return func(c *Ctx) {
		s(c)
		c.emit(jm{"ev": "race", "count": races.count()})
	}
}

// C08race: batch calls under the race detector, nothing else synchronising them.
func (c *Ctx) poolRace() {
	B := leaves.BatchSize
	m := c.anyModel()
	h := c.anyHandle(m)
	for k := 0; k < 6; k++ {
		R := pick(c.r, B+1, 2*B, 3*B+1, 5*B, 100)
		c.poolCall(h, pickStr(c.r, "dense", "csr"), R, pick(c.r, 2, 3, 4, -1, 100), pick(c.r, 2, 4, 8), nil, false)
	}
}
