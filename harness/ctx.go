package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	leaves "github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/transformation"
)

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

// Ctx records what the implementation does, one JSON object per line.
type Ctx struct {
	out     *bufio.Writer
	f       *os.File
	journal *os.File
	line    int // lines written so far
	r       *rand.Rand
	mu      sync.Mutex

	// of the scenario
	handles  map[int]*leaves.Ensemble
	hsrc     map[int]*Model
	hleaf    map[int]bool
	nextH    int
	srcLine  map[*Model]int
	ids      map[string]int
	thorough bool
	events   int
	// slices that calls share now and then
	reuse             bool
	bufVals, bufPreds []float64
	bufCols, bufPtr   []int
	err               string // text of the last error
	crowded           bool   // operations wait for crowd to run them all at the same time
	queue             []queued
}

type queued struct {
	ev jm
	fn func()
}

const (
	oNaN  = 2000000001
	oPInf = 2000000002
	oNInf = 2000000003
	oBad  = 2000000004
)

func scaled(v float64, sc int) int {
	if math.IsNaN(v) {
		return oNaN
	}
	if math.IsInf(v, 1) {
		return oPInf
	}
	if math.IsInf(v, -1) {
		return oNInf
	}
	x := v * float64(sc)
	q := math.Round(x)
	// scores of averaged models are quotients, all others are exact
	tol := 1e-9 + 1e-15*math.Abs(q)
	if sc == avgScale {
		tol = 1e-6
	}
	if math.Abs(q) > 1.9e9 || math.Abs(x-q) > tol {
		return oBad
	}
	return int(q)
}

func (c *Ctx) emit(ev jm) {
	c.mu.Lock()
	defer c.mu.Unlock()
	b, err := json.Marshal(ev)
	must(err)
	c.out.Write(b)
	c.out.WriteByte('\n')
	c.line++
	c.events++
}

func (c *Ctx) flush() { must(c.out.Flush()) }

// deadline of the running operation (unix nanoseconds), 0 when none runs
var opDeadline int64

const opSeconds = 25

func watchdog() {
	for {
		time.Sleep(200 * time.Millisecond)
		d := atomic.LoadInt64(&opDeadline)
		if d != 0 && time.Now().UnixNano() > d {
			os.Exit(66) // the journal tells which operation hangs
		}
	}
}

// op runs fn, which calls the implementation and fills in ev; a panic is a result.
// The journal keeps the operation under way, in case the process dies of it.
func (c *Ctx) op(ev jm, fn func()) {
	if c.crowded {
		c.queue = append(c.queue, queued{ev, fn})
		return
	}
	c.flush()
	ev["res"] = "pending"
	b, err := json.Marshal(ev)
	must(err)
	must(c.journal.Truncate(0))
	_, err = c.journal.WriteAt(append([]byte("P"), b...), 0)
	must(err)
	atomic.StoreInt64(&opDeadline, time.Now().Add(opSeconds*time.Second).UnixNano())
	guard(ev, fn)
	atomic.StoreInt64(&opDeadline, 0)
	// done; but goroutines that it left behind may still kill the process
	_, err = c.journal.WriteAt([]byte("D"), 0)
	must(err)
	c.emit(ev)
}

// crowd runs the operations that prepare asks for, all at the same time.
func (c *Ctx) crowd(prepare func()) {
	c.crowded = true
	prepare()
	c.crowded = false
	q := c.queue
	c.queue = nil
	ev := jm{"ev": "crowd"}
	c.op(ev, func() {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for _, x := range q {
			wg.Add(1)
			go func(x queued) {
				defer wg.Done()
				<-start
				guard(x.ev, x.fn)
			}(x)
		}
		close(start)
		wg.Wait()
		ev["res"] = "ok"
	})
	for _, x := range q {
		c.emit(x.ev)
	}
}

func guard(ev jm, fn func()) {
	defer func() {
		if p := recover(); p != nil {
			s := fmt.Sprint(p)
			if len(s) > 9 && s[:9] == "harness: " {
				panic(p)
			}
			ev["res"] = "panic"
			ev["why"] = s
		}
	}()
	fn()
}

func (c *Ctx) intern(b []byte) int {
	s := string(b)
	c.mu.Lock()
	defer c.mu.Unlock()
	if id, ok := c.ids[s]; ok {
		return id
	}
	id := len(c.ids) + 1
	c.ids[s] = id
	return id
}

func bitsOf(v []float64) []byte {
	b := make([]byte, 0, 8*len(v))
	for _, x := range v {
		u := math.Float64bits(x)
		if math.IsNaN(x) {
			u = 0x7ff8000000000001 // NaN payloads are not results
		}
		for i := 0; i < 8; i++ {
			b = append(b, byte(u>>(8*uint(i))))
		}
	}
	return b
}

// scn starts a scenario.
func (c *Ctx) scn(name string, extra jm) {
	c.handles = map[int]*leaves.Ensemble{}
	c.hsrc = map[int]*Model{}
	c.hleaf = map[int]bool{}
	c.nextH = 0
	c.srcLine = map[*Model]int{}
	c.ids = map[string]int{}
	ev := jm{"ev": "scn", "name": name}
	for k, v := range extra {
		ev[k] = v
	}
	c.emit(ev)
}

// src records a source model; returns its line.
func (c *Ctx) src(m *Model) int {
	if l, ok := c.srcLine[m]; ok {
		return l
	}
	c.emit(jm{"ev": "src", "m": m})
	c.srcLine[m] = c.line
	return c.line
}

// trunc records the truncation of m to n iterations.
func (c *Ctx) trunc(m *Model, n int) *Model {
	t := m.Trunc(n)
	t.TruncOf = c.src(m)
	t.TruncN = n
	c.src(t)
	return t
}

// meta reads everything an ensemble tells about itself.
func meta(ev jm, e *leaves.Ensemble) {
	ev["name"] = e.Name()
	ev["nf"] = e.NFeatures()
	ev["ne"] = e.NEstimators()
	ev["nrg"] = e.NRawOutputGroups()
	ev["nog"] = e.NOutputGroups()
	ev["tt"] = int(e.Transformation().Type())
	ev["tn"] = e.Transformation().Name()
	ev["tog"] = e.Transformation().NOutputGroups()
	nl := e.NLeaves()
	if nl == nil {
		nl = []int{}
	}
	ev["nl"] = append([]int{}, nl...)
	for i := range nl { // what was returned is the caller's
		nl[i] = -7 - i
	}
}

func noMeta(ev jm) {
	ev["name"], ev["nf"], ev["ne"], ev["nrg"], ev["nog"], ev["tt"], ev["tn"], ev["tog"], ev["nl"] = "", 0, 0, 0, 0, 0, "", 0, []int{}
}

type loadFn func(r io.Reader) (*leaves.Ensemble, error)

func loader(fmtName string, xf bool) loadFn {
	return func(r io.Reader) (*leaves.Ensemble, error) {
		br, ok := r.(*bufio.Reader)
		if !ok {
			br = bufio.NewReader(r)
		}
		switch fmtName {
		case "lgtext":
			return leaves.LGEnsembleFromReader(br, xf)
		case "lgjson":
			return leaves.LGEnsembleFromJSON(r, xf)
		case "xgbin":
			return leaves.XGEnsembleFromReader(br, xf)
		case "linbin":
			return leaves.XGBLinearFromReader(br, xf)
		case "skpkl":
			return leaves.SKEnsembleFromReader(br, xf)
		}
		panic("harness: format " + fmtName)
	}
}

// via picks a way to have the bytes loaded: from a reader or from a file.
func (c *Ctx) via(format string, xf bool, data []byte) func() (*leaves.Ensemble, error) {
	fl := fileLoaders[format]
	switch k := c.r.Intn(10); {
	case k < 2 && fl != nil:
		return func() (*leaves.Ensemble, error) {
			name := filepath.Join(scratch(), "m"+itoa(int(atomic.AddInt64(&fileNo, 1))))
			must(os.WriteFile(name, data, 0o644))
			defer os.Remove(name)
			return fl(name, xf)
		}
	case k == 2:
		return func() (*leaves.Ensemble, error) {
			return loader(format, xf)(bufio.NewReaderSize(bytes.NewReader(data), 16))
		}
	}
	return func() (*leaves.Ensemble, error) { return loader(format, xf)(bytes.NewReader(data)) }
}

var fileNo int64

// load loads the bytes as the model m; obj is the objective name the file gives.
// Returns the handle, 0 if it did not load.
func (c *Ctx) load(m *Model, format string, xf bool, obj string, data []byte) int {
	ev := jm{"ev": "load", "src": c.src(m), "fmt": format, "xf": xf, "obj": obj}
	noMeta(ev)
	c.nextH++
	h := c.nextH
	ev["h"] = h
	read := c.via(format, xf, data)
	c.op(ev, func() {
		e, err := read()
		if err != nil {
			ev["res"] = "err"
			ev["why"] = err.Error()
			if e != nil {
				ev["res"] = "both"
			}
			return
		}
		if e == nil {
			ev["res"] = "none"
			return
		}
		meta(ev, e)
		ev["res"] = "ok"
		c.handles[h] = e
		c.hsrc[h] = m
	})
	if c.handles[h] == nil {
		return 0
	}
	return h
}

// view makes a view of a handle.
func (c *Ctx) view(from int, kind string) int {
	if from == 0 {
		return 0
	}
	c.nextH++
	h := c.nextH
	ev := jm{"ev": "view", "h": h, "from": from, "kind": kind}
	noMeta(ev)
	c.op(ev, func() {
		var e *leaves.Ensemble
		if kind == "raw" {
			e = c.handles[from].EnsembleWithRawPredictions()
		} else {
			e = c.handles[from].EnsembleWithLeafPredictions()
		}
		meta(ev, e)
		ev["res"] = "ok"
		c.handles[h] = e
		c.hsrc[h] = c.hsrc[from]
		c.hleaf[h] = kind == "leaf"
	})
	if c.handles[h] == nil {
		return 0
	}
	return h
}

// meta reads the accessors again.
func (c *Ctx) meta(h int) {
	if h == 0 {
		return
	}
	ev := jm{"ev": "meta", "h": h}
	noMeta(ev)
	c.op(ev, func() {
		meta(ev, c.handles[h])
		ev["res"] = "ok"
	})
}

// Call is one prediction call.
type Call struct {
	H     int
	API   string // single, predict, dense, csr
	N, Th int
	Rows  [][]int    // dense rows (codes); for csr unused
	CSR   [][][2]int // rows of (column, code)
	NCols int
	DPlen int  // difference of the output length from what is needed
	DVlen int  // difference of the number of dense values from rows*ncols
	Off   int  // csr: entries before the first row's
	Pre   int  // prefill: 0 random numbers, 1 NaN with payload, 2 zeros, 3 Inf
	Quiet bool // do not log outs (only identities)
	Huge  bool // dense: NRows is the number of rows to ask for, whatever rows there are
	NRows int
}

func (c *Ctx) needed(h, rows int) int {
	n := c.handles[h].NOutputGroups() * rows
	return n
}

const absurdNF = 1 << 22

// clip30: numbers of estimators are only beyond everything from there on
func clip30(n int) int {
	if n > 1<<30 {
		return 1 << 30
	}
	if n < -(1 << 30) {
		return -(1 << 30)
	}
	return n
}

// pred makes the call and records it.
func (c *Ctx) pred(k Call) jm {
	c.reuse = c.r.Intn(3) == 0
	ev, fn := c.predPrep(k)
	c.reuse = false
	if ev == nil {
		return nil
	}
	c.op(ev, fn)
	return ev
}

func (c *Ctx) predPrep(k Call) (jm, func()) {
	if k.H == 0 {
		return nil, nil
	}
	e := c.handles[k.H]
	m := c.hsrc[k.H]
	f32 := m.F32()
	rows := len(k.Rows)
	if k.API == "csr" {
		rows = len(k.CSR)
	}
	G := e.NOutputGroups()
	plen := G*rows + k.DPlen
	if plen < 0 {
		plen = 0
	}
	ev := jm{"ev": "pred", "h": k.H, "api": k.API, "n": clip30(k.N), "th": k.Th, "ncols": k.NCols, "plen": plen, "outs": []int{}, "ids": []int{},
		"lo": []int{}, "hi": []int{}, "sum1": true, "zero": true, "tail": true, "same": true, "inp": true, "vlen": 0, "nrows": rows}
	if k.Huge {
		ev["nrows"], ev["ncols"] = clip30(k.NRows), clip30(k.NCols)
		rows = 0 // served only if there are none
	}
	preds := make([]float64, plen)
	for i := range preds {
		switch k.Pre {
		case 0:
			preds[i] = 1000 + float64(i)*0.37
		case 1:
			preds[i] = math.Float64frombits(0x7ff8dead00000000 + uint64(i))
		case 2:
			preds[i] = 0
		default:
			preds[i] = math.Inf(1 - 2*(i%2))
		}
	}
	before := append([]float64{}, preds...)
	var vals []float64
	var cols, indptr []int
	switch k.API {
	case "single", "predict":
		vals = decodeRow(k.Rows[0], f32, c.r)
		m.rescale(vals)
		ev["rows"] = k.Rows
		ev["vlen"] = len(vals)
	case "dense", "each":
		for _, row := range k.Rows {
			one := decodeRow(row, f32, c.r)
			m.rescale(one)
			vals = append(vals, one...)
		}
		for i := 0; i < k.DVlen; i++ {
			vals = append(vals, 7)
		}
		if k.DVlen < 0 {
			vals = vals[:len(vals)+k.DVlen]
		}
		ev["rows"] = k.Rows
		if k.Rows == nil {
			ev["rows"] = [][]int{}
		}
		ev["vlen"] = len(vals)
	case "csr":
		for i := 0; i < k.Off; i++ {
			cols = append(cols, 0)
			vals = append(vals, 12345)
		}
		indptr = []int{len(cols)}
		for _, row := range k.CSR {
			for _, p := range row {
				cols = append(cols, p[0])
				v := decode(p[1], f32)
				if p[0] < len(m.exp) {
					v = math.Ldexp(v, m.exp[p[0]])
				}
				vals = append(vals, v)
			}
			indptr = append(indptr, len(cols))
		}
		if k.Off > 0 { // and entries after the last row's
			cols = append(cols, 0)
			vals = append(vals, 54321)
		}
		x := make([][][2]int, len(k.CSR))
		for i, row := range k.CSR {
			x[i] = append([][2]int{}, row...)
		}
		ev["csr"] = x
		ev["vlen"] = len(vals)
	}
	// slices with spare capacity: writes beyond their length are seen too
	vals = append(vals, 111, 222)[:len(vals)]
	preds = append(preds, 333, 444, 555)[:len(preds)]
	spare := append([]float64{}, preds[:cap(preds)]...)
	vb := bitsRaw(vals[:cap(vals)])
	if c.reuse { // the slices of earlier calls, with other contents
		vals = again(&c.bufVals, vals)
		preds = again(&c.bufPreds, preds)
		cols, indptr = again(&c.bufCols, cols), again(&c.bufPtr, indptr)
	}
	ib, cb := fmt.Sprint(indptr), fmt.Sprint(cols)
	fn := func() {
		var err error
		switch k.API {
		case "single":
			v := e.PredictSingle(vals, k.N)
			ev["zero"] = v == 0
			preds = []float64{v}
			before = []float64{math.Float64frombits(0x7ff8dead0000beef)}
			spare = nil
		case "predict":
			err = e.Predict(vals, k.N, preds)
		case "each":
			w := len(k.Rows[0])
			for i := 0; i < rows && err == nil; i++ {
				err = e.Predict(vals[i*w:(i+1)*w], k.N, preds[i*G:(i+1)*G])
			}
		case "dense":
			n := rows
			if k.Huge {
				n = k.NRows
			}
			err = e.PredictDense(vals, n, k.NCols, preds, k.N, k.Th)
		case "csr":
			err = e.PredictCSR(indptr, cols, vals, preds, k.N, k.Th)
		}
		if bytes.Equal(vb, bitsRaw(vals[:cap(vals)])) && ib == fmt.Sprint(indptr) && cb == fmt.Sprint(cols) {
			ev["inp"] = true
		} else {
			ev["inp"] = false
		}
		if spare != nil {
			full := preds[:cap(preds)]
			for i := range full {
				if math.Float64bits(full[i]) != math.Float64bits(spare[i]) {
					if i >= G*rows {
						ev["tail"] = false
					}
					ev["same"] = false
				}
			}
		}
		_ = before
		if err != nil {
			ev["res"] = "err"
			ev["why"] = err.Error()
			return
		}
		ev["res"] = "ok"
		need := G * rows
		if k.API == "single" {
			need = 1
		}
		if len(preds) < need {
			return
		}
		c.results(ev, e, m, preds[:need], need, k)
	}
	return ev, fn
}

// again puts v, with its spare capacity, where buf is, if it fits.
func again[T int | float64](buf *[]T, v []T) []T {
	if cap(v) > 1<<16 {
		return v
	}
	if cap(*buf) == 0 {
		*buf = make([]T, 1<<16)
	}
	copy((*buf)[:cap(v)], v[:cap(v)])
	return (*buf)[:len(v):cap(v)]
}

func bitsRaw(v []float64) []byte {
	b := make([]byte, 0, 8*len(v))
	for _, x := range v {
		u := math.Float64bits(x)
		for i := 0; i < 8; i++ {
			b = append(b, byte(u>>(8*uint(i))))
		}
	}
	return b
}

// results records the cells: as scaled integers, as identities of each row's
// bits, and for transformed cells as the interval of raw scores they stand for.
func (c *Ctx) results(ev jm, e *leaves.Ensemble, m *Model, cells []float64, need int, k Call) {
	G := e.NOutputGroups()
	if k.API == "single" {
		G = 1
	}
	rows := 0
	if G > 0 {
		rows = need / G
	}
	ids := make([]int, rows)
	for i := range ids {
		ids[i] = c.intern(bitsOf(cells[i*G : (i+1)*G]))
	}
	ev["ids"] = ids
	t := e.Transformation().Type()
	sc := m.Sc
	if t == transformation.LeafIndex {
		sc = 1
	}
	if t == transformation.Raw || t == transformation.LeafIndex {
		if !k.Quiet {
			outs := make([]int, need)
			for i := range outs {
				outs[i] = scaled(cells[i], sc)
			}
			ev["outs"] = outs
		}
		return
	}
	inverse(ev, t, cells[:rows*G], G, sc)
}

// inverse records the intervals of raw scores that transformed rows stand for.
func inverse(ev jm, t transformation.TransformType, cells []float64, G, sc int) {
	lo, hi := make([]int, len(cells)), make([]int, len(cells))
	ok := true
	for i := 0; G > 0 && i < len(cells)/G; i++ {
		row := cells[i*G : (i+1)*G]
		switch {
		case t == transformation.Logistic:
			for j, p := range row {
				lo[i*G+j], hi[i*G+j] = invLogistic(p, sc)
				ok = ok && p >= 0 && p <= 1
			}
		case t == transformation.Exponential:
			for j, p := range row {
				lo[i*G+j], hi[i*G+j] = invExp(p, sc)
				ok = ok && p >= 0
			}
		case t == transformation.Softmax:
			s, top := 0.0, 0.0
			for _, p := range row {
				s += p
				top = math.Max(top, p)
				ok = ok && p >= 0 && p <= 1
			}
			ok = ok && math.Abs(s-1) < 1e-12
			for j, p := range row { // difference to the greatest
				if p < 1e-300 { // the division may have taken the last digits
					lo[i*G+j], hi[i*G+j] = -invCap, -690*sc
					continue
				}
				lo[i*G+j], hi[i*G+j] = invExp(p/top, sc)
			}
		default:
			ok = false
		}
	}
	ev["sum1"] = ok
	ev["lo"] = lo
	ev["hi"] = hi
}

// applied: a transformation of the package used on its own.
func (c *Ctx) applied() {
	g := 1 + c.r.Intn(6)
	var tr transformation.Transform
	var t int
	switch c.r.Intn(5) {
	case 0:
		tr, t = &transformation.TransformRaw{NumOutputGroups: g}, 0
	case 1:
		tr, t, g = &transformation.TransformLogistic{}, 1, 1
	case 2:
		tr, t = &transformation.TransformSoftmax{NClasses: g}, 2
	case 3:
		tr, t = &transformation.TransformLeafIndex{NumOutputGroups: g}, 3
	default:
		tr, t, g = &transformation.TransformExponential{}, 4, 1
	}
	n := g
	if c.r.Intn(4) == 0 && t != 0 && t != 3 {
		n = pick(c.r, 0, g-1, g+1, 2*g, g+5)
	}
	const sc = 8
	codes, raw := make([]int, n), make([]float64, n)
	spread := pick(c.r, 3, 40, 700, 1200)
	for i := range raw {
		codes[i] = (c.r.Intn(2*spread+1)-spread)*sc + c.r.Intn(sc)
		if t == 3 {
			codes[i] = sc * c.r.Intn(300)
		}
		raw[i] = float64(codes[i]) / sc
	}
	start := pick(c.r, 0, 0, 1, 2, g, 3*g, 17)
	out := make([]float64, start+g+pick(c.r, 0, 1, g, 9))
	for i := range out {
		out[i] = c.r.NormFloat64()
	}
	old := append([]float64{}, out...)
	ev := jm{"ev": "tf", "t": t, "g": g, "raw": codes, "tt": -1, "tn": "", "ng": 0, "keep": false, "same": false,
		"inp": false, "outs": []int{}, "lo": []int{}, "hi": []int{}, "sum1": false}
	c.op(ev, func() {
		ev["tt"], ev["tn"], ev["ng"] = int(tr.Type()), tr.Name(), tr.NOutputGroups()
		err := tr.Transform(raw, out, start)
		same := func(from, to int) bool {
			for i := from; i < to; i++ {
				if math.Float64bits(out[i]) != math.Float64bits(old[i]) {
					return false
				}
			}
			return true
		}
		ev["keep"] = same(0, start) && same(start+g, len(out))
		ev["same"] = same(0, len(out))
		inp := true
		for i := range raw {
			inp = inp && raw[i] == float64(codes[i])/sc
		}
		ev["inp"] = inp
		if err != nil {
			ev["res"], ev["why"] = "err", err.Error()
			return
		}
		ev["res"] = "ok"
		cells := out[start : start+g]
		if t == 0 || t == 3 {
			outs := make([]int, g)
			for i := range outs {
				outs[i] = scaled(cells[i], sc)
			}
			ev["outs"] = outs
			return
		}
		inverse(ev, transformation.TransformType(t), cells, g, sc)
	})
	if c.r.Intn(8) == 0 {
		names := []string{}
		for i := -3; i <= 9; i++ {
			names = append(names, transformation.TransformType(i).Name())
		}
		c.emit(jm{"ev": "tnames", "from": -3, "names": names})
	}
}

const invCap = 1900000000

func toInterval(lo, hi float64, sc int) (int, int) {
	f := func(v, def float64) float64 {
		if math.IsNaN(v) {
			return def
		}
		return math.Max(-invCap, math.Min(invCap, v*float64(sc)))
	}
	return int(math.Ceil(f(lo, invCap) - 1e-8)), int(math.Floor(f(hi, -invCap) + 1e-8))
}

// invLogistic: the raw scores for which the logistic function gives p, give or
// take rounding errors: of a few units in the last place of p near one, of a
// few 1e-13ths of p elsewhere.
func invLogistic(p float64, sc int) (int, int) {
	if math.IsNaN(p) || p < 0 || p > 1 {
		return invCap, -invCap
	}
	lo, hi := math.Inf(-1), math.Inf(1)
	d := p * 1e-13
	if p > 0.5 {
		d = 5e-16
	}
	switch {
	case p == 0: // under the least number, or exp(-raw) over the greatest
		hi = -708.5
	case p < 2.3e-308: // few digits left
		lo, hi = -746, -707.5
	default:
		lo = math.Log(p-d) - math.Log1p(-(p - d))
		if p+d < 1 {
			hi = math.Log(p+d) - math.Log1p(-(p + d))
		}
	}
	return toInterval(lo-1e-12, hi+1e-12, sc)
}

func invExp(p float64, sc int) (int, int) {
	if math.IsNaN(p) || p < 0 {
		return invCap, -invCap
	}
	lo, hi := math.Inf(-1), math.Inf(1)
	switch {
	case p == 0:
		hi = -744
	case p < 2.3e-308:
		lo, hi = -746, -707.5
	case math.IsInf(p, 1):
		lo = 709.5
	default:
		lo, hi = math.Log(p)-1e-12, math.Log(p)+1e-12
	}
	return toInterval(lo, hi, sc)
}

func sortedKeys(m map[int]bool) []int {
	k := []int{}
	for x := range m {
		k = append(k, x)
	}
	sort.Ints(k)
	return k
}
