package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"math"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"

	"github.com/dmitryikh/leaves/mat"
)

// mcase is a document and a call that reads it, as in spec/MatText.tla.
type mcase struct {
	Fmt   string          `json:"fmt"`
	Dense bool            `json:"dense"`
	Doc   json.RawMessage `json:"doc"`
	Limit int             `json:"limit"`
	Skip  bool            `json:"skip"`
}

const (
	tEmpty = 0
	tBad   = -1
)

// mtok is a token: csv: v is the name of the value, tEmpty or tBad; svm: col too.
type mtok struct{ col, v int }

// names of values and of columns (columns from 1<<30 up are named by number)
type mnames struct {
	mu   sync.Mutex
	vals []float64
	ids  map[uint64]int
	cols map[int]uint64
	rcol map[uint64]int
}

func canon(v float64) uint64 {
	if math.IsNaN(v) {
		return 0x7ff8000000000001
	}
	return math.Float64bits(v)
}

func newNames() *mnames {
	return &mnames{ids: map[uint64]int{}, cols: map[int]uint64{}, rcol: map[uint64]int{}}
}

func (n *mnames) id(v float64) int {
	n.mu.Lock()
	defer n.mu.Unlock()
	k := canon(v)
	if id, ok := n.ids[k]; ok {
		return id
	}
	n.vals = append(n.vals, v)
	n.ids[k] = len(n.vals)
	return len(n.vals)
}

func (n *mnames) val(id int) float64 { return n.vals[id-1] }

func (n *mnames) colID(c uint64) int {
	if c < 1<<30 {
		return int(c)
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	if id, ok := n.rcol[c]; ok {
		return id
	}
	id := 1<<30 + len(n.rcol)
	n.rcol[c] = id
	n.cols[id] = c
	return id
}

func (n *mnames) col(id int) uint64 {
	if c, ok := n.cols[id]; ok {
		return c
	}
	return uint64(id)
}

// foreign gives names to values of a result: unknown ones get fresh names.
func (n *mnames) results(v []float64) []int {
	out := make([]int, len(v))
	for i, x := range v {
		out[i] = n.id(x)
	}
	return out
}

var oddValues = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1.0 / 3, 5e-324, -5e-324, 2.2250738585072014e-308, 2.225073858507201e-308,
	math.MaxFloat64, -math.MaxFloat64, 1e22, 1e23, 9007199254740993, 1e15, 123456789012345680, 0.30000000000000004, 1e-7, 1e21,
	math.Inf(1), math.Inf(-1), 1e-35, 5e-36, math.Pi, 4294967295, 1.7976931348623155e308}

func randValue(r *rand.Rand, nan bool) float64 {
	switch r.Intn(6) {
	case 0:
		return oddValues[r.Intn(len(oddValues))]
	case 1:
		if nan && r.Intn(2) == 0 {
			return math.NaN()
		}
		return float64(r.Intn(2000) - 1000)
	case 2:
		return r.NormFloat64()
	case 3:
		return float64(r.Intn(100)) / 8
	}
	for {
		v := math.Float64frombits(r.Uint64())
		if !math.IsNaN(v) {
			return v
		}
	}
}

// spell writes a number in one of the ways that mean exactly it.
func spell(v float64, r *rand.Rand, avoid string) string {
	for try := 0; ; try++ {
		s := ""
		switch {
		case math.IsNaN(v):
			s = pickStr(r, "nan", "NaN", "NAN")
		case math.IsInf(v, 1):
			s = pickStr(r, "inf", "Inf", "+Inf", "INF", "Infinity", "+infinity")
		case math.IsInf(v, -1):
			s = pickStr(r, "-inf", "-Inf", "-INF", "-Infinity")
		default:
			switch r.Intn(8) {
			case 0:
				s = strconv.FormatFloat(v, 'e', -1, 64)
			case 1:
				s = strconv.FormatFloat(v, 'E', 25, 64)
			case 2:
				s = strconv.FormatFloat(v, 'f', -1, 64)
			case 3:
				s = strconv.FormatFloat(v, 'g', 17, 64)
			case 4:
				s = strconv.FormatFloat(v, 'f', -1, 64)
				if strings.Contains(s, ".") {
					s += strings.Repeat("0", r.Intn(30))
				}
			case 5:
				s = strconv.FormatFloat(math.Abs(v), 'g', -1, 64)
				s = strings.Repeat("0", r.Intn(4)) + s
				if math.Signbit(v) {
					s = "-" + s
				} else if r.Intn(2) == 0 {
					s = "+" + s
				}
			default:
				s = strconv.FormatFloat(v, 'g', -1, 64)
			}
		}
		back, err := strconv.ParseFloat(s, 64)
		must(err)
		if canon(back) != canon(v) {
			panic("harness: spell")
		}
		if avoid == "" || !strings.Contains(s, avoid) {
			return s
		}
		if try > 50 {
			panic("harness: no spelling of " + s + " without " + avoid)
		}
	}
}

var badNumbers = []string{"x", "1.2.3", "1e999", "--1", "0x", "1x", "e", "é", "nan1", ".", "-", "+", "e5", "0x1", "1e", "1e+", "inff", "-nan1", "0..1", "1-2", "٣", "1\x00", "label", "-1e400", "#", "# 1", "//", "?", "NA", "null", "None", "$1", "1%", "1'000", "1,5", "(1)", "[1]", "true", "\"1\""}

func bad(r *rand.Rand, avoid string) string {
	for {
		s := badNumbers[r.Intn(len(badNumbers))]
		if _, err := strconv.ParseFloat(s, 64); err == nil {
			panic("harness: not bad: " + s)
		}
		if avoid == "" || !strings.Contains(s, avoid) {
			return s
		}
	}
}

// no characters of numbers (as written or spelled), none of line ends
var delimiters = []string{",", ";", "\t", " ", "|", "::", ", ", "→", "\u00a0", "\u2003", "\x00", "||", "\v", "\f", " | ", "%v", "%", "%%", "\\t", "\"", "'", "=", "\u0085", "\u2028", "\t\t", " \t", ":", "&", "\xff", "~~~~~~~~", "#", ",,", "q", "*/", "\u00a0,", ", \t"}

// a line whose cells are what it is split into
func (c *Ctx) csvLine(line []int, nm *mnames, delim string, skip bool) string {
	for {
		parts := c.csvCells(line, nm, delim, skip)
		s := strings.Join(parts, delim)
		back := strings.Split(s, delim)
		ok := len(parts) == 0 || len(back) == len(parts)
		for i := range parts {
			ok = ok && parts[i] == back[i]
		}
		if ok {
			return s
		}
	}
}

func (c *Ctx) csvCells(line []int, nm *mnames, delim string, skip bool) []string {
	parts := make([]string, len(line))
	for i, t := range line {
		switch {
		case t == tEmpty:
		case t == tBad:
			parts[i] = bad(c.r, delim)
			// white space is no number and not nothing either (at the ends of lines it does not count)
			if i > 0 && i < len(line)-1 && c.r.Intn(4) == 0 {
				if s := pickStr(c.r, " ", "  ", "\t", "\u00a0", " 1", "1 ", "\t2"); !strings.Contains(s, delim) && !strings.ContainsAny(delim, " \t\u00a0") {
					parts[i] = s
				}
			}
		default:
			parts[i] = spell(nm.val(t), c.r, delim)
		}
		if i == 0 && skip && c.r.Intn(4) == 0 { // the dropped column need not be a number
			if t == tBad || t > 0 && c.r.Intn(2) == 0 {
				parts[i] = bad(c.r, delim)
			}
		}
	}
	return parts
}

var badPairs = []string{"3", "3:", ":4", "a:1", "-1:2", "1:2:3", "1:x", "4294967296:1", "1.0:2", "+1:2", ":", "::", "qid:7", "1:1e999", "99999999999999999999:1", "1;2", "0x1:3", "1_0:3", "1:2,2:3", "１:1", "1e1:2", "1=2", "#", "#1:2", "#comment", "//", "//1:2", "%1:2", ";", "!1:2", "sid:1", "cost:1", "{1:2}", "\"1:2\"", "1:2#", "1:2,", ",", "NA", "1:NA", "1:?", "1:", "1:0x", "1:1:", "-:1", "1:--1"}

func (c *Ctx) svmLine(line []mtok, nm *mnames, skip bool) string {
	parts := make([]string, len(line))
	for i, t := range line {
		switch {
		case t.col == tBad:
			parts[i] = badPairs[c.r.Intn(len(badPairs))]
			if i == 0 && skip {
				parts[i] = pickStr(c.r, "1", "0", "-1", "+1", "0.5", "cat", "3:", "1:2")
			}
		case t.col == tEmpty && t.v == 0:
		default:
			cs := strconv.FormatUint(nm.col(t.col), 10)
			if c.r.Intn(6) == 0 {
				cs = strings.Repeat("0", 1+c.r.Intn(3)) + cs
			}
			parts[i] = cs + ":" + spell(nm.val(t.v), c.r, "")
		}
	}
	return strings.Join(parts, " ")
}

// nothing at the ends of lines may be blank for libsvm: the format has no empty cells
func svmTrim(line []mtok) []mtok {
	e := mtok{}
	for len(line) > 0 && line[0] == e {
		line = line[1:]
	}
	for len(line) > 0 && line[len(line)-1] == e {
		line = line[:len(line)-1]
	}
	return line
}

func denseResult(m *mat.DenseMat, nm *mnames) jm {
	return jm{"rows": m.Rows, "cols": m.Cols, "vals": nm.results(m.Values), "hdr": []int{}, "idx": []int{}}
}

func csrResult(m *mat.CSRMat, nm *mnames) jm {
	idx := make([]int, len(m.ColIndexes))
	for i, x := range m.ColIndexes {
		idx[i] = -7
		if x >= 0 {
			idx[i] = nm.colID(uint64(x))
		}
	}
	hdr := m.RowHeaders
	if hdr == nil {
		hdr = []int{}
	}
	return jm{"rows": m.Rows(), "cols": 0, "vals": nm.results(m.Values), "hdr": hdr, "idx": idx}
}

var noResult = jm{"rows": 0, "cols": 0, "vals": []int{}, "hdr": []int{}, "idx": []int{}}

// readDoc renders the document and reads it.
func (c *Ctx) readDoc(format string, dense bool, csv [][]int, svm [][]mtok, nm *mnames, limit int, skip bool, def int, fail int) {
	r := c.r
	delim := ""
	if format == "csv" {
		delim = delimiters[r.Intn(len(delimiters))]
	}
	n := len(csv) + len(svm)
	nl := pickStr(r, "\n", "\n", "\r\n")
	noFinal := fail == 0 && r.Intn(3) == 0
	var data []byte
	starts := []int{}
	doc := []interface{}{}
	for i := 0; i < n; i++ {
		starts = append(starts, len(data))
		s := ""
		if format == "csv" {
			s = c.csvLine(csv[i], nm, delim, skip)
			doc = append(doc, csv[i])
		} else {
			line := svmTrim(svm[i])
			s = c.svmLine(line, nm, skip)
			x := [][2]int{}
			for _, t := range line {
				x = append(x, [2]int{t.col, t.v})
			}
			doc = append(doc, x)
		}
		if s == "" && r.Intn(3) == 0 { // blank lines may hold white space
			for k := r.Intn(3); k > 0; k-- {
				if w := pickStr(r, " ", "\t", "\u00a0"); !strings.ContainsAny(delim, w) {
					s += w
				}
			}
		}
		data = append(data, s...)
		if i < n-1 || !noFinal {
			data = append(data, nl...)
		}
	}
	starts = append(starts, len(data))
	cut, mode := len(data), pickStr(r, "one", "rand", "zero", "dataeof", "plain")
	if fail > 0 {
		mode = pickStr(r, "err", "errdata", "unexpected", "once")
		if fail <= n {
			cut = starts[fail-1] + r.Intn(starts[fail]-starts[fail-1])
		}
		if cut == 0 && mode == "errdata" {
			mode = "err"
		}
	}
	via := pickStr(r, "reader", "reader", "reader", "reader", "file")
	if fail > 0 || n > 50 {
		via = "reader"
	}
	ev := jm{"ev": "mread", "fmt": format, "dense": dense, "doc": doc, "limit": limit, "skip": skip, "def": def, "fail": fail,
		"via": via, "delim": delim, "m": noResult, "rest": -1, "open": 0}
	if len(data) < 300 {
		ev["text"] = string(data)
	}
	name := ""
	if via == "file" {
		name = filepath.Join(scratch(), "mat"+itoa(int(atomic.AddInt64(&fileNo, 1))))
	}
	small := r.Intn(3) == 0
	r = rand.New(rand.NewSource(r.Int63()))
	openFiles := c.openCount()
	c.op(ev, func() {
		var br *bufio.Reader
		if name != "" {
			defer os.Remove(name)
			must(os.WriteFile(name, data, 0o644))
		} else {
			cr := &cutReader{data: data, cut: cut, mode: mode, r: r}
			br = bufio.NewReader(cr)
			if small {
				br = bufio.NewReaderSize(cr, 16)
			}
		}
		var err error
		isNil := false
		open := openFiles()
		if format == "csv" || dense {
			var m *mat.DenseMat
			dv := 0.0
			if def > 0 {
				dv = nm.val(def)
			}
			switch {
			case format == "csv" && name != "":
				m, err = mat.DenseMatFromCsvFile(name, limit, skip, delim, dv)
			case format == "csv":
				m, err = mat.DenseMatFromCsv(br, limit, skip, delim, dv)
			case name != "":
				m, err = mat.DenseMatFromLibsvmFile(name, limit, skip)
			default:
				m, err = mat.DenseMatFromLibsvm(br, limit, skip)
			}
			isNil = m == nil
			if err == nil && m != nil {
				ev["m"] = denseResult(m, nm)
			}
		} else {
			var m *mat.CSRMat
			if name != "" {
				m, err = mat.CSRMatFromLibsvmFile(name, limit, skip)
			} else {
				m, err = mat.CSRMatFromLibsvm(br, limit, skip)
			}
			isNil = m == nil
			if err == nil && m != nil {
				ev["m"] = csrResult(m, nm)
			}
		}
		ev["open"] = openFiles() - open
		switch {
		case err != nil:
			ev["res"] = "err"
			ev["why"] = err.Error()
		case isNil:
			ev["res"] = "none"
		default:
			ev["res"] = "ok"
			if br != nil && fail == 0 && limit > 0 && limit <= n {
				rest, rerr := io.ReadAll(br)
				must(rerr)
				ev["rest"] = -2
				at := len(data) - len(rest)
				for k := n; k >= 0; k-- { // the last line from which the rest begins
					if starts[k] == at && bytes.Equal(data[at:], rest) {
						ev["rest"] = n - k
						break
					}
				}
				if at == len(data) && n >= limit && len(data) == starts[limit] { // nothing but an empty last line
					ev["rest"] = n - limit
				}
				if ev["m"].(jm)["rows"].(int) < limit { // stopped earlier
					ev["rest"] = -1
				}
			}
		}
	})
}

func (c *Ctx) valPool(nm *mnames, k int, nan bool) []int {
	out := make([]int, k)
	for i := range out {
		out[i] = nm.id(randValue(c.r, nan))
	}
	return out
}

// matGen: documents enumerated by the specification.
func (c *Ctx) matGen(from, to int) {
	for i := from; i < to && i < len(genCases); i++ {
		var k mcase
		must(json.Unmarshal(genCases[i], &k))
		nm := newNames()
		for len(nm.vals) < 2 {
			nm.id(randValue(c.r, true))
		}
		def := 0
		var csv [][]int
		var svm [][]mtok
		n := 0
		if k.Fmt == "csv" {
			def = nm.id(randValue(c.r, true))
			must(json.Unmarshal(k.Doc, &csv))
			n = len(csv)
		} else {
			var x [][][2]int
			must(json.Unmarshal(k.Doc, &x))
			for _, line := range x {
				l := []mtok{}
				for _, t := range line {
					l = append(l, mtok{t[0], t[1]})
				}
				svm = append(svm, l)
			}
			n = len(svm)
		}
		c.readDoc(k.Fmt, k.Dense, csv, svm, nm, k.Limit, k.Skip, def, 0)
		if c.thorough || c.r.Intn(4) == 0 {
			c.readDoc(k.Fmt, k.Dense, csv, svm, nm, k.Limit, k.Skip, def, 1+c.r.Intn(n+1))
		}
	}
}

// matRandom: greater documents.
func (c *Ctx) matRandom(format string) {
	r := c.r
	for rep := 0; rep < 12; rep++ {
		nm := newNames()
		rows, cols := r.Intn(12), 1+r.Intn(6)
		if rep == 11 {
			rows, cols = pick(r, 3, 300, 1000), pick(r, 1, 7)
			if r.Intn(3) == 0 {
				rows, cols = 3, 3000
			}
		}
		pool := c.valPool(nm, 8, true)
		def := nm.id(randValue(r, true))
		dense := format == "csv" || r.Intn(2) == 0
		var csv [][]int
		var svm [][]mtok
		oddity := r.Intn(5) // of the document: 0, 1, 2 none
		at := 0
		if rows > 0 {
			at = r.Intn(rows)
		}
		skip := r.Intn(2) == 0
		for i := 0; i < rows; i++ {
			if format == "csv" {
				line := []int{}
				w := cols
				if oddity == 3 && i == at {
					w = r.Intn(cols + 3)
				}
				for j := 0; j < w; j++ {
					t := pool[r.Intn(len(pool))]
					if r.Intn(4) == 0 && w > 1 {
						t = tEmpty
					}
					line = append(line, t)
				}
				if oddity == 4 && i == at && w > 0 {
					line[r.Intn(w)] = tBad
				}
				csv = append(csv, line)
				continue
			}
			line := []mtok{}
			if skip {
				line = append(line, mtok{tBad, 0})
			}
			w := cols
			if oddity == 3 && i == at || !dense {
				w = r.Intn(cols + 3)
			}
			for j := 0; j < w; j++ {
				t := mtok{j, pool[r.Intn(len(pool))]}
				if !dense {
					t.col = nm.colID(uint64(r.Intn(50)))
					if r.Intn(6) == 0 {
						t.col = nm.colID([]uint64{4294967295, 2147483647, 2147483648, 1 << 30, 4294967294, 100000}[r.Intn(6)])
					}
				}
				line = append(line, t)
				for r.Intn(9) == 0 {
					line = append(line, mtok{})
				}
			}
			if oddity == 4 && i == at && len(line) > 0 {
				line[r.Intn(len(line))] = mtok{tBad, 0}
			}
			svm = append(svm, svmTrim(line))
		}
		limit := pick(r, 0, 0, -1, 1, rows, rows+1, rows-1, r.Intn(rows+2))
		fail := 0
		if r.Intn(3) == 0 {
			fail = 1 + r.Intn(rows+1)
		}
		c.readDoc(format, dense, csv, svm, nm, limit, skip, def, fail)
	}
}

// longLines: tokens and lines longer than any buffer.
func (c *Ctx) longLines(format string) {
	nm := newNames()
	v := nm.id(1.5)
	text := strings.Repeat("0", 70000+c.r.Intn(100000)) + "1.5"
	ev := jm{"ev": "mread", "fmt": format, "dense": true, "limit": 0, "skip": false, "def": v, "fail": 0, "via": "long", "delim": ",", "m": noResult, "rest": -1, "open": 0}
	doc, data := "", ""
	if format == "csv" {
		doc = "[[1,1],[1,1],[1,1]]"
		data = text + ",1.5\n1.5," + text + "\n" + text + ",1.5"
	} else {
		doc = "[[[0,1],[1,1]],[[0,1],[1,1]],[[0,1],[1,1]]]"
		data = "0:" + text + " 1:1.5\n0:1.5 1:" + text + "\n0:" + text + " 1:1.5"
	}
	ev["doc"] = json.RawMessage(doc)
	c.op(ev, func() {
		var m *mat.DenseMat
		var err error
		if format == "csv" {
			m, err = mat.DenseMatFromCsv(bufio.NewReader(strings.NewReader(data)), 0, false, ",", 1.5)
		} else {
			m, err = mat.DenseMatFromLibsvm(bufio.NewReader(strings.NewReader(data)), 0, false)
		}
		if err != nil {
			ev["res"] = "err"
			ev["why"] = "refused"
			return
		}
		ev["m"] = denseResult(m, nm)
		ev["res"] = "ok"
	})
}

type fullWriter struct {
	left int
	once bool // it fails once only
	buf  bytes.Buffer
}

func (w *fullWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		w.buf.Write(p[:w.left])
		n := w.left
		w.left = 0
		if w.once {
			w.left = 1 << 30
		}
		return n, errors.New("the disk is full")
	}
	w.left -= len(p)
	return w.buf.Write(p)
}

// matWrite: writing, and reading back.
func (c *Ctx) matWrite() {
	r := c.r
	nm := newNames()
	rows, cols := 1+r.Intn(5), 1+r.Intn(5)
	if r.Intn(10) == 0 {
		rows, cols = 1+r.Intn(400), 1+r.Intn(40)
	}
	m := mat.DenseMatZero(rows, cols)
	zero := r.Intn(20) == 0
	for i := range m.Values {
		if !zero {
			m.Values[i] = randValue(r, false)
		}
	}
	delim := delimiters[r.Intn(len(delimiters))]
	if delim == "q" && r.Intn(2) == 0 {
		delim = "x"
	}
	vals := nm.results(append([]float64{}, m.Values...))
	if zero {
		vals = make([]int, rows*cols)
		for i := range vals {
			vals[i] = nm.id(0)
		}
	}
	size := 0
	event := func(how string, fails bool, fn func(ev jm) ([]byte, error)) {
		ev := jm{"ev": "mwrite", "how": how, "rows": rows, "cols": cols, "vals": vals, "delim": delim, "fails": fails, "bres": "", "m": noResult, "open": 0}
		openFiles := c.openCount()
		c.op(ev, func() {
			open := openFiles()
			data, err := fn(ev)
			ev["open"] = openFiles() - open
			if err != nil {
				ev["res"] = "err"
				ev["why"] = err.Error()
				return
			}
			ev["res"] = "ok"
			if fails {
				return
			}
			back, err := mat.DenseMatFromCsv(bufio.NewReader(bytes.NewReader(data)), 0, false, delim, 77)
			if err != nil {
				ev["bres"] = "err"
				ev["why"] = err.Error()
				return
			}
			ev["bres"] = "ok"
			ev["m"] = denseResult(back, nm)
		})
	}
	event("str", false, func(ev jm) ([]byte, error) {
		var b bytes.Buffer
		err := m.WriteStr(&b, delim)
		size = b.Len()
		return b.Bytes(), err
	})
	older := r.Intn(2) == 0
	event("file", false, func(ev jm) ([]byte, error) {
		name := filepath.Join(scratch(), "written"+itoa(int(atomic.AddInt64(&fileNo, 1))))
		if older { // over an older, longer file
			must(os.WriteFile(name, bytes.Repeat([]byte("1,2,3\n"), 100), 0o644))
		}
		err := m.ToCsvFile(name, delim)
		data, rerr := os.ReadFile(name)
		if err == nil {
			must(rerr)
		}
		os.Remove(name)
		return data, err
	})
	if size > 0 {
		event("broken", true, func(ev jm) ([]byte, error) {
			left := r.Intn(size)
			if r.Intn(4) == 0 {
				left = size - 1
			}
			return nil, m.WriteStr(&fullWriter{left: left, once: r.Intn(2) == 0}, delim)
		})
	}
	if size > 0 && !c.crowded { // the file system takes no more
		event("full", true, func(ev jm) ([]byte, error) {
			name := filepath.Join(scratch(), "full"+itoa(int(atomic.AddInt64(&fileNo, 1))))
			left := r.Intn(size)
			if r.Intn(3) == 0 {
				left = 0
			}
			defer os.Remove(name)
			defer limitFiles(left)()
			return nil, m.ToCsvFile(name, delim)
		})
	}
	if r.Intn(3) == 0 { // what is no matrix
		odd := m
		if s := oddShapes[r.Intn(len(oddShapes))]; r.Intn(2) == 0 {
			odd = mat.DenseMat{Values: make([]float64, s[2]), Rows: s[0], Cols: s[1]}
		} else if d := r.Intn(3); d == 0 {
			odd.Values = append(odd.Values[:len(odd.Values):len(odd.Values)], 1)
		} else if d == 1 && len(odd.Values) > 0 {
			odd.Values = odd.Values[:len(odd.Values)-1]
		} else {
			odd.Rows += pick(r, -1, 1)
		}
		ev := jm{"ev": "mwrite", "how": "odd", "rows": clip30(odd.Rows), "cols": clip30(odd.Cols), "vals": nm.results(odd.Values), "delim": delim, "fails": false, "bres": "", "m": noResult, "open": 0}
		if odd.Cols > 0 { // (nobody says how many rows without cells are written)
			c.op(ev, func() {
				err := odd.WriteStr(io.Discard, delim)
				if err == nil {
					ev["res"], ev["bres"] = "ok", "ok"
				} else {
					ev["res"] = "err"
				}
			})
		}
	}
	event("nodir", true, func(ev jm) ([]byte, error) {
		return nil, m.ToCsvFile(filepath.Join(scratch(), "no", "such", "dir"), delim)
	})
}

// limitFiles makes every write to a file fail that goes beyond the first n
// bytes, until the function that it returns is called. It stands in for a full
// disk, as /dev/full would, without the name of a device being passed to the
// code under test.
func limitFiles(n int) func() {
	signal.Ignore(syscall.SIGXFSZ)
	var was syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &was))
	now := was
	now.Cur = uint64(n)
	must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &now))
	return func() { must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &was)) }
}

// oddShapes: rows, columns and numbers of values that do not belong together.
var oddShapes = [][3]int{{-1, -3, 3}, {-2, -2, 4}, {-1, 0, 0}, {-1, 2, 0}, {-1, 2, 2}, {1 << 32, 1 << 32, 0}, {1 << 62, 4, 0}, {1<<62 + 1, 4, 4},
	{1 << 61, 8, 0}, {1<<31 + 1, 1 << 33, 0}, {1<<63 - 1, 1<<63 - 1, 1}, {-1 << 63, 2, 0}, {-1 << 63, -1 << 63, 0}, {1<<32 + 1, 1<<32 - 1, 6}, {1 << 32, 3, 3}}

// matArray: conversion of arrays, dense and sparse.
func (c *Ctx) matArray() {
	r := c.r
	nm := newNames()
	rows, cols := r.Intn(6), r.Intn(6)
	if r.Intn(30) == 0 {
		rows, cols = r.Intn(120), r.Intn(9)
		if r.Intn(2) == 0 {
			rows, cols = cols, rows
		}
	}
	n := rows * cols
	if r.Intn(3) == 0 {
		n += pick(r, -1, 1, cols, -cols, rows)
		if n < 0 {
			n = 0
		}
	}
	if r.Intn(4) == 0 { // no shape of any array, and shapes whose product wraps around
		s := oddShapes[r.Intn(len(oddShapes))]
		rows, cols, n = s[0], s[1], s[2]
		if r.Intn(2) == 0 {
			rows, cols = cols, rows
		}
	}
	array := make([]float64, n)
	for i := range array {
		array[i] = randValue(r, true)
		if r.Intn(3) == 0 {
			array[i] = 0
		}
	}
	if r.Intn(8) == 0 && n == rows*cols { // the matrix of zeros is that of an array of zeros
		z := make([]float64, n)
		ev := jm{"ev": "marr", "dense": true, "rows": rows, "cols": cols, "len": n, "vals": nm.results(z), "m": noResult}
		c.op(ev, func() {
			m := mat.DenseMatZero(rows, cols)
			ev["m"], ev["res"] = denseResult(&m, nm), "ok"
		})
	}
	if n == 0 && rows == 0 { // nor does a matrix without anything have rows
		ev := jm{"ev": "marr", "dense": false, "rows": 0, "cols": 0, "len": 0, "vals": []int{}, "m": noResult}
		c.op(ev, func() {
			x := csrResult(&mat.CSRMat{}, nm)
			x["hdr"] = []int{0}
			ev["m"], ev["res"] = x, "ok"
		})
	}
	for _, dense := range []bool{true, false} {
		dense := dense
		ev := jm{"ev": "marr", "dense": dense, "rows": clip30(rows), "cols": clip30(cols), "len": n, "vals": nm.results(array), "m": noResult}
		c.op(ev, func() {
			var err error
			given := append([]float64{}, array...)
			later := func() { // the matrix has values of its own
				for i := range given {
					given[i] = 77
				}
			}
			if dense {
				var m mat.DenseMat
				if m, err = mat.DenseMatFromArray(given, rows, cols); err == nil {
					later()
					ev["m"] = denseResult(&m, nm)
				}
			} else {
				var m mat.CSRMat
				if m, err = mat.CSRMatFromArray(given, rows, cols); err == nil {
					later()
					ev["m"] = csrResult(&m, nm)
				}
			}
			ev["res"] = "ok"
			if err != nil {
				ev["res"] = "err"
			}
		})
	}
}
