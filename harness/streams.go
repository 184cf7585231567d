package main

import (
	"bufio"
	"bytes"
	"errors"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sync/atomic"
	"time"

	leaves "github.com/dmitryikh/leaves"
)

// cutReader delivers data[:cut] in chunks, then ends or fails.
type cutReader struct {
	data  []byte
	cut   int
	pos   int
	mode  string
	r     *rand.Rand
	fails int
	zeros int
}

var errBroken = errors.New("the wire was cut")

func (c *cutReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if c.pos >= c.cut {
		switch c.mode {
		case "err", "errdata":
			return 0, errBroken
		case "unexpected":
			return 0, io.ErrUnexpectedEOF
		case "once": // fails once, then delivers the rest
			if c.fails == 0 {
				c.fails++
				return 0, errBroken
			}
			n := copy(p, c.data[c.pos:])
			c.pos += n
			if n == 0 {
				return 0, io.EOF
			}
			return n, nil
		}
		return 0, io.EOF
	}
	n := c.cut - c.pos
	if n > len(p) {
		n = len(p)
	}
	switch c.mode {
	case "one":
		n = 1
	case "rand", "smallbuf", "errdata", "once":
		if n > 1 {
			n = 1 + c.r.Intn(n)
			if c.r.Intn(2) == 0 && n > 7 {
				n = 1 + c.r.Intn(7)
			}
		}
	case "zero":
		if c.zeros < 3 && c.r.Intn(2) == 0 {
			c.zeros++
			return 0, nil
		}
		c.zeros = 0
		n = 1 + c.r.Intn(n)
	}
	copy(p, c.data[c.pos:c.pos+n])
	c.pos += n
	if c.pos == c.cut {
		switch c.mode {
		case "dataeof":
			return n, io.EOF
		case "errdata":
			return n, errBroken
		}
	}
	return n, nil
}

// sign is what tells one loaded model from another.
func sign(e *leaves.Ensemble, m *Model, rows [][]float64) string {
	ev := jm{}
	meta(ev, e)
	b := []byte{}
	b = append(b, []byte(joinInts(len(e.NLeaves()), func(i int) string { return itoa(e.NLeaves()[i]) }))...)
	b = append(b, []byte(e.Name()+e.Transformation().Name()+itoa(e.NFeatures())+"/"+itoa(e.NEstimators())+"/"+itoa(e.NOutputGroups()))...)
	views := []*leaves.Ensemble{e}
	if m.Kind != "lin" {
		views = append(views, e.EnsembleWithLeafPredictions())
	}
	for _, v := range views {
		for _, row := range rows {
			out := make([]float64, v.NOutputGroups())
			if err := v.Predict(row, 0, out); err != nil {
				b = append(b, []byte(err.Error())...)
			}
			b = append(b, bitsOf(out)...)
		}
	}
	return string(b)
}

type segment struct {
	Len int  `json:"len"`
	Req bool `json:"req"`
}

// modelFile writes the model and tells which bytes it needs; bounds are the
// places where the stream may end for the loss to be noticed.
func (c *Ctx) modelFile(m *Model, format string, obj string) (data []byte, segs []segment, bounds []int) {
	r := c.r
	if format == "lgtext" {
		lay := randLayout(r)
		lay.Objective = obj
		lines, req := lgLines(lgSections(m, lay, r), lay, r)
		data = joinLines(lines, lay)
		nl := 1
		if lay.CRLF {
			nl = 2
		}
		pos := 0
		bounds = append(bounds, 0)
		for i, l := range lines {
			n := nl
			if i == len(lines)-1 && lay.NoFinal {
				n = 0
			}
			segs = append(segs, segment{len(l), req[i]}, segment{n, false})
			pos += len(l) + n
			bounds = append(bounds, pos)
		}
		return
	}
	switch format {
	case "lgjson":
		data = bytes.TrimRight(lgJSON(m, r), " \n")
	case "skpkl":
		data = skPickle(m, skHead(m, r), randStyle(r), r)
	default:
		data = xgBin(m, xgHead(m, obj), r)
	}
	segs = []segment{{len(data), true}}
	tail := []string{"", "\n", "trailing bytes", "\x00\x00\x00\x00\x00\x00\x00\x01", "{}", ".", "}", "]"}[r.Intn(8)]
	segs = append(segs, segment{len(tail), false})
	data = append(data, tail...)
	for i := 0; i <= len(data); i++ {
		bounds = append(bounds, i)
	}
	return
}

type cutRun struct {
	A    int    `json:"a"`
	B    int    `json:"b"`
	Res  string `json:"res"`
	Same bool   `json:"same"`
	Open int    `json:"open"` // files left open
	Why  string `json:"why,omitempty"`
}

var fileLoaders = map[string]func(string, bool) (*leaves.Ensemble, error){
	"lgtext": leaves.LGEnsembleFromFile,
	"xgbin":  leaves.XGEnsembleFromFile,
	"linbin": leaves.XGBLinearFromFile,
	"skpkl":  leaves.SKEnsembleFromFile,
}

// C15: streams that end or fail everywhere, chunked in every way.
func (c *Ctx) streams() {
	o := c.optsFor(pickStr(c.r, "lg", "lg", "rf", "xg", "dart", "lin", "sk"))
	o.MaxIter, o.MaxLeaves, o.MaxNF, o.MaxK = 2, 4, 3, 2
	o.BigCats = false
	m := RandModel(c.r, o)
	format := m.format()
	if m.Kind == "lg" && !m.Avg && c.r.Intn(2) == 0 {
		format = "lgjson"
	}
	xf, obj := false, ""
	if format != "lgjson" && format != "skpkl" {
		obj = "regression"
		if os := xfObjs(m); len(os) > 0 && c.r.Intn(2) == 0 {
			xf, obj = true, os[c.r.Intn(len(os))]
		}
	}
	data, segs, bounds := c.modelFile(m, format, obj)
	c.src(m)
	c.emit(jm{"ev": "file", "fmt": format, "segs": segs, "xf": xf})
	need, pos := 0, 0
	for _, s := range segs {
		pos += s.Len
		if s.Req && s.Len > 0 {
			need = pos
		}
	}
	var rows [][]float64
	for i := 0; i < 4; i++ {
		rows = append(rows, decodeRow(m.RandRow(c.r, m.NF), m.F32(), nil))
	}
	ref := ""
	whole := []int{len(data)}
	all := []int{}
	for i := 0; i <= len(data); i++ {
		all = append(all, i)
	}
	some := func(cuts []int, k int) []int {
		out := []int{}
		for _, x := range cuts {
			if len(cuts) <= k || c.r.Intn(len(cuts)) < k || (x > need-4 && x < need+3) {
				out = append(out, x)
			}
		}
		return out
	}
	sweep := func(mode string, cuts []int) {
		ev := jm{"ev": "cuts", "fmt": format, "mode": mode, "need": need, "runs": []cutRun{}, "cuts": len(cuts)}
		var runs []cutRun
		c.op(ev, func() {
			for _, cut := range cuts {
				atomic.StoreInt64(&opDeadline, time.Now().Add(opSeconds*time.Second).UnixNano())
				one := jm{}
				same, left := true, 0
				guard(one, func() {
					var e *leaves.Ensemble
					var err error
					if mode == "file" {
						name := filepath.Join(scratch(), "model")
						must(os.WriteFile(name, data[:cut], 0o644))
						open := openFiles()
						e, err = fileLoaders[format](name, xf)
						left = openFiles() - open
						must(os.Remove(name))
					} else {
						var rd io.Reader = &cutReader{data: data, cut: cut, mode: mode, r: c.r}
						if mode == "smallbuf" {
							rd = bufio.NewReaderSize(rd, 16)
						}
						e, err = loader(format, xf)(rd)
					}
					switch {
					case err != nil && e != nil:
						one["res"] = "both"
					case err != nil:
						one["res"] = "err"
						one["why"] = err.Error()
					case e == nil:
						one["res"] = "none"
					default:
						s := sign(e, m, rows)
						if ref == "" {
							ref = s
						}
						same = s == ref
						one["res"] = "ok"
					}
				})
				res := one["res"].(string)
				why := ""
				if res != "ok" && res != "err" {
					why, _ = one["why"].(string)
				}
				if k := len(runs) - 1; k >= 0 && runs[k].Res == res && runs[k].Same == same && runs[k].Open == left && (runs[k].B < need) == (cut < need) {
					runs[k].B = cut
				} else {
					runs = append(runs, cutRun{cut, cut, res, same, left, why})
				}
			}
			ev["runs"] = runs
			ev["res"] = "ok"
		})
	}
	sweep("plain", whole) // the reference
	for _, mode := range []string{"one", "rand", "rand", "zero", "dataeof", "smallbuf"} {
		sweep(mode, whole)
	}
	sweep("eof", some(bounds, 3000))
	sweep("err", some(all, 500))
	sweep("errdata", some(all, 60))
	sweep("unexpected", some(all, 200))
	sweep("once", some(all, 60))
	if fileLoaders[format] != nil {
		sweep("file", some(bounds, 10))
		// no such file; a directory
		for _, name := range []string{"missing", "."} {
			ev := jm{"ev": "cuts", "fmt": format, "mode": "nofile", "runs": []cutRun{}}
			c.op(ev, func() {
				open := openFiles()
				e, err := fileLoaders[format](filepath.Join(scratch(), name), xf)
				ev["res"] = "ok"
				run := cutRun{A: -1, B: -1, Res: "err", Open: openFiles() - open}
				if err == nil {
					run.Res = "ok"
				}
				if (e == nil) == (err == nil) {
					run.Res = "both"
				}
				ev["runs"] = []cutRun{run}
			})
		}
	}
}

// openFiles counts the files that this process has open.
func openFiles() int {
	names, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	return len(names)
}

// openCount is openFiles unless other operations open files at the same time.
func (c *Ctx) openCount() func() int {
	if c.crowded {
		return func() int { return 0 }
	}
	return openFiles
}

var scratchDir string

// scratch is a directory of this run.
func scratch() string {
	if scratchDir == "" {
		scratchDir = *flagOut + ".scratch"
		must(os.MkdirAll(scratchDir, 0o755))
	}
	return scratchDir
}
