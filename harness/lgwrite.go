package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
)

// Section of a LightGBM text file: lines, and which of them the model cannot do without.
type Section struct {
	Lines []string
	Req   []bool
}

func (s *Section) add(req bool, f string, a ...interface{}) {
	s.Lines = append(s.Lines, fmt.Sprintf(f, a...))
	s.Req = append(s.Req, req)
}

// LGLayout are the freedoms of the text form.
type LGLayout struct {
	Version   string
	Shuffle   bool // order of the fields in a section
	Unknown   bool // extra fields
	CRLF      bool
	Blanks    int // blank lines between sections: 1 + up to this many
	Trailer   int // 0 none, 1 the usual trailer, 2 garbage
	EqNames   bool
	NoFinal   bool // no end of line after the last line
	Objective string
}

// fstr spells a number; LightGBM's own spelling is %.17g.
func fstr(v float64, r *rand.Rand) string {
	switch a := math.Abs(v); {
	case r.Intn(3) == 0:
		return strconv.FormatFloat(v, 'g', 17, 64)
	case r.Intn(8) == 0 && a < 1e300:
		return strconv.FormatFloat(v, 'e', 16+r.Intn(3), 64)
	case r.Intn(8) == 0 && a < 1e15 && (a > 1e-5 || a == 0):
		return strconv.FormatFloat(v, 'f', -1, 64)
	case r.Intn(16) == 0 && a < 1e15 && a > 1e-5:
		return strconv.FormatFloat(v, 'f', 25, 64)
	}
	return strconv.FormatFloat(v, 'g', -1, 64)
}

func eighths(v int) float64 { return float64(v) / 8 }

func bitset(set []int, extra int) []uint32 {
	n := set[len(set)-1]/32 + 1 + extra
	w := make([]uint32, n)
	for _, v := range set {
		w[v/32] |= 1 << uint(v%32)
	}
	return w
}

// lgStat is a statistic, which no score depends on.
func lgStat(r *rand.Rand) string {
	return pickStr(r, "0", "0", "1.5", "-2", "1e+300", "0.1", "4.25e-7", "12")
}

func joinInts(n int, f func(i int) string) string {
	s := make([]string, n)
	for i := range s {
		s[i] = f(i)
	}
	return strings.Join(s, " ")
}

// lgSections writes the model as the sections of a text file.
// named: how many of the features are named (not all of millions)
func named(nf int) int {
	if nf > 1000000 {
		return 1000
	}
	return nf
}

func lgSections(m *Model, lay LGLayout, r *rand.Rand) []Section {
	var hdr Section
	stat := func(int) string { return lgStat(r) }
	count := func(int) string { return strconv.Itoa(pick(r, 0, 1, 3, r.Intn(100000))) }
	nf := named(m.NF)
	names := func() string {
		return joinInts(nf, func(i int) string {
			if lay.EqNames && i%2 == 0 {
				return fmt.Sprintf("f=%d", i)
			}
			return fmt.Sprintf("Column_%d", i)
		})
	}
	hdr.add(true, "version=%s", lay.Version)
	hdr.add(true, "num_class=%d", m.K)
	hdr.add(true, "num_tree_per_iteration=%d", m.K)
	hdr.add(false, "label_index=0")
	hdr.add(true, "max_feature_idx=%d", m.NF-1)
	if lay.Objective != "" {
		hdr.add(true, "objective=%s", lay.Objective)
	}
	if m.Avg {
		hdr.add(true, "average_output")
	}
	hdr.add(false, "feature_names=%s", names())
	hdr.add(false, "feature_infos=%s", joinInts(nf, func(i int) string { return pickStr(r, "[-1:1]", "[0:0]", "none", "1:0:7:-1", "[-0.5:1e+300]") }))
	hdr.add(true, "tree_sizes=%s", joinInts(len(m.Trees), func(i int) string { return strconv.Itoa(300 + i) }))
	if lay.Unknown {
		hdr.add(false, "monotone_constraints=%s", joinInts(nf, func(i int) string { return "0" }))
		hdr.add(false, "something_else")
	}
	shuffleSection(&hdr, lay, r)
	hdr.Lines = append([]string{"tree"}, hdr.Lines...)
	hdr.Req = append([]bool{false}, hdr.Req...)
	secs := []Section{hdr}
	for ti, t := range m.Trees {
		var s Section
		n := len(t.N)
		ncat := 0
		cats := make([]int, n)
		for i, nd := range t.N {
			if nd.K == "c" {
				cats[i] = ncat
				ncat++
			}
		}
		// numbers of the categorical splits are free
		perm := r.Perm(ncat)
		byCat := make([]int, ncat)
		for i, nd := range t.N {
			if nd.K == "c" {
				cats[i] = perm[cats[i]]
				byCat[cats[i]] = i
			}
		}
		s.add(true, "num_leaves=%d", len(t.V))
		s.add(true, "num_cat=%d", ncat)
		some := n > 0
		if some || r.Intn(2) == 0 {
			s.add(some, "split_feature=%s", joinInts(n, func(i int) string { return strconv.Itoa(t.N[i].F) }))
			s.add(false, "split_gain=%s", joinInts(n, stat))
			s.add(some, "threshold=%s", joinInts(n, func(i int) string {
				if t.N[i].K == "c" {
					return strconv.Itoa(cats[i])
				}
				return fstr(decode(t.N[i].T, false), r)
			}))
			s.add(some, "decision_type=%s", joinInts(n, func(i int) string {
				d := t.N[i].Miss << 2
				if t.N[i].K == "c" {
					d |= 1
				}
				if t.N[i].DL {
					d |= 2
				}
				return strconv.Itoa(d)
			}))
			s.add(some, "left_child=%s", joinInts(n, func(i int) string { return strconv.Itoa(t.N[i].L) }))
			s.add(some, "right_child=%s", joinInts(n, func(i int) string { return strconv.Itoa(t.N[i].R) }))
		}
		s.add(true, "leaf_value=%s", joinInts(len(t.V), func(i int) string { return fstr(eighths(t.V[i]), r) }))
		if r.Intn(2) == 0 {
			s.add(false, "leaf_weight=%s", joinInts(len(t.V), stat))
			s.add(false, "leaf_count=%s", joinInts(len(t.V), count))
			s.add(false, "internal_value=%s", joinInts(n, stat))
			s.add(false, "internal_weight=%s", joinInts(n, stat))
			s.add(false, "internal_count=%s", joinInts(n, count))
		}
		if ncat > 0 {
			bounds := []string{"0"}
			words := []string{}
			for c := 0; c < ncat; c++ {
				nd := t.N[byCat[c]]
				for _, w := range bitset(nd.Set, t.extraWords) {
					words = append(words, strconv.FormatUint(uint64(w), 10))
				}
				bounds = append(bounds, strconv.Itoa(len(words)))
			}
			s.add(true, "cat_boundaries=%s", strings.Join(bounds, " "))
			s.add(true, "cat_threshold=%s", strings.Join(words, " "))
		}
		s.add(false, "shrinkage=%s", pickStr(r, "1", "1", "0.1", "2.5", "0", "0.05", "10", "-1", "1e-3", "nan"))
		if lay.Unknown {
			s.add(false, "is_linear=0")
			s.add(false, "whatever=a=b c")
		}
		shuffleSection(&s, lay, r)
		s.Lines = append([]string{fmt.Sprintf("Tree=%d", ti)}, s.Lines...)
		s.Req = append([]bool{false}, s.Req...)
		secs = append(secs, s)
	}
	return secs
}

func shuffleSection(s *Section, lay LGLayout, r *rand.Rand) {
	if lay.Shuffle {
		r.Shuffle(len(s.Lines), func(i, j int) {
			s.Lines[i], s.Lines[j] = s.Lines[j], s.Lines[i]
			s.Req[i], s.Req[j] = s.Req[j], s.Req[i]
		})
	}
}

// lgLines flattens the sections to lines (without line ends); the second result
// gives for each line 0, or 1 when the model needs it.
func lgLines(secs []Section, lay LGLayout, r *rand.Rand) (lines []string, req []bool) {
	blank := func(k int) {
		for i := 0; i < k; i++ {
			b := ""
			if lay.Unknown && r.Intn(4) == 0 {
				b = "  "
			}
			lines = append(lines, b)
			req = append(req, false)
		}
	}
	for i, s := range secs {
		if i > 0 {
			blank(1 + r.Intn(lay.Blanks+1))
		} else if lay.Blanks > 1 && r.Intn(4) == 0 {
			blank(1 + r.Intn(lay.Blanks))
		}
		lines = append(lines, s.Lines...)
		req = append(req, s.Req...)
	}
	switch lay.Trailer {
	case 1:
		blank(2)
		for _, l := range []string{"feature importances:", "Column_0=3", "", "parameters:", "[boosting: gbdt]", "end of parameters"} {
			lines = append(lines, l)
			req = append(req, false)
		}
	case 2:
		blank(1)
		lines = append(lines, "\x00\xff garbage = = =", "Tree=99", "num_leaves=0")
		req = append(req, false, false, false)
	}
	return
}

func joinLines(lines []string, lay LGLayout) []byte {
	end := "\n"
	if lay.CRLF {
		end = "\r\n"
	}
	s := strings.Join(lines, end)
	if !lay.NoFinal {
		s += end
	}
	return []byte(s)
}

func lgText(m *Model, lay LGLayout, r *rand.Rand) []byte {
	lines, _ := lgLines(lgSections(m, lay, r), lay, r)
	return joinLines(lines, lay)
}

func plainLayout() LGLayout { return LGLayout{Version: "v3", Trailer: 1} }

func randLayout(r *rand.Rand) LGLayout {
	return LGLayout{
		Version: []string{"v2", "v3"}[r.Intn(2)],
		Shuffle: r.Intn(2) == 0, Unknown: r.Intn(2) == 0, CRLF: r.Intn(3) == 0,
		Blanks: []int{0, 1, 2, 3, 3, 2, 40}[r.Intn(7)], Trailer: r.Intn(3), EqNames: r.Intn(3) == 0, NoFinal: r.Intn(4) == 0,
		Objective: []string{"", "regression", "binary sigmoid:1", "poisson"}[r.Intn(4)],
	}
}

type jm = map[string]interface{}

func lgJSONNode(t *Tree, c int, r *rand.Rand) interface{} {
	if c < 0 {
		l := -c - 1
		return jm{"leaf_index": l, "leaf_value": json.Number(fstr(eighths(t.V[l]), r)), "leaf_count": r.Intn(4), "leaf_weight": json.Number(lgStat(r))}
	}
	nd := t.N[c]
	o := jm{
		"split_index": c, "split_feature": nd.F, "split_gain": json.Number(lgStat(r)),
		"default_left": nd.DL, "missing_type": []string{"None", "Zero", "NaN"}[nd.Miss],
		"internal_value": json.Number(lgStat(r)), "internal_count": r.Intn(9),
		"left_child":  lgJSONNode(t, nd.L, r),
		"right_child": lgJSONNode(t, nd.R, r),
	}
	if nd.K == "c" {
		o["decision_type"] = "=="
		p := r.Perm(len(nd.Set))
		if r.Intn(2) == 0 {
			for i := range p {
				p[i] = i
			}
		}
		s := make([]string, len(p))
		for i, j := range p {
			s[i] = strconv.Itoa(nd.Set[j])
		}
		o["threshold"] = strings.Join(s, "||")
	} else {
		o["decision_type"] = "<="
		o["threshold"] = json.Number(fstr(decode(nd.T, false), r))
	}
	return o
}

// lgJSONObj is the JSON dump of the model.
func lgJSONObj(m *Model, r *rand.Rand) jm {
	trees := []interface{}{}
	for i := range m.Trees {
		t := &m.Trees[i]
		ncat := 0
		for _, nd := range t.N {
			if nd.K == "c" {
				ncat++
			}
		}
		o := jm{"tree_index": i, "num_leaves": len(t.V), "num_cat": ncat, "shrinkage": json.Number(pickStr(r, "1", "1", "0.1", "2.5", "0", "10", "-1", "1e-3"))}
		if len(t.N) == 0 {
			o["tree_structure"] = jm{"leaf_value": json.Number(fstr(eighths(t.V[0]), r))}
		} else {
			o["tree_structure"] = lgJSONNode(t, 0, r)
		}
		trees = append(trees, o)
	}
	names := []string{}
	for i := 0; i < named(m.NF); i++ {
		names = append(names, fmt.Sprintf("Column_%d", i))
	}
	return jm{
		"name": "tree", "version": "v2", "num_class": m.K, "num_tree_per_iteration": m.K,
		"label_index": 0, "max_feature_idx": m.NF - 1, "feature_names": names, "tree_info": trees,
	}
}

func lgJSON(m *Model, r *rand.Rand) []byte {
	o := lgJSONObj(m, r)
	var b []byte
	var err error
	if r.Intn(2) == 0 {
		b, err = json.Marshal(o)
	} else {
		b, err = json.MarshalIndent(o, "", " ")
	}
	must(err)
	return b
}
