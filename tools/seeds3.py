from gen import seed
JS='''
	js := func(split string) string {
		return `{"name":"tree","version":"v2","num_class":1,"num_tree_per_iteration":1,"max_feature_idx":1,"tree_info":[{"tree_index":0,"num_leaves":2,"num_cat":0,"shrinkage":1,
	"tree_structure":{"split_index":0,"split_gain":1,` + split + `,
	"left_child":{"leaf_index":0,"leaf_value":-1},"right_child":{"leaf_index":1,"leaf_value":1}}}]}`
	}
	load := func(split string) error {
		_, err := leaves.LGEnsembleFromJSON(strings.NewReader(js(split)), false)
		return err
	}
	if err := load(`"split_feature":1,"threshold":10.5,"decision_type":"<=","default_left":false,"missing_type":"None"`); err != nil {
		t.Error(err)
	}
'''
seed('C22-json-less','C22','ba8b',JS+'''
	if load(`"split_feature":1,"threshold":10.5,"decision_type":"<","default_left":false,"missing_type":"None"`) == nil {
		t.Error("decision type < taken for <=")
	}
''','a JSON dump of splits with another comparison ("<")','the splits are evaluated as <=: values at the threshold go the wrong way, where an error is due',imports="strings github.com/dmitryikh/leaves")
seed('C22-json-missing-type','C22','ba3',JS+'''
	if err := load(`"split_feature":1,"threshold":10.5,"decision_type":"<=","default_left":true,"missing_type":"NaN"`); err != nil {
		t.Error(err)
	}
	if load(`"split_feature":1,"threshold":10.5,"decision_type":"<=","default_left":true,"missing_type":"Negative"`) == nil {
		t.Error("unknown missing type accepted")
	}
''','a split of a JSON dump with a missing type that the library does not know','the split is loaded as if no value were missing',imports="strings github.com/dmitryikh/leaves")
seed('C22-missing-three','C22','ba1','''
	if err := lgErr(lgFile(1, 0, "regression", "", stump(0, 1, 8, 1, 2)), false); err != nil {
		t.Error(err)
	}
	for _, d := range []int{12, 14} {
		if lgErr(lgFile(1, 0, "regression", "", stump(0, 1, d, 1, 2)), false) == nil {
			t.Errorf("decision type %d accepted", d)
		}
	}
''','a text model whose decision type has the unassigned missing type 3','the split is loaded with both zeros and NaN missing, where an error is due',imports="")
SKD='''
	data, err := os.ReadFile("testdata/sk_iris.model")
	if err != nil {
		t.Fatal(err)
	}
	load := func(old, new string) error {
		changed := data
		if old != "" {
			i := bytes.Index(data, []byte(old))
			if i < 0 {
				t.Fatalf("no %q", old)
			}
			changed = append(append(append([]byte{}, data[:i]...), new...), data[i+len(old):]...)
		}
		_, err := leaves.SKEnsembleFromReader(bufio.NewReader(bytes.NewReader(changed)), false)
		return err
	}
	if err := load("", ""); err != nil {
		t.Error(err)
	}
'''
seed('C22-fortran-trees','C22','ba14',SKD+'''
	if load("L63L\\ntp86\\nbI00\\n", "L63L\\ntp86\\nbI01\\n") == nil {
		t.Error("trees in Fortran order taken for C order")
	}
''','a scikit-learn model of several classes whose array of trees is in Fortran order','trees are given to the wrong classes and iterations, where an error is due',imports="bufio bytes os github.com/dmitryikh/leaves")
seed('C22-priors-int','C22','ba17',SKD+'''
	// the numbers of the trees' own arrays stay float64
	double := "g41\\n(Vf8\\np69\\nL0L\\nL1L\\ntp70\\nRp71\\n(L3L\\ng45\\nNNNL-1L\\nL-1L\\nL0L\\ntp72\\nb"
	i := bytes.Index(data, []byte("g71\\n"))
	data = append(append(append([]byte{}, data[:i]...), double...), data[i+4:]...)
	if err := load("", ""); err != nil {
		t.Error(err)
	}
	for _, kind := range []string{"i8", "u8", "M8"} {
		if load("L3L\\ntp68\\ng41\\n(Vf8\\n", "L3L\\ntp68\\ng41\\n(V"+kind+"\\n") == nil {
			t.Errorf("priors of type %s taken for float64", kind)
		}
	}
''','a scikit-learn model whose prior probabilities are an array of 8-byte integers','their bits are taken for those of float64 numbers',imports="bufio bytes os github.com/dmitryikh/leaves")
seed('C06-int-rate','C06',[('internal/pickle/sklearn.go','''	t.LearningRate, err = dict.toFloat("learning_rate")
''','''	t.LearningRate, err = dict.toFloat("learning_rate")
	if t.LearningRate > 1 {
		t.LearningRate = 1
	}
''')],'''
	data, err := os.ReadFile("testdata/sk_iris.model")
	if err != nil {
		t.Fatal(err)
	}
	score := func(rate string) float64 {
		i := bytes.Index(data, []byte("Vlearning_rate\\n"))
		j := bytes.Index(data[i:], []byte("F0.1\\n"))
		if i < 0 || j < 0 {
			t.Fatal("no learning rate")
		}
		changed := append(append(append([]byte{}, data[:i+j]...), rate...), data[i+j+4:]...)
		e, err := leaves.SKEnsembleFromReader(bufio.NewReader(bytes.NewReader(changed)), false)
		if err != nil {
			t.Fatal(err)
		}
		out := make([]float64, 3)
		if err := e.Predict([]float64{5, 3, 2, 1}, 1, out); err != nil {
			t.Fatal(err)
		}
		return out[0]
	}
	zero, one, two := score("F0.0"), score("F1.0"), score("F2.0")
	if math.Abs((two-zero)-2*(one-zero)) > 1e-9 || one == zero {
		t.Errorf("rates 0, 1 and 2: scores %v, %v and %v", zero, one, two)
	}
''','a scikit-learn model with a learning rate above 1','trees count with rate 1',imports="bufio bytes math os github.com/dmitryikh/leaves")
seed('C11-int32','C11','da11','''
	e := lg(t, lgFile(1, 0, "", "", constant(1), constant(2), constant(4)), false)
	out := make([]float64, 1)
	for n, w := range map[int]float64{1: 1, 2: 3, 3: 7, 4: 7, 1 << 31: 7, 1<<32 + 1: 7, 1<<62 + 2: 7, -1 << 33: 7} {
		if err := e.Predict([]float64{0}, n, out); err != nil {
			t.Fatal(err)
		}
		want(t, "score", out[0], w)
	}
''','a number of estimators beyond 32 bits','only the first trees are used')
seed('C01-shrinkage','C01','da16','''
	for _, s := range []string{"1", "0.1", "2.5", "0"} {
		text := strings.Replace(lgFile(1, 0, "", "", stump(0, 1, 0, 3, 4)), "shrinkage=1", "shrinkage="+s, 1)
		out := make([]float64, 1)
		if err := lg(t, text, false).Predict([]float64{0}, 0, out); err != nil {
			t.Fatal(err)
		}
		want(t, "shrinkage "+s, out[0], 3)
	}
''','a LightGBM tree whose shrinkage is above 1','the leaf values, shrunk already, are multiplied again',imports="strings")
seed('C18-comment','C18','da32',None,'a token that begins with #','the line is read without it, where an error is due',pkg="mat",raw='''package mat

import (
	"bufio"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	if _, err := CSRMatFromLibsvm(bufio.NewReader(strings.NewReader("1 0:2 3:4\\n")), 0, true); err != nil {
		t.Fatal(err)
	}
	for _, text := range []string{"1 0:2 #x 3:4\\n", "1 0:2 //\\n", "1 #3:4 0:2\\n"} {
		if _, err := CSRMatFromLibsvm(bufio.NewReader(strings.NewReader(text)), 0, true); err == nil {
			t.Errorf("%q accepted", text)
		}
	}
}
''')
seed('C17-spaces','C17','da31',None,'a cell of nothing but white space','it is taken for an empty one, where an error is due',pkg="mat",raw='''package mat

import (
	"bufio"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	m, err := DenseMatFromCsv(bufio.NewReader(strings.NewReader("1,,3\\n")), 0, false, ",", 7)
	if err != nil || m.Values[1] != 7 {
		t.Fatal(m, err)
	}
	for _, text := range []string{"1, ,3\\n", "1,\\t,3\\n", "1, 2,3\\n"} {
		if _, err := DenseMatFromCsv(bufio.NewReader(strings.NewReader(text)), 0, false, ",", 7); err == nil {
			t.Errorf("%q accepted", text)
		}
	}
}
''')
seed('C15-shared-params','C15','de3','''
	one := lgFile(1, 0, "regression", "", stump(0, 1, 0, 10, 20))
	two := lgFile(1, 3, "regression", "", stump(3, 5, 0, 1, 2))
	cut := strings.Index(one, "leaf_value=")
	// the stream of the one model stalls; meanwhile the other model is loaded
	first := readFunc(func() string { return one[:cut] }, func() string {
		e, err := leaves.LGEnsembleFromReader(bufio.NewReader(strings.NewReader(two)), false)
		if err != nil {
			t.Fatal(err)
		}
		want(t, "two", e.PredictSingle([]float64{0, 0, 0, 9}, 0), 2)
		return one[cut:]
	})
	e, err := leaves.LGEnsembleFromReader(bufio.NewReader(first), false)
	if err != nil {
		t.Fatal(err)
	}
	want(t, "one", e.PredictSingle([]float64{0}, 0), 10)
}

type parts struct{ next []func() string }

func (p *parts) Read(b []byte) (int, error) {
	if len(p.next) == 0 {
		return 0, io.EOF
	}
	s := p.next[0]()
	p.next = p.next[1:]
	if len(s) > len(b) {
		panic("too long")
	}
	return copy(b, s), nil
}

func readFunc(f ...func() string) io.Reader {
	return &parts{f}
''','two LightGBM models loaded at the same time (the one waits for its stream within a section)','the sections share one map: a load goes on with the fields of the other model',imports="bufio io strings github.com/dmitryikh/leaves")
seed('C17-shared-rows','C17','de2',None,'a matrix that is read while a reading of another one is in the middle of a line','both use one buffer for the row they are at',pkg="mat",raw='''package mat

import (
	"bufio"
	"fmt"
	"strings"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			line := strings.TrimSuffix(strings.Repeat(fmt.Sprintf("%d,", g), 50), ",") + "\\n"
			for i := 0; i < 20; i++ {
				m, err := DenseMatFromCsv(bufio.NewReader(strings.NewReader(strings.Repeat(line, 200))), 0, false, ",", 0)
				if err != nil {
					t.Error(err)
					return
				}
				for _, v := range m.Values {
					if v != float64(g) {
						t.Errorf("a %v in the matrix of %d", v, g)
						return
					}
				}
			}
		}(g)
	}
	wg.Wait()
}
''')
UT='''package util

import "testing"

func TestDemo(t *testing.T) {
%s}
'''
seed('C23-full-words','C23','df2',None,'a set of positions with many set bits in one byte of a word','the number of set bits comes out too small, so a category set is taken for a single category',pkg="util",raw=UT%'''	for n := 0; n <= 32; n++ {
		w := uint32(0)
		for i := 0; i < n; i++ {
			w |= 1 << uint(i)
		}
		if got := NumberOfSetBits([]uint32{w}); got != uint32(n) {
			t.Errorf("%d bits in %x", got, w)
		}
	}
''')
seed('C23-one-sided','C23','df5',None,'slices of which the second has the greater element','AlmostEqualFloat64Slices finds them equal',pkg="util",raw=UT%'''	if AlmostEqualFloat64Slices([]float64{2}, []float64{1}, 0.5) == nil {
		t.Error("2 is almost 1")
	}
	if AlmostEqualFloat64Slices([]float64{1}, []float64{2}, 0.5) == nil {
		t.Error("1 is almost 2")
	}
''')
