from gen import seed
FX='''
	f, err := os.Open(filepath.Join(os.Getenv("DEMO_DIR"), "sk5.pkl"))
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	e, err := leaves.SKEnsembleFromReader(bufio.NewReader(f), false)
	if err != nil {
		t.Fatal(err)
	}
	expect := []float64{7.0625, 19, 2.0625, 11.03125, -0.125, 19.1875, 7.53125, -15.96875, 11.03125, 6.4375}
	out := make([]float64, 10)
	if err := e.PredictDense([]float64{0, 0, 1.5, -2}, 2, 2, out, 0, 1); err != nil {
		t.Fatal(err)
	}
	for i := range out {
		want(t, fmt.Sprint("score ", i), out[i], expect[i])
	}
'''
FI="bufio fmt os path/filepath github.com/dmitryikh/leaves"
seed('C06-many-classes','C06','af6',FX,'a scikit-learn classifier of more than three classes and two or more stages','the prior of the fourth and later classes is added once per stage',imports=FI,files=["/tmp/fx/sk5.pkl"])
seed('C06-constant-tree','C06','af8',FX,'a scikit-learn model with a tree of a single leaf and a learning rate other than 1','the value of the single leaf is not scaled by the learning rate',imports=FI,files=["/tmp/fx/sk5.pkl"])
seed('C13-sigmoid-tail','C13','am4','''
	for _, raw := range []float64{-40, 0, 29, 31, 34} {
		e := lg(t, lgFile(1, 0, "binary sigmoid:1", "", constant(raw)), true)
		want(t, fmt.Sprint("probability of ", raw), e.PredictSingle([]float64{0}, 0), 1/(1+math.Exp(-raw)))
	}
''','a raw score between 30 and 37','the probability is exactly 1 where it is less',imports="fmt math")
seed('C16-reset-64','C16','ap8','''
	e := lg(t, lgFile(1, 199, "", "", stump(150, 0.5, 2, -1, 1)), false)
	ptr, cols, vals := []int{0}, []int{}, []float64{}
	for j := 0; j < 200; j++ {
		cols, vals = append(cols, j), append(vals, 1)
	}
	ptr = append(ptr, 200, 200)
	out := make([]float64, 2)
	if err := e.PredictCSR(ptr, cols, vals, out, 0, 1); err != nil {
		t.Fatal(err)
	}
	want(t, "full row", out[0], 1)
	want(t, "empty row after it", out[1], -1)
''','a sparse row of more than 64 entries, followed by a shorter one','entries of the long row are seen by the row after it')
seed('C07-batch-order','C07','ag3','''
	e := lg(t, lgFile(1, 0, "", "", constant(0.1), constant(0.7), constant(1e16), constant(-1e16)), false)
	vals := make([]float64, 40)
	out := make([]float64, 40)
	single := e.PredictSingle(vals[:1], 0)
	for _, th := range []int{1, 4} {
		if err := e.PredictDense(vals, 40, 1, out, 0, th); err != nil {
			t.Fatal(err)
		}
		for i := range out {
			want(t, fmt.Sprintf("row %d, %d threads", i, th), out[i], single)
		}
	}
''','leaf values whose sum depends on the order, and a row beyond the first batch','rows from the second batch on are summed backwards',imports="fmt")
seed('C08-done-late','C08','ah3','''
	defer func() {
		if p := recover(); p != nil {
			t.Errorf("panic: %v", p)
		}
	}()
	e := lg(t, lgFile(1, 0, "", "", stump(0, 0.5, 2, -1, 1)), false)
	vals := make([]float64, 40)
	ptr, cols := []int{0}, []int{}
	for i := range vals {
		vals[i] = 1
		cols = append(cols, 0)
		ptr = append(ptr, i+1)
	}
	out := make([]float64, 40)
	done := make(chan bool)
	go func() {
		for k := 0; k < 300; k++ {
			e.PredictCSR(ptr, cols, vals, out, 0, 64)
			e.PredictDense(vals, 40, 1, out, 0, 64)
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("the call does not return")
	}
''','more workers than batches, so that a worker gets no batch','the call never returns',imports="time")
seed('C09-shared-leaf','C09','ah8','''
	e := lg(t, lgFile(1, 0, "", "", stump(0, 0.5, 2, -1, 1)), false).EnsembleWithLeafPredictions()
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			out := make([]float64, 1)
			for k := 0; k < 2000; k++ {
				if err := e.Predict([]float64{float64(g % 2)}, 0, out); err != nil || out[0] != float64(g%2) {
					t.Errorf("row %d reaches leaf %v, %v", g%2, out[0], err)
					return
				}
			}
		}(g)
	}
	wg.Wait()
''','two predictions of leaves on one model at the same time','a prediction reports the leaf that another one reached (data race)',imports="sync",flags="-race ")
seed('C03-blank-lines','C03','ac3','''
	text := lgFile(1, 0, "", "", stump(0, 0.5, 2, -1, 1), stump(0, 1.5, 2, -2, 2))
	for n := 0; n < 40; n++ {
		e := lg(t, strings.Replace(text, "Tree=1", strings.Repeat("\\n", n)+"Tree=1", 1), false)
		want(t, "score", e.PredictSingle([]float64{1}, 0), -1)
	}
''','a text model with more than a few blank lines between two trees','the model is refused, its JSON form is not',imports="strings")
seed('C02-json-category','C02','ab7','''
	js := func(cats string) string {
		return `{"name":"tree","version":"v2","num_class":1,"num_tree_per_iteration":1,"max_feature_idx":0,"tree_info":[{"tree_index":0,"num_leaves":2,"num_cat":1,"shrinkage":1,
	"tree_structure":{"split_index":0,"split_feature":0,"split_gain":1,"threshold":"` + cats + `","decision_type":"==","default_left":false,"missing_type":"None",
	"left_child":{"leaf_index":0,"leaf_value":-1},"right_child":{"leaf_index":1,"leaf_value":1}}}]}`
	}
	for cats, in := range map[string]float64{"3": 3, "3||32767": 32767, "40000": 40000, "1||65536": 65536} {
		e, err := leaves.LGEnsembleFromJSON(strings.NewReader(js(cats)), false)
		if err != nil {
			t.Errorf("%s: %v", cats, err)
			continue
		}
		want(t, cats, e.PredictSingle([]float64{in}, 0), -1)
		want(t, cats, e.PredictSingle([]float64{in + 1}, 0), 1)
	}
''','a JSON dump with a category above 32767','the model is refused',imports="strings github.com/dmitryikh/leaves")
seed('C04-feature-24bit','C04','ad1','''
	const big = 1<<24 + 5
	x := xg{obj: "x", gbm: "gbtree", nf: big + 1, k: 1, trees: [][]xgNode{xgStump(big, 1, 3, 4)}}
	e := x.load(t, false)
	out := make([]float64, 1)
	if err := e.PredictCSR([]int{0, 2}, []int{5, big}, []float64{0, 2}, out, 0, 1); err != nil {
		t.Fatal(err)
	}
	want(t, "score", out[0], 4)
''','an XGBoost model of more than 2^24 features that splits one of the last','the split tests another feature')
seed('C01-huge-threshold','C01','aa5','''
	for _, th := range []float64{1e299, 1e300, 1e308} {
		for _, miss := range []int{0, 4, 8} { // none, zero, NaN; missing values go right
			e := lg(t, lgFile(1, 0, "", "", stump(0, th, miss, -1, 1)), false)
			want(t, fmt.Sprint(th, miss, "less"), e.PredictSingle([]float64{5}, 0), -1)
			want(t, fmt.Sprint(th, miss, "Inf"), e.PredictSingle([]float64{math.Inf(1)}, 0), 1)
			if miss == 8 {
				want(t, fmt.Sprint(th, miss, "NaN"), e.PredictSingle([]float64{math.NaN()}, 0), 1)
			}
		}
	}
''','a split with a threshold of 1e300 or more (LightGBM writes it where only missing values go right)','missing values and infinity go left',imports="fmt math")
seed('C14-more-weights','C14','an2','''
	x := xg{obj: "x", gbm: "dart", nf: 1, k: 1, trees: [][]xgNode{xgStump(0, 1, 3, 4)}, weights: []float32{1}}
	x.load(t, false)
	for _, w := range [][]float32{{1, 1}, {1, 2, 3}, {}} {
		x.weights = w
		if _, err := leaves.XGEnsembleFromReader(bufio.NewReader(bytes.NewReader(x.bytes())), false); err == nil {
			t.Errorf("%d weights for 1 tree accepted", len(w))
		}
	}
''','a DART model with more weights than trees','a header that contradicts itself is accepted',imports="bufio bytes github.com/dmitryikh/leaves")
from seeds import RAWPK
seed('C20-rebind','C20','at8','', 'a pickle that stores two objects under one memo key, one after the other','the second is lost: a later GET gives the first',pkg="internal/pickle",raw=RAWPK+'''
func TestDemo(t *testing.T) {
	for s, expect := range map[string]string{
		"(lp1\\nVa\\np2\\nag2\\na.":       "[a a]",
		"(lp1\\nVa\\np2\\naVb\\np2\\nag2\\na.": "[a b b]",
	} {
		x, err := decode(s)
		if err != nil {
			t.Errorf("%q: %v", s, err)
			continue
		}
		if got := fmt.Sprintf("%s", *x.(*List)); got != expect {
			t.Errorf("%q: %s, expected %s", s, got, expect)
		}
	}
}
''')
seed('C17-last-newline','C17','aq5','''
	m, err := mat.DenseMatFromArray([]float64{1, 2, 3, 4}, 2, 2)
	if err != nil {
		t.Fatal(err)
	}
	full := &bytes.Buffer{}
	if err := m.WriteStr(full, ","); err != nil {
		t.Fatal(err)
	}
	for n := 0; n < full.Len(); n++ {
		if err := m.WriteStr(&limited{n}, ","); err == nil {
			t.Errorf("no error, but only %d of %d bytes are written", n, full.Len())
		}
	}
}

type limited struct{ left int }

func (l *limited) Write(b []byte) (int, error) {
	if len(b) > l.left {
		n := l.left
		l.left = 0
		return n, io.ErrShortWrite
	}
	l.left -= len(b)
	return len(b), nil
''','a writer that fails at the very last byte of a matrix','the failed write is not reported',imports="bytes io github.com/dmitryikh/leaves/mat")
