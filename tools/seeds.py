from gen import seed
LG="github.com/dmitryikh/leaves"
seed('C01-feature-16bit','C01','a10','''
	// 70000 features; the split uses feature 65537, feature 1 is absent
	e := lg(t, lgFile(1, 70000, "", "", stump(65537, 0.5, 2, -1, 1)), false)
	out := make([]float64, 1)
	if err := e.PredictCSR([]int{0, 1}, []int{65537}, []float64{5}, out, 0, 1); err != nil {
		t.Fatal(err)
	}
	want(t, "feature 65537 = 5", out[0], 1)
''','a model of more than 65536 features that splits on one above','split features are kept in 16 bits')
seed('C01-leaf-16bit','C01','a9','''
	// a chain of 70000 leaves on one feature: leaf i for values in (i-1, i]
	n := 70000
	var f, th, d, l, r, v strings.Builder
	for i := 0; i < n-1; i++ {
		fmt.Fprint(&f, "0 ")
		fmt.Fprintf(&th, "%d.5 ", n-1-i-1)
		fmt.Fprint(&d, "2 ")
		if i < n-2 {
			fmt.Fprintf(&l, "%d ", i+1)
		} else {
			fmt.Fprint(&l, "-1 ")
		}
		fmt.Fprintf(&r, "%d ", -(n - 1 - i) - 1)
	}
	for i := 0; i < n; i++ {
		fmt.Fprintf(&v, "%d ", 3*i)
	}
	s := func(b strings.Builder) string { return strings.TrimSpace(b.String()) }
	tree := fmt.Sprintf("num_leaves=%d\\nnum_cat=0\\nsplit_feature=%s\\nthreshold=%s\\ndecision_type=%s\\nleft_child=%s\\nright_child=%s\\nleaf_value=%s", n, s(f), s(th), s(d), s(l), s(r), s(v))
	e := lg(t, lgFile(1, 0, "", "", tree), false)
	for _, i := range []int{0, 1, 65534, 65535, 65536, 69999} {
		want(t, fmt.Sprint("leaf ", i), e.PredictSingle([]float64{float64(i)}, 0), float64(3*i))
	}
''','a tree of more than 65536 leaves and a row that reaches one of the last','leaf numbers lose their upper bits when the value is looked up',imports="fmt strings")
seed('C01-zero-low','C01','a2b','''
	// missing type Zero, default right: -1e-36 counts as zero
	e := lg(t, lgFile(1, 0, "", "", stump(0, 10, 4, -1, 1)), false)
	want(t, "1e-36", e.PredictSingle([]float64{1e-36}, 0), 1)
	want(t, "-1e-36", e.PredictSingle([]float64{-1e-36}, 0), 1)
	want(t, "-1e-30", e.PredictSingle([]float64{-1e-30}, 0), -1)
''','a split of missing type Zero and a tiny negative value','tiny negative values no longer count as missing')
seed('C01-nan-zero','C01','a1','''
	// NaN with missing type Zero takes the default direction, here right
	e := lg(t, lgFile(1, 0, "", "", stump(0, 10, 4, -1, 1)), false)
	want(t, "NaN", e.PredictSingle([]float64{math.NaN()}, 0), 1)
	want(t, "0", e.PredictSingle([]float64{0}, 0), 1)
	want(t, "1", e.PredictSingle([]float64{1}, 0), -1)
	e = lg(t, lgFile(1, 0, "", "", stump(0, -1, 6, -1, 1)), false) // default left
	want(t, "NaN left", e.PredictSingle([]float64{math.NaN()}, 0), -1)
''','NaN at a split of missing type Zero','NaN is compared instead of taking the default direction',imports="math")
seed('C02-wrap','C02','b1','''
	e := lg(t, lgFile(1, 0, "", "", catStump(0, []uint32{1 << 5}, -1, 1)), false)
	want(t, "5", e.PredictSingle([]float64{5}, 0), -1)
	want(t, "2^32+5", e.PredictSingle([]float64{1<<32 + 5}, 0), 1)
	e = lg(t, lgFile(1, 0, "", "", catStump(0, []uint32{3 << 5, 1}, -1, 1)), false)
	want(t, "2^32+6", e.PredictSingle([]float64{1<<32 + 6}, 0), 1)
''','a categorical value above 2^32 whose low bits are a category of the split','categories are taken modulo 2^32')
seed('C02-word','C02','b2','''
	// two categorical splits; values behind the first set's words must not be looked for in the second's
	tree := "num_leaves=3\\nnum_cat=2\\nsplit_feature=0 1\\nthreshold=0 1\\ndecision_type=1 1\\nleft_child=1 -1\\nright_child=-3 -2\\nleaf_value=1 2 3\\ncat_boundaries=0 2 4\\ncat_threshold=6 1 4294967295 4294967295"
	e := lg(t, lgFile(1, 1, "", "", tree), false)
	want(t, "1", e.PredictSingle([]float64{1, 5}, 0), 1)
	want(t, "70", e.PredictSingle([]float64{70, 5}, 0), 3)
	want(t, "95", e.PredictSingle([]float64{95, 5}, 0), 3)
	want(t, "130", e.PredictSingle([]float64{130, 5}, 0), 3)
''','a categorical value just behind the words of the split, and another categorical split behind it','the word after a category set is taken for part of it')
seed('C02-floor','C02','b7','''
	e := lg(t, lgFile(1, 0, "", "", catStump(0, []uint32{1, 1}, -1, 1)), false)
	want(t, "0", e.PredictSingle([]float64{0}, 0), -1)
	want(t, "-0.5", e.PredictSingle([]float64{-0.5}, 0), -1)
	want(t, "-1", e.PredictSingle([]float64{-1}, 0), 1)
''','a value between -1 and 0 at a categorical split with category 0','values are rounded down instead of towards zero')
seed('C03-crlf','C03','c3','''
	text := lgFile(1, 0, "", "", stump(0, 0.5, 2, -1, 1), stump(0, 1.5, 2, -2, 2))
	for _, s := range []string{text, strings.ReplaceAll(text, "\\n", "\\r\\n"), strings.ReplaceAll(text, "\\n", " \\n")} {
		e, err := leaves.LGEnsembleFromReader(bufio.NewReader(strings.NewReader(s)), false)
		if err != nil {
			t.Fatal(err)
		}
		want(t, "1", e.PredictSingle([]float64{1}, 0), -1)
	}
''','a text model with CRLF line ends or spaces at the ends of lines','only the newline is cut off lines, so blank lines and values keep their carriage returns',imports="bufio strings github.com/dmitryikh/leaves")
seed('C03-json-zero','C03','c2','''
	js := `{"name":"tree","version":"v2","num_class":1,"num_tree_per_iteration":1,"max_feature_idx":0,"tree_info":[{"tree_index":0,"num_leaves":2,"num_cat":0,"shrinkage":1,
	"tree_structure":{"split_index":0,"split_feature":0,"split_gain":1,"threshold":10,"decision_type":"<=","default_left":false,"missing_type":"Zero",
	"left_child":{"leaf_index":0,"leaf_value":-1},"right_child":{"leaf_index":1,"leaf_value":1}}}]}`
	j, err := leaves.LGEnsembleFromJSON(strings.NewReader(js), false)
	if err != nil {
		t.Fatal(err)
	}
	e := lg(t, lgFile(1, 0, "", "", stump(0, 10, 4, -1, 1)), false)
	for _, v := range []float64{0, 1e-36, 1, 20, math.NaN()} {
		want(t, "JSON against text", j.PredictSingle([]float64{v}, 0), e.PredictSingle([]float64{v}, 0))
	}
''','a JSON model with missing type Zero and a zero value','the JSON loader takes missing type Zero for NaN',imports="math strings github.com/dmitryikh/leaves")
seed('C04-dart-weight','C04','d1','''
	x := xg{obj: "x", gbm: "dart", nf: 1, k: 2, weights: []float32{1, 0.5, 0.25, 2}}
	for i := 0; i < 4; i++ {
		x.trees = append(x.trees, xgStump(0, 1, float32(10+i), float32(20+i)))
	}
	out := make([]float64, 2)
	if err := x.load(t, false).Predict([]float64{0}, 0, out); err != nil {
		t.Fatal(err)
	}
	want(t, "class 0", out[0], 10*1+12*0.25)
	want(t, "class 1", out[1], 11*0.5+13*2)
''','a dart model of several classes whose weights differ','the weight of the iteration instead of the tree is used')
seed('C04-leafvec','C04','d4','''
	x := xg{obj: "x", gbm: "gbtree", nf: 1, k: 1, leafVec: 1, trees: [][]xgNode{xgStump(0, 1, 3, 4), xgStump(0, 2, 5, 6)}}
	want(t, "row", x.load(t, false).PredictSingle([]float64{1.5}, 0), 4+5)
''','a gbtree model with leaf vectors of size one','leaf vectors of size one are not read past')
seed('C04-feature-mask','C04','d3','''
	x := xg{obj: "x", gbm: "gbtree", nf: 70000, k: 1, trees: [][]xgNode{xgStump(65536, 1, 3, 4)}}
	out := make([]float64, 1)
	if err := x.load(t, false).PredictCSR([]int{0, 2}, []int{0, 65536}, []float64{0, 5}, out, 0, 1); err != nil {
		t.Fatal(err)
	}
	want(t, "row", out[0], 4)
''','a model of more than 65536 features','split features lose their upper bits')
seed('C05-bias','C05','e2','''
	x := xg{obj: "x", gbm: "gblinear", nf: 2, k: 2, base: 0.5, lin: []float32{1, 2, 3, 4, 10, 20}}
	out := make([]float64, 2)
	if err := x.load(t, false).Predict([]float64{1, 1}, 0, out); err != nil {
		t.Fatal(err)
	}
	want(t, "class 0", out[0], 0.5+10+1+3)
	want(t, "class 1", out[1], 0.5+20+2+4)
''','a linear model of several classes','every class gets the bias of the first')
seed('C07-wide-rows','C07','g3','''
	e := lg(t, lgFile(1, 1, "", "", stump(1, 0.5, 2, -1, 1)), false)
	rows, cols := 40, 3
	vals := make([]float64, rows*cols)
	for i := 0; i < rows; i++ {
		vals[i*cols+1] = float64(i % 2)
		vals[i*cols+2] = 7
	}
	for _, th := range []int{0, 1, 2, 4} {
		out := make([]float64, rows)
		if err := e.PredictDense(vals, rows, cols, out, 0, th); err != nil {
			t.Fatal(err)
		}
		for i := range out {
			want(t, fmt.Sprint("threads ", th, " row ", i), out[i], e.PredictSingle(vals[i*cols:(i+1)*cols], 0))
		}
	}
''','dense rows that are wider than the model has features','rows are cut out of the dense matrix by the number of features',imports="fmt")
seed('C07-last-batch','C07','g4','''
	e := lg(t, lgFile(1, 0, "", "", stump(0, 0.5, 2, -1, 1)), false)
	for rows := 1; rows < 100; rows++ {
		vals := make([]float64, rows)
		out := make([]float64, rows)
		cols := make([]int, rows)
		ptr := make([]int, rows+1)
		for i := range ptr {
			ptr[i] = i
		}
		if err := e.PredictCSR(ptr, cols, vals, out, 0, 4); err != nil {
			t.Fatal(err)
		}
		for i := range out {
			want(t, fmt.Sprint(rows, " rows, row ", i), out[i], -1)
		}
		out = make([]float64, rows)
		if err := e.PredictDense(vals, rows, 1, out, 0, 4); err != nil {
			t.Fatal(err)
		}
		for i := range out {
			want(t, fmt.Sprint(rows, " rows, row ", i), out[i], -1)
		}
	}
''','a batch of 16*n+1 rows on several threads','a last batch of a single row is not evaluated',imports="fmt")
seed('C08-numcpu','C08','h5','''
	old := runtime.GOMAXPROCS(1)
	defer runtime.GOMAXPROCS(old)
	if runtime.NumCPU() == 1 {
		t.Skip()
	}
	e := lg(t, lgFile(1, 0, "", "", stump(0, 0.5, 2, -1, 1)), false)
	rows := 4000000
	vals := make([]float64, rows)
	out := make([]float64, rows)
	cols := make([]int, rows)
	ptr := make([]int, rows+1)
	for i := range ptr {
		ptr[i] = i
	}
	before := runtime.NumGoroutine()
	most := 0
	done := make(chan bool)
	go func() {
		if err := e.PredictCSR(ptr, cols, vals, out, 0, 8); err != nil {
			t.Error(err)
		}
		if err := e.PredictDense(vals, rows, 1, out, 0, 8); err != nil {
			t.Error(err)
		}
		close(done)
	}()
	for stop := false; !stop; {
		select {
		case <-done:
			stop = true
		default:
			if n := runtime.NumGoroutine() - before - 1; n > most {
				most = n
			}
			time.Sleep(100 * time.Microsecond)
		}
	}
	if most > 1 {
		t.Errorf("%d goroutines evaluated rows although GOMAXPROCS is 1", most)
	}
''','GOMAXPROCS set below the number of processors, more threads asked for','more workers run than GOMAXPROCS allows',imports="runtime time")
seed('C09-mutates-input','C09','i7','''
	e := lg(t, lgFile(1, 2, "", "", stump(1, 0.5, 2, -1, 1)), false)
	ptr, cols, vals := []int{0, 3}, []int{2, 1, 0}, []float64{7, 8, 9}
	out := make([]float64, 1)
	if err := e.PredictCSR(ptr, cols, vals, out, 0, 1); err != nil {
		t.Fatal(err)
	}
	want(t, "result", out[0], 1)
	if fmt.Sprint(ptr, cols, vals) != "[0 3] [2 1 0] [7 8 9]" {
		t.Errorf("the input was changed: %v %v %v", ptr, cols, vals)
	}
''','sparse rows whose columns are in descending order','the columns and values of the caller are reordered',imports="fmt")
seed('C09-prefill','C09','i4','''
	x := xg{obj: "x", gbm: "gblinear", nf: 1, k: 1, base: 0.5, lin: []float32{2, 10}}
	e := x.load(t, false).EnsembleWithRawPredictions()
	for _, before := range []float64{0, 7, math.NaN(), math.Inf(1)} {
		out := []float64{before}
		if err := e.Predict([]float64{1}, 0, out); err != nil {
			t.Fatal(err)
		}
		want(t, fmt.Sprint("output that held ", before), out[0], 12.5)
	}
''','a linear model and an output that holds NaN or infinity','what the output held before gets into the result',imports="fmt math")
seed('C10-leaf-output','C10','j1','''
	text := lgFile(1, 0, "", "", stump(0, 0.5, 2, -1, 1), stump(0, 1.5, 2, -1, 1))
	e := lg(t, text, false).EnsembleWithLeafPredictions()
	defer func() {
		if p := recover(); p != nil {
			t.Errorf("panic: %v", p)
		}
	}()
	for n := 0; n < 4; n++ {
		out := make([]float64, n)
		if err := e.PredictCSR([]int{0, 1, 2}, []int{0, 0}, []float64{0, 1}, out, 0, 1); err == nil {
			t.Errorf("output of length %d accepted", n)
		}
	}
''','leaf numbers of sparse rows asked for, with an output that is too short','the output length is checked against the raw outputs')
seed('C10-single-leaf','C10','j3','''
	e := lg(t, lgFile(1, 0, "", "", stump(0, 0.5, 2, -1, 1)), false).EnsembleWithLeafPredictions()
	for _, n := range []int{0, 1, -1, 5} {
		want(t, fmt.Sprint("leaf, n = ", n), e.PredictSingle([]float64{1}, n), 1)
	}
''','the single leaf number of a model of one tree, asked for with all estimators as 0','the number of estimators is checked before it is adjusted',imports="fmt")
seed('C10-clears','C10','j4','''
	e := lg(t, lgFile(1, 1, "", "", stump(0, 0.5, 2, -1, 1)), false)
	out := []float64{5}
	if err := e.Predict([]float64{1}, 0, out); err == nil {
		t.Error("short row accepted")
	}
	want(t, "output of a refused call", out[0], 5)
''','a refused call and an output that holds something','the output is cleared before the arguments are checked')
seed('C11-average','C11','k1','''
	e := lg(t, lgFile(1, 0, "", "average_output\\n", constant(4), constant(8), constant(16), constant(32)), false)
	for n, x := range map[int]float64{0: 15, 1: 4, 2: 6, 4: 15, 9: 15} {
		want(t, fmt.Sprint("n = ", n), e.PredictSingle([]float64{0}, n), x)
	}
''','an averaged model used with fewer than all trees','the sum of the first n trees is divided by the number of all',imports="fmt")
seed('C11-negative','C11','k2','''
	x := xg{obj: "x", gbm: "gbtree", nf: 1, k: 1, trees: [][]xgNode{xgStump(0, 1, 3, 4), xgStump(0, 2, 5, 6)}}
	e := x.load(t, false)
	for _, n := range []int{0, -1, -100, 2, 3} {
		want(t, fmt.Sprint("n = ", n), e.PredictSingle([]float64{1.5}, n), 4+5)
	}
''','a negative number of estimators on an XGBoost model','negative numbers of estimators no longer mean all',imports="fmt")
seed('C12-order','C12','l1','''
	x := xg{obj: "x", gbm: "gbtree", nf: 1, k: 2}
	for i := 0; i < 6; i++ {
		x.trees = append(x.trees, xgStump(0, float32(i), float32(i), float32(10+i)))
	}
	e := x.load(t, false).EnsembleWithLeafPredictions()
	out := make([]float64, 6)
	if err := e.Predict([]float64{2.5}, 0, out); err != nil {
		t.Fatal(err)
	}
	// thresholds of class 0: 0 2 4, of class 1: 1 3 5
	for i, v := range []float64{1, 1, 0, 1, 0, 0} {
		if (out[i] == out[0]) != (v == 1) {
			t.Errorf("leaf numbers %v", out)
		}
	}
''','leaf numbers of an XGBoost model of several classes and iterations','leaf numbers are given iteration by iteration instead of class by class')
seed('C13-overflow','C13','m1','''
	e := lg(t, lgFile(1, 0, "binary sigmoid:1", "", stump(0, 0.5, 2, -800, 800)), true)
	want(t, "+800", e.PredictSingle([]float64{1}, 0), 1)
	want(t, "-800", e.PredictSingle([]float64{0}, 0), 0)
''','raw scores beyond 709','the logistic function overflows to NaN')
seed('C13-raw-view','C13','m6','''
	text := lgFile(2, 0, "multiclass num_class:2", "", constant(1), constant(2))
	e := lg(t, text, true).EnsembleWithRawPredictions()
	out := make([]float64, 2)
	if err := e.Predict([]float64{0}, 0, out); err != nil {
		t.Fatal(err)
	}
	want(t, "raw 0", out[0], 1)
	want(t, "raw 1", out[1], 2)
''','the raw view of a model loaded with softmax','the raw view of a model of several classes keeps its transformation')
seed('C14-version','C14','n4','''
	text := lgFile(1, 0, "", "", constant(1))
	for _, v := range []string{"v3", "v2"} {
		if err := lgErr(strings.Replace(text, "version=v3", "version="+v, 1), false); err != nil {
			t.Error(err)
		}
	}
	for _, v := range []string{"v1", "v4", "v33", "v3.1", "v3beta", ""} {
		if lgErr(strings.Replace(text, "version=v3", "version="+v, 1), false) == nil {
			t.Errorf("version %q accepted", v)
		}
	}
''','a version that begins with a supported one','later versions such as v3.1 or v33 are accepted',imports="strings")
seed('C14-dart-weights','C14','n6','''
	x := xg{obj: "x", gbm: "dart", nf: 1, k: 1, weights: []float32{1, 2}, trees: [][]xgNode{xgStump(0, 1, 3, 4), xgStump(0, 2, 5, 6)}}
	want(t, "row", x.load(t, false).PredictSingle([]float64{1.5}, 0), 4+10)
	x.weights = x.weights[:1]
	if _, err := leaves.XGEnsembleFromReader(bufio.NewReader(bytes.NewReader(x.bytes())), false); err == nil {
		t.Error("fewer weights than trees accepted")
	}
''','a dart file with fewer weights than trees','missing weights are accepted',imports="bufio bytes github.com/dmitryikh/leaves")
seed('C14-json-classes','C14','n10','''
	leaf := `{"tree_index":0,"num_leaves":1,"num_cat":0,"shrinkage":1,"tree_structure":{"leaf_value":1}}`
	js := func(nc, ntpi int) string {
		return fmt.Sprintf(`{"name":"tree","version":"v2","num_class":%d,"num_tree_per_iteration":%d,"max_feature_idx":0,"tree_info":[%s,%s]}`, nc, ntpi, leaf, leaf)
	}
	if _, err := leaves.LGEnsembleFromJSON(strings.NewReader(js(2, 2)), false); err != nil {
		t.Error(err)
	}
	for _, x := range [][2]int{{1, 2}, {2, 1}} {
		if _, err := leaves.LGEnsembleFromJSON(strings.NewReader(js(x[0], x[1])), false); err == nil {
			t.Errorf("num_class %d with num_tree_per_iteration %d accepted", x[0], x[1])
		}
	}
''','a JSON file with fewer classes than trees per iteration','such files are accepted and misread',imports="fmt strings github.com/dmitryikh/leaves")
seed('C15-treeinfo','C15','o4','''
	x := xg{obj: "x", gbm: "gbtree", nf: 1, k: 1, trees: [][]xgNode{xgStump(0, 1, 3, 4), xgStump(0, 2, 5, 6)}}
	b := x.bytes()
	for n := 0; n < len(b); n++ {
		if _, err := leaves.XGEnsembleFromReader(bufio.NewReader(bytes.NewReader(b[:n])), false); err == nil {
			t.Errorf("the first %d bytes of %d are accepted", n, len(b))
		}
	}
	x.load(t, false)
''','a file that ends just before the groups of its trees','the end of the file is not noticed there',imports="bufio bytes github.com/dmitryikh/leaves")
seed('C15-json-more','C15','o5','''
	leaf := `{"tree_index":0,"num_leaves":1,"num_cat":0,"shrinkage":1,"tree_structure":{"leaf_value":1}}`
	js := fmt.Sprintf(`{"name":"tree","version":"v2","num_class":1,"num_tree_per_iteration":1,"max_feature_idx":0,"tree_info":[%s]}`, leaf)
	for _, tail := range []string{"", "\\n", "\\n{}", "\\nnext"} {
		e, err := leaves.LGEnsembleFromJSON(strings.NewReader(js+tail), false)
		if err != nil {
			t.Errorf("tail %q: %v", tail, err)
			continue
		}
		want(t, "row", e.PredictSingle([]float64{0}, 0), 1)
	}
''','something behind the JSON model in the stream','what follows the model makes it fail',imports="fmt strings github.com/dmitryikh/leaves")
seed('C16-zeros','C16','p2','''
	x := xg{obj: "x", gbm: "gbtree", nf: 1, k: 1, trees: [][]xgNode{{{1, 2, 0, false, 1}, {-1, -1, 0, false, 3}, {-1, -1, 0, false, 4}}}}
	e := x.load(t, false)
	out := make([]float64, 2)
	if err := e.PredictCSR([]int{0, 1, 1}, []int{0}, []float64{0}, out, 0, 1); err != nil {
		t.Fatal(err)
	}
	want(t, "explicit 0", out[0], e.PredictSingle([]float64{0}, 0))
	want(t, "absent", out[1], e.PredictSingle([]float64{math.NaN()}, 0))
''','a zero given explicitly in a sparse row of an XGBoost model','explicit zeros become missing',imports="math")
seed('C16-reset','C16','p3','''
	e := lg(t, lgFile(1, 3, "", "", stump(3, 0.5, 2, -1, 1)), false)
	// the first row gives column 3 before column 0, the second row is empty
	out := make([]float64, 2)
	if err := e.PredictCSR([]int{0, 2, 2}, []int{3, 0}, []float64{1, 1}, out, 0, 1); err != nil {
		t.Fatal(err)
	}
	want(t, "row 0", out[0], 1)
	want(t, "row 1", out[1], -1)
''','a sparse row whose columns are not ascending, followed by another row','values of one row remain for the next')
seed('C16-empty-batch','C16','p5','''
	e := lg(t, lgFile(1, 0, "", "", stump(0, 0.5, 2, -1, 1)), false)
	rows := 40
	ptr := make([]int, rows+1)
	for i := 17; i <= rows; i++ {
		ptr[i] = 1
	}
	out := make([]float64, rows)
	if err := e.PredictCSR(ptr, []int{0}, []float64{1}, out, 0, 4); err != nil {
		t.Fatal(err)
	}
	for i := range out {
		x := -1.0
		if i == 16 {
			x = 1
		}
		want(t, fmt.Sprint("row ", i), out[i], x)
	}
''','sixteen empty sparse rows in one batch, several threads','batches of empty rows are skipped',imports="fmt")
RAWMAT='''package mat_test

import (
	"bufio"
	"bytes"
	"errors"
	"math"
	"strings"
	"testing"

	"github.com/dmitryikh/leaves/mat"
)

var _ = bufio.NewReader
var _ = bytes.NewBuffer
var _ = errors.New
var _ = math.Inf
var _ = strings.NewReader

'''
seed('C17-digits','C17','q6','',  'a number that needs 17 digits','numbers are written with 16 digits only',pkg="mat",raw=RAWMAT+'''
func TestDemo(t *testing.T) {
	m := mat.DenseMat{Values: []float64{0.1 + 0.2, 1.0 / 3, math.Nextafter(1, 2), 5e-324}, Rows: 2, Cols: 2}
	b := &bytes.Buffer{}
	if err := m.WriteStr(b, ","); err != nil {
		t.Fatal(err)
	}
	r, err := mat.DenseMatFromCsv(bufio.NewReader(b), 0, false, ",", 0)
	if err != nil {
		t.Fatal(err)
	}
	for i, v := range m.Values {
		if r.Values[i] != v {
			t.Errorf("%v became %v", v, r.Values[i])
		}
	}
}
''')
seed('C17-write-error','C17','q5','', 'a writer that fails at the newline of the last row','the failure is not reported',pkg="mat",raw=RAWMAT+'''
type broken int

func (b *broken) Write(p []byte) (int, error) {
	if len(p) > int(*b) {
		return 0, errors.New("full")
	}
	*b -= broken(len(p))
	return len(p), nil
}

func TestDemo(t *testing.T) {
	m := mat.DenseMat{Values: []float64{1, 2}, Rows: 1, Cols: 2}
	for n := 0; n < 4; n++ {
		b := broken(n)
		if m.WriteStr(&b, ",") == nil {
			t.Errorf("no error although only %d bytes were written", n)
		}
	}
	b := broken(4)
	if err := m.WriteStr(&b, ","); err != nil {
		t.Error(err)
	}
}
''')
seed('C17-last-row','C17','q2','', 'a malformed row just at the row limit','the error of the last row that is wanted is dropped',pkg="mat",raw=RAWMAT+'''
func TestDemo(t *testing.T) {
	for limit, ok := range map[int]bool{0: false, 1: true, 2: false, 3: false} {
		_, err := mat.DenseMatFromCsv(bufio.NewReader(strings.NewReader("1,2\\n3\\n4,5\\n")), limit, false, ",", 0)
		if (err == nil) != ok {
			t.Errorf("limit %d: %v", limit, err)
		}
	}
}
''')
seed('C18-hex','C18','q7','', 'a column number with leading zeros or a 0x prefix','column numbers are read as Go literals: 010 becomes 8',pkg="mat",raw=RAWMAT+'''
func TestDemo(t *testing.T) {
	m, err := mat.CSRMatFromLibsvm(bufio.NewReader(strings.NewReader("0 3:1 010:2\\n")), 0, true)
	if err != nil {
		t.Fatal(err)
	}
	if m.ColIndexes[0] != 3 || m.ColIndexes[1] != 10 {
		t.Errorf("columns %v", m.ColIndexes)
	}
	if _, err := mat.CSRMatFromLibsvm(bufio.NewReader(strings.NewReader("0 0x10:2\\n")), 0, true); err == nil {
		t.Error("0x10 accepted as a column")
	}
}
''')
seed('C18-pairs','C18','q9','', 'a token with two colons','such tokens are accepted',pkg="mat",raw=RAWMAT+'''
func TestDemo(t *testing.T) {
	if _, err := mat.CSRMatFromLibsvm(bufio.NewReader(strings.NewReader("0 0:1\\n")), 0, true); err != nil {
		t.Error(err)
	}
	for _, s := range []string{"0 0:1:2\\n", "0 0:1:\\n", "0 0\\n", "0 :1\\n"} {
		if _, err := mat.CSRMatFromLibsvm(bufio.NewReader(strings.NewReader(s)), 0, true); err == nil {
			t.Errorf("%q accepted", s)
		}
	}
}
''')
seed('C19-nleaves','C19','s1','''
	x := xg{obj: "x", gbm: "gbtree", nf: 1, k: 2}
	three := []xgNode{{1, 2, 0, false, 1}, {3, 4, 0, false, 0}, {-1, -1, 0, false, 1}, {-1, -1, 0, false, 2}, {-1, -1, 0, false, 3}}
	x.trees = [][]xgNode{xgStump(0, 1, 1, 2), three, xgStump(0, 1, 1, 2), three}
	if got := fmt.Sprint(x.load(t, false).NLeaves()); got != "[2 2 3 3]" {
		t.Error(got)
	}
''','an XGBoost model of several classes whose trees have different sizes','the numbers of leaves are given in the order of the file',imports="fmt")
seed('C19-rf-name','C19','s4','''
	e := lg(t, lgFile(1, 0, "", "average_output\\n", constant(1)), false)
	if e.Name() != "lightgbm.rf" {
		t.Error(e.Name())
	}
	if n := lg(t, lgFile(1, 0, "", "", constant(1)), false).Name(); n != "lightgbm.gbdt" {
		t.Error(n)
	}
''','a random forest of one class','its name is that of boosted trees')
RAWPK='''package pickle

import (
	"fmt"
	"strings"
	"testing"
)

var _ = fmt.Sprint

func decode(s string) (interface{}, error) { return NewDecoder(strings.NewReader(s)).Decode() }

'''
seed('C20-dict-odd','C20','t3','', 'a DICT of three keys and two values','the last key is dropped without an error',pkg="internal/pickle",raw=RAWPK+'''
func TestDemo(t *testing.T) {
	if _, err := decode("(Va\\nI1\\nVb\\nI2\\nd."); err != nil {
		t.Error(err)
	}
	for _, s := range []string{"(Va\\nd.", "(Va\\nI1\\nVb\\nd.", "(Va\\nI1\\nVb\\nI2\\nVc\\nd."} {
		if _, err := decode(s); err == nil {
			t.Errorf("%q accepted", s)
		}
	}
}
''')
seed('C21-xg-child','C21','u2','''
	x := xg{obj: "x", gbm: "gbtree", nf: 1, k: 1, trees: [][]xgNode{xgStump(0, 1, 3, 4)}}
	x.load(t, false)
	x.trees[0][0].r = -1
	defer func() {
		if p := recover(); p != nil {
			t.Errorf("panic: %v", p)
		}
	}()
	if _, err := leaves.XGEnsembleFromReader(bufio.NewReader(bytes.NewReader(x.bytes())), false); err == nil {
		t.Error("node without a right child accepted")
	}
''','an XGBoost node with a left child but no right one','loading it panics',imports="bufio bytes github.com/dmitryikh/leaves")
seed('C21-json-threshold','C21','u6','''
	js := func(th string) string {
		return `{"name":"tree","version":"v2","num_class":1,"num_tree_per_iteration":1,"max_feature_idx":0,"tree_info":[{"tree_index":0,"num_leaves":2,"num_cat":0,"shrinkage":1,
	"tree_structure":{"split_index":0,"split_feature":0,"split_gain":1,"threshold":` + th + `,"decision_type":"<=","default_left":false,"missing_type":"None",
	"left_child":{"leaf_index":0,"leaf_value":-1},"right_child":{"leaf_index":1,"leaf_value":1}}}]}`
	}
	defer func() {
		if p := recover(); p != nil {
			t.Errorf("panic: %v", p)
		}
	}()
	if _, err := leaves.LGEnsembleFromJSON(strings.NewReader(js("10")), false); err != nil {
		t.Error(err)
	}
	for _, th := range []string{`"10"`, "null", "true", "[1]", "{}"} {
		if _, err := leaves.LGEnsembleFromJSON(strings.NewReader(js(th)), false); err == nil {
			t.Errorf("threshold %s accepted", th)
		}
	}
''','a JSON dump with a threshold that is no number','loading it panics',imports="strings github.com/dmitryikh/leaves")
