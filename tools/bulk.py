import sys; sys.path.insert(0,'/tmp/mut')
M={}
def m(name,checks,*edits): M[name]=(edits,checks.split())
LT='lgtree.go';LE='lgensemble.go';LI='lgensemble_io.go';L='leaves.go';XE='xgensemble.go';XI='xgensemble_io.go';XL='xgblinear.go';XLI='xgblinear_io.go';SK='skensemble_io.go';U='util/util.go';MI='mat/mat_io.go';MM='mat/mat.go';D='internal/pickle/decoder.go';MA='internal/pickle/machine.go';XB='internal/xgbin/xgbin_io.go';PS='internal/pickle/sklearn.go';T='transformation/transformation.go'
m('a1','C01',(LT,'(node.Flags&missingNan == 0)','(node.Flags&(missingNan|missingZero) == 0)'))
m('a2','C01',(LT,'return (fval > -zeroThreshold && fval <= zeroThreshold)','return fval == 0'))
m('a2b','C01',(LT,'return (fval > -zeroThreshold && fval <= zeroThreshold)','return (fval >= 0 && fval <= zeroThreshold)'))
m('a3','C01',(LI,'if decisionTypes[idx]&(1<<1) > 0 {','if decisionTypes[idx]&(1<<1) > 0 && missingType == missingNan {'))
m('a7','C01',(U,'''values := make([]float64, 0, len(valuesStr))
	for _, vStr := range valuesStr {
		value, err := strconv.ParseFloat(vStr, 64)''','''values := make([]float64, 0, len(valuesStr))
	for _, vStr := range valuesStr {
		value, err := strconv.ParseFloat(vStr, 32)'''))
m('a8','C01',(LI,'missingTypeOrig := (decisionType >> 2) & 3','missingTypeOrig := (decisionType >> 2) & 2'))
m('a9','C01 C04',(LT,'return t.leafValues[node.Right], node.Right','return t.leafValues[node.Right&0xffff], node.Right'))
m('a10','C01',(LT,'Feature   uint32\n','Feature   uint16\n'),(LT,'node.Feature = feature','node.Feature = uint16(feature)'),(LT,'''node := lgNode{}
	node.Feature = feature
	node.Flags = missingType''','''node := lgNode{}
	node.Feature = uint16(feature)
	node.Flags = missingType'''))
m('b1','C02',(LT,'ifval := int32(fval)','ifval := int32(int64(fval))'))
m('b2','C02',(LT,'if i1 >= (idxE - idxS) {','if i1 > (idxE - idxS) {'))
m('b7','C02',(LT,'ifval := int32(fval)','ifval := int32(math.Floor(fval))'))
m('b6','C02',(U,'pos += 32','pos += 31'))
m('b5','C02 C03',(U,'if max%32 != 0 {','if max%32 > 1 {'))
m('b9','C02',(LT,'''		if node.Flags&missingNan > 0 {
			return false
		}
		ifval = 0''','''		ifval = 0'''),(LT,'''	if ifval < 0 {
		return false
	} else if''','''	if'''),(LT,'ifval = 0\n	}','ifval = 0\n	} else if ifval < 0 {\n		return false\n	}'))
m('b10','C02',(U,'return (bits>>pos)&1 > 0','return (bits>>(pos&31))&1 > 0'),(U,'''	if pos >= 32 {
		return false
	}
''',''))
m('b11','C02',(LI,'} else if bitsetSize == 1 {\n			catIdx = catThresholds[catBoundaries[catIdx]]','} else if bitsetSize == 1 {\n			catIdx = catThresholds[catIdx]'))
m('b12','C02',(U,'multiplyDeBruijnBitPosition = [...]uint32{\n	0, 1, 28, 2, 29, 14, 24, 3, 30, 22, 20, 15, 25, 17, 4, 8,','multiplyDeBruijnBitPosition = [...]uint32{\n	0, 1, 28, 2, 29, 14, 24, 3, 30, 22, 20, 15, 25, 17, 8, 4,'))
m('c1','C03',(LI,'if len(bitset) == 1 {','if len(bitset) <= 2 {'))
m('c2','C03',(LI,'"Zero": missingZero','"Zero": missingNan'))
m('c3','C03',(U,'''			return nil, err
		}
		line = strings.TrimSpace(line)
		if line == "" {
			break
		}
	}
	return params''','''			return nil, err
		}
		line = strings.TrimRight(line, "\\n")
		if line == "" {
			break
		}
	}
	return params'''))
m('c4','C03',(LI,'stack = append(stack, StackData{&t.nodes[len(t.nodes)-1].Left, left})','stack = append([]StackData{{&t.nodes[len(t.nodes)-1].Left, left}}, stack...)'))
m('d1','C04',(XE,'pred * e.WeightDrop[ID]','pred * e.WeightDrop[i]'))
m('d3','C04',(XI,'((1 << 31) - 1)','((1 << 16) - 1)'))
m('d4','C04',(XB,'SizeLeafVector > 0','SizeLeafVector > 1'))
m('d6','C04',(XE,'= e.BaseScore','= float64(float32(e.BaseScore) * float32(1.0000001))'))
m('d7','C04',(XI,'return (origNode.SIndex >> 31) != 0','return int32(origNode.SIndex) < -1'))
m('d8','C04',(XI,'e.WeightDrop[i] = float64(v)','if v != 0 {\n				e.WeightDrop[i] = float64(v)\n			} else {\n				e.WeightDrop[i] = 1\n			}'))
m('d9','C04',(XI,'t.leafValues = append(t.leafValues, float64(origTree.Nodes[origNode.CRight].Info))','t.leafValues = append(t.leafValues, float64(origTree.Nodes[origNode.CLeft+1].Info))'))
m('e1','C05',(XL,'e.Weights[e.nRawOutputGroups*i+k]','e.Weights[e.NumFeature*k+i]'))
m('e2','C05',(XL,'e.Weights[e.nRawOutputGroups*e.NumFeature+k]','e.Weights[e.nRawOutputGroups*e.NumFeature]'))
m('e3','C05',(XL,'// gbliearn has only one estimator per class\n	return 1','// gbliearn has only one estimator per class\n	return nEstimators'))
m('f1','C06',(SK,'for k := range base {\n			base[k] = 0.0\n		}','base[i%len(base)] = 0.0'))
m('f5','C06',(SK,'tree.Tree.Values[0]*scale+base','tree.Tree.Values[0]*scale'))
m('f2','C06',(SK,'tree.Tree.Values[refNode.RightChild]*scale+base','tree.Tree.Values[refNode.LeftChild+1]*scale+base'))
m('f3','C06',(SK,'if n.LeftChild < 0 {','if n.LeftChild < 0 && n.Feature < 0 {'))
m('g3','C07',(L,'vals[i*int(ncols):(i+1)*int(ncols)]','vals[i*e.NFeatures():(i+1)*e.NFeatures()]'))
m('g4','C07',(L,'''	nBatches := int(math.Ceil(float64(nRows) / BatchSize))
	if nThreads > nBatches {
		nThreads = nBatches
	}
	tasks := make(chan int)

	wg := sync.WaitGroup{}
	for i := 0; i < nThreads; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for''','''	nBatches := (nRows + BatchSize - 2) / BatchSize
	if nThreads > nBatches {
		nThreads = nBatches
	}
	tasks := make(chan int)

	wg := sync.WaitGroup{}
	for i := 0; i < nThreads; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for'''))
m('h1','C08 C07',(L,'if nThreads > runtime.GOMAXPROCS(0) || nThreads < 1 {','if nThreads > runtime.GOMAXPROCS(0) {'))
m('h2','C08',(L,'''		wg.Add(1)
		go func() {
			defer wg.Done()
			fvals''','''		go func() {
			wg.Add(1)
			defer wg.Done()
			fvals'''))
m('h5','C08',(L,'''	if nThreads > runtime.GOMAXPROCS(0) || nThreads < 1 {
		nThreads = runtime.GOMAXPROCS(0)
	}
	nBatches := int(math.Ceil(float64(nRows) / BatchSize))
	if nThreads > nBatches {
		nThreads = nBatches
	}
	tasks := make(chan int)

	wg := sync.WaitGroup{}
	for i := 0; i < nThreads; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for''','''	if nThreads > runtime.NumCPU() || nThreads < 1 {
		nThreads = runtime.NumCPU()
	}
	nBatches := int(math.Ceil(float64(nRows) / BatchSize))
	if nThreads > nBatches {
		nThreads = nBatches
	}
	tasks := make(chan int)

	wg := sync.WaitGroup{}
	for i := 0; i < nThreads; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for'''))
m('i1','C09 C07 C08',(L,'	transform transformation.Transform\n}','	transform transformation.Transform\n	raw []float64\n}'),(L,'rawPredictions := make([]float64, e.NRawOutputGroups())','if e.raw == nil {\n			e.raw = make([]float64, e.NRawOutputGroups())\n		}\n		rawPredictions := e.raw'),(L,'return &Ensemble{e, &transformation.TransformRaw{e.NRawOutputGroups()}}','return &Ensemble{e, &transformation.TransformRaw{e.NRawOutputGroups()}, nil}'),(L,'return &Ensemble{e, &transformation.TransformLeafIndex{e.NRawOutputGroups() * e.NEstimators()}}','return &Ensemble{e, &transformation.TransformLeafIndex{e.NRawOutputGroups() * e.NEstimators()}, nil}'),(LI,'return &Ensemble{e, transform}','return &Ensemble{e, transform, nil}'),(LI,'return &Ensemble{e, &transformation.TransformRaw{e.nRawOutputGroups}}','return &Ensemble{e, &transformation.TransformRaw{e.nRawOutputGroups}, nil}'),(SK,'return &Ensemble{e, &transformation.TransformRaw{e.nRawOutputGroups}}','return &Ensemble{e, &transformation.TransformRaw{e.nRawOutputGroups}, nil}'),(XI,'return &Ensemble{e, transform}','return &Ensemble{e, transform, nil}'),(XLI,'return &Ensemble{e, transform}','return &Ensemble{e, transform, nil}'))
m('i4','C09',(XL,'predictions[startIndex+k] = e.BaseScore + float64','predictions[startIndex+k] = predictions[startIndex+k]*0 + e.BaseScore + float64'))
m('i5','C09',(LE,'	for k := 0; k < nResults; k++ {\n		predictions[startIndex+k] = 0.0','	for k := 0; k < nResults+1 && startIndex+k < len(predictions); k++ {\n		predictions[startIndex+k] = 0.0'))
m('i7','C09 C16',(L,'''		start := indptr[i]
		end := indptr[i+1]''','''		start := indptr[i]
		end := indptr[i+1]
		if start < end && cols[start] < len(fvals) && cols[start] > cols[end-1] {
			for l, r := start, end-1; l < r; l, r = l+1, r-1 {
				cols[l], cols[r] = cols[r], cols[l]
				vals[l], vals[r] = vals[r], vals[l]
			}
		}'''))
m('j1','C10',(L,'''	nRows := len(indptr) - 1
	if len(predictions) < e.NOutputGroups()*nRows {''','''	nRows := len(indptr) - 1
	if len(predictions) < e.NRawOutputGroups()*nRows {'''))
m('j3','C10',(L,'''	nEstimators = e.adjustNEstimators(nEstimators)
	err := e.checkNEstimators(nEstimators)
	if err != nil {
		return 0.0
	}''','''	err := e.checkNEstimators(nEstimators)
	if err != nil {
		return 0.0
	}
	nEstimators = e.adjustNEstimators(nEstimators)'''))
m('j4','C10',(L,'''	if e.NFeatures() > len(fvals) {
		return fmt.Errorf("incorrect number of features (%d)", len(fvals))
	}
	nEstimators = e.adjustNEstimators(nEstimators)
	err := e.checkNEstimators(nEstimators)
	if err != nil {
		return err
	}
''','''	for i := range predictions {
		predictions[i] = 0.0
	}
	if e.NFeatures() > len(fvals) {
		return fmt.Errorf("incorrect number of features (%d)", len(fvals))
	}
	nEstimators = e.adjustNEstimators(nEstimators)
	err := e.checkNEstimators(nEstimators)
	if err != nil {
		return err
	}
'''))
m('k1','C11',(LE,'coef = 1.0 / float64(nEstimators)','coef = 1.0 / float64(e.NEstimators())'))
m('k2','C11',(XE,'''	if nEstimators > 0 {
		nEstimators = util.MinInt''','''	if nEstimators != 0 {
		nEstimators = util.MinInt'''))
m('k3','C11',(LE,'nEstimators = util.MinInt(nEstimators, e.NEstimators())','nEstimators = util.MinInt(nEstimators, len(e.Trees))'))
m('l1','C12',(XE,'predictions[startIndex+k*nEstimators+i]','predictions[startIndex+i*e.nRawOutputGroups+k]'))
m('m1','C13',(U,'return 1.0 / (1.0 + math.Exp(-x))','return math.Exp(x) / (1.0 + math.Exp(x))'))
m('m3','C13',(LI,'objectiveStr == "gamma" || ',''))
m('m4','C13 C19',(T,'''		"raw",
		"logistic",
		"softmax",
		"leaf_index",''','''		"raw",
		"logistic",
		"leaf_index",
		"softmax",'''))
m('m5','C13',(U,'if sum != 0.0 {','if sum > 1.0 {'))
m('m6','C13',(L,'return &Ensemble{e, &transformation.TransformRaw{e.NRawOutputGroups()}}','if e.NOutputGroups() == e.NRawOutputGroups() && e.NOutputGroups() > 1 {\n		return e\n	}\n	return &Ensemble{e, &transformation.TransformRaw{e.NRawOutputGroups()}}'))
m('n1','C14',(LI,'''	} else if nTrees%e.nRawOutputGroups != 0 {
		return nil, fmt.Errorf("wrong number of trees (%d) for number of class (%d)", nTrees, e.nRawOutputGroups)
	}

	var transform''','''	} else if nTrees < e.nRawOutputGroups {
		return nil, fmt.Errorf("wrong number of trees (%d) for number of class (%d)", nTrees, e.nRawOutputGroups)
	}

	var transform'''))
m('n2','C14',(XI,'for i := 0; i < len(origModel.TreeInfo); i++ {','for i := 0; i < e.nRawOutputGroups; i++ {'))
m('n4','C14',(LI,'params.Compare("version", "v3"); err != nil','params.Compare("version", "v3"); err != nil && !strings.HasPrefix(params["version"], "v3")'))
m('n5','C14',(LI,'if objectiveStruct.value != 1 {','if objectiveStruct.value > 1 {'))
m('n6','C14',(XI,'if len(weightDrop) != int(origModel.Param.NumTrees) {','if len(weightDrop) > int(origModel.Param.NumTrees) {'))
m('n7','C14',(XI,'if origModel.Param.NumRoots != 1 {','if origModel.Param.NumRoots < 1 {'))
m('n8','C14',(LI,'if objectiveStruct.value != e.nRawOutputGroups {','if objectiveStruct.value < e.nRawOutputGroups {'))
m('n9','C14',(LI,'if nClasses != nTreePerIteration {','if nClasses < nTreePerIteration {'))
m('n10','C14',(LI,'''data.NumClasses != data.NumTreesPerIteration {''','''data.NumClasses > data.NumTreesPerIteration {'''))
m('n11','C14',(XLI,'header.NameGbm != "gblinear"','header.NameGbm != "gblinear" && header.NameGbm != ""'))
m('n12','C14',(SK,'if gbdt.InitEstimator.Name == "LogOddsEstimator" {','if gbdt.InitEstimator.Name == "LogOddsEstimator" || len(gbdt.InitEstimator.Prior) == 1 {'))
m('n13','C14',(XI,'if origTree.Param.NumRoots != 1 {','if origTree.Param.NumRoots > 1 {'))
m('n14','C14',(LI,'''	if data.Name != "tree" {''','''	if data.Name != "" && data.Name != "tree" {'''))
m('o1','C15',(U,'''		line, err = reader.ReadString('\\n')
		if err != nil && err != io.EOF {
			return nil, err
		}''','''		line, err = reader.ReadString('\\n')
		if err != nil {
			break
		}'''))
m('o2','C15',(XB,'''		err := ReadStruct(reader, &stat)
		if err != nil {
			return nil, err
		}''','''		err := ReadStruct(reader, &stat)
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}'''))
m('o3','C15',(D,'''		if err != nil {
			return nil, err
		}
		if buf[0] == '\\n' {''','''		if err != nil && len(line) == 0 {
			return nil, err
		}
		if err != nil || buf[0] == '\\n' {'''))
m('o4','C15',(XB,'''		err = binary.Read(reader, binary.LittleEndian, &gBTreeModel.TreeInfo)
		if err != nil {''','''		err = binary.Read(reader, binary.LittleEndian, &gBTreeModel.TreeInfo)
		if err != nil && err != io.EOF {'''))
m('o5','C15',(LI,'''	dec := json.NewDecoder(reader)

	err := dec.Decode(data)
	if err != nil {
		return nil, err
	}
''','''	dec := json.NewDecoder(bufio.NewReader(reader))

	err := dec.Decode(data)
	if err != nil {
		return nil, err
	}
	if dec.More() {
		return nil, fmt.Errorf("unexpected data after the model")
	}
'''))
m('p2','C16',(L,'if cols[j] < len(fvals) {','if cols[j] < len(fvals) && vals[j] != 0 {'))
m('p3','C16',(L,'''		e.predictInnerAndTransform(fvals, nEstimators, predictions, i*e.NOutputGroups())
		e.resetFVals(fvals)''','''		e.predictInnerAndTransform(fvals, nEstimators, predictions, i*e.NOutputGroups())
		if start < end && cols[end-1] < len(fvals) {
			e.resetFVals(fvals[:cols[end-1]+1])
		}'''))
m('p4','C16',(XL,'''	for j := 0; j < len(fvals); j++ {
		fvals[j] = 0.0
	}''','''	for j := range fvals {
		if fvals[j] != fvals[j] {
			continue
		}
		fvals[j] = 0.0
	}'''))
m('p5','C16',(L,'''			for startIndex := range tasks {
				endIndex := startIndex + BatchSize
				if endIndex > nRows {
					endIndex = nRows
				}

				e.''','''			for startIndex := range tasks {
				endIndex := startIndex + BatchSize
				if endIndex > nRows {
					endIndex = nRows
				}
				if indptr[startIndex] == indptr[endIndex] {
					continue
				}

				e.'''))
m('s1','C19',(XE,'nleaves[groupID*e.NEstimators()+estimatorID] =','nleaves[estimatorID*e.nRawOutputGroups+groupID] ='))
m('s3','C19',(L,'&transformation.TransformLeafIndex{e.NRawOutputGroups() * e.NEstimators()}','&transformation.TransformLeafIndex{e.NOutputGroups() * e.NEstimators()}'))
m('s4','C19',(LI,'e.name = "lightgbm.rf"\n','if nClasses > 1 {\n			e.name = "lightgbm.rf"\n		}\n'))
m('u1','C21',(LI,'if treeJSON.NumLeaves < 1 {\n		return t, fmt.Errorf("num_leaves < 1")\n	}',''))
m('u2','C21',(XI,'''		if origNode.CRight < 0 {
			return node, fmt.Errorf("logic error: got origNode.CRight < 0")
		}''',''))
m('u3','C21',(SK,'''	if numLeaves-1 != numNodes {
		return t, fmt.Errorf("unexpected number of leaves (%d) and nodes (%d)", numLeaves, numNodes)
	}''',''))
m('u4','C21',(XI,'''	if origTree.Param.NumNodes == 0 {
		return t, fmt.Errorf("tree with zero number of nodes")
	}''',''))
m('u5','C21',(LI,'''	} else if nTreePerIteration < 1 {
		return nil, fmt.Errorf("num_tree_per_iteration (%d) should be > 0", nTreePerIteration)
	}''','''	}'''),(LI,'''	} else if nClasses < 1 {
		return nil, fmt.Errorf("num_class (%d) should be > 0", nClasses)
''',''))
m('u6','C21',(LI,'''		threshold, ok := nodeJSON.Threshold.(float64)
		if !ok {
			return node, fmt.Errorf("unexpected Threshold type %T", nodeJSON.Threshold)
		}''','''		threshold := nodeJSON.Threshold.(float64)'''))
m('u7','C21',(D,'''			tuple := append(Tuple{}, d.machine.popMark()...)''','''			tuple := Tuple(d.machine.popMark())'''))
m('u8','C20',(D,'''			tuple := append(Tuple{}, d.machine.popMark()...)''','''			tuple := Tuple(d.machine.popMark())'''))
m('t2','C20',(D,'list := append(List{}, d.machine.popMark()...)','list := List(d.machine.popMark())'))
m('t3','C20',(D,'if nObjs%2 != 0 {','if nObjs%2 != 0 && nObjs < 3 {'),(D,'for i := 0; i < nObjs; i += 2 {','for i := 0; i+1 < nObjs; i += 2 {'))
m('q2','C17',(MI,'''		err = f(records)
		if err != nil {
			return err
		}
		rows++
		if limit''','''		rows++
		err = f(records)
		if err != nil && rows != limit {
			return err
		}
		if limit'''))
m('q5','C17',(MI,'''		_, err := fmt.Fprint(writer, "\\n")
		if err != nil {
			return err
		}
	}
	return nil''','''		fmt.Fprint(writer, "\\n")
	}
	return nil'''))
m('q6','C17',(MI,'"%.19g"','"%.16g"'))
m('q7','C18',(MI,'strconv.ParseUint(pair[0], 10, 32)','strconv.ParseUint(pair[0], 0, 32)'))
m('q8','C18',(MI,'''		if err != nil && err != io.EOF {
			return err
		}
		line = strings.TrimSpace(line)''','''		if err != nil {
			break
		}
		line = strings.TrimSpace(line)'''))
m('q9','C18',(MI,'if len(pair) != 2 {','if len(pair) < 2 {'))
# ---- third batch
m('aa5','C01',(LT,'''func (t *lgTree) numericalDecision(node *lgNode, fval float64) bool {
''','''func (t *lgTree) numericalDecision(node *lgNode, fval float64) bool {
	if node.Threshold >= 1e300 {
		return true
	}
'''))
m('aa6','C01',(LT,'zeroThreshold = 1e-35','zeroThreshold = 1e-36'))
m('ab3','C02',(LI,'''			catIdx = uint32(len(t.catBoundaries) - 1)
			t.catThresholds = append(t.catThresholds, thresholdSlice...)''','''			catIdx = uint32(len(t.catBoundaries) - 1)
			if catIdx > 0 && int(bitsetSize) == int(t.catBoundaries[catIdx]-t.catBoundaries[catIdx-1]) && t.catThresholds[len(t.catThresholds)-1] == thresholdSlice[bitsetSize-1] {
				node = categoricalNode(splitFeatures[idx], missingType, catIdx-1, 0)
				if leftChilds[idx] < 0 {
					node.Flags |= leftLeaf
					node.Left = uint32(^leftChilds[idx])
				}
				if rightChilds[idx] < 0 {
					node.Flags |= rightLeaf
					node.Right = uint32(^rightChilds[idx])
				}
				return node, nil
			}
			t.catThresholds = append(t.catThresholds, thresholdSlice...)'''))
m('ab6','C02 C03',(LT,'node.Threshold = float64(threshold)','node.Threshold = float64(threshold)\n	if catType == catOneHot {\n		node.Threshold = float64(float32(threshold))\n	}'))
m('ab7','C02 C03',(LI,'value > math.MaxInt32','value > math.MaxInt16'))
m('ac3','C03',(U,'''	for {
		line, err = reader.ReadString('\\n')
		if err != nil {
			return nil, err
		}
		line = strings.TrimSpace(line)
		if line != "" {
			break
		}
	}''','''	for i := 0; i < 4; i++ {
		line, err = reader.ReadString('\\n')
		if err != nil {
			return nil, err
		}
		line = strings.TrimSpace(line)
		if line != "" {
			break
		}
	}'''))
m('ac4','C03',(U,'params[tokens[0]] = ""','return nil, fmt.Errorf("wrong line %s", line)'))
m('ad1','C04 C21',(XI,'origNode.SIndex & ((1 << 31) - 1)','origNode.SIndex & ((1 << 24) - 1)'))
m('ad2_equiv','C04',(XI,'math.Nextafter(float64(origNode.Info), math.Inf(-1))','float64(math.Nextafter32(origNode.Info, float32(math.Inf(-1))))'))
m('ad6','C04',(XB,'for i := int32(0); i < treeModel.Param.NumNodes; i++ {\n		stat','for i := int32(0); i < treeModel.Param.NumNodes-treeModel.Param.NumDeleted; i++ {\n		stat'))
m('ad8','C04 C11',(XE,'predictions[startIndex+k] = e.BaseScore','predictions[startIndex+k] = 0.0\n		if k == 0 || nEstimators == e.NEstimators() {\n			predictions[startIndex+k] = e.BaseScore\n		}'))
m('ae1','C05',(XL,'predictions[startIndex+k] = e.BaseScore + ','predictions[startIndex+k] = e.BaseScore\n		if e.nRawOutputGroups > 2 && k == e.nRawOutputGroups-1 {\n			predictions[startIndex+k] = 0\n		}\n		predictions[startIndex+k] += '))
m('ae2','C05 C16',(XL,'if math.IsNaN(fvals[i]) {','if math.IsNaN(fvals[i]) || math.Abs(fvals[i]) < 1e-30 && math.IsInf(float64(e.Weights[e.nRawOutputGroups*i+k]), 0) {'))
m('ae3','C05',(XL,'predictions[startIndex+k] += fvals[i] * float64(e.Weights[e.nRawOutputGroups*i+k])','predictions[startIndex+k] += float64(float32(fvals[i]) * e.Weights[e.nRawOutputGroups*i+k])'))
m('af1','C06',(SK,'t.leafValues = append(t.leafValues, tree.Tree.Values[0]*scale+base)','t.leafValues = append(t.leafValues, tree.Tree.Values[0]*scale)'))
m('af2','C06',(SK,'missingType, refNode.Threshold, defaultType','missingType, float64(float32(refNode.Threshold)), defaultType'))
m('af3','C06',(SK,'scale := gbdt.LearningRate','scale := float64(float32(gbdt.LearningRate))'))
m('af6','C06',(SK,'''		for k := range base {
			base[k] = 0.0
		}''','''		for k := 0; k < len(base) && k < 3; k++ {
			base[k] = 0.0
		}'''))
m('af8','C06',(SK,'t.leafValues = append(t.leafValues, tree.Tree.Values[0]*scale+base)','t.leafValues = append(t.leafValues, tree.Tree.Values[0]+base)'))
m('ag3','C07',(LE,'''	for i := 0; i < nEstimators; i++ {
		for k := 0; k < e.nRawOutputGroups; k++ {
			pred, _ :=''','''	if startIndex >= BatchSize*e.nRawOutputGroups {
		for i := nEstimators - 1; i >= 0; i-- {
			for k := 0; k < e.nRawOutputGroups; k++ {
				pred, _ := e.Trees[i*e.nRawOutputGroups+k].predict(fvals)
				predictions[startIndex+k] += pred * coef
			}
		}
		return
	}
	for i := 0; i < nEstimators; i++ {
		for k := 0; k < e.nRawOutputGroups; k++ {
			pred, _ :='''))
m('ag4','C07',(L,'''	ret := [1]float64{0.0}

	e.predictInnerAndTransform(fvals, nEstimators, ret[:], 0)
	return ret[0]''','''	ret := [1]float64{0.0}

	e.predictInnerAndTransform(fvals, nEstimators, ret[:], 0)
	if e.transform.Type() == transformation.Logistic {
		return 0.5 + 0.5*math.Tanh(0.5*math.Log(ret[0]/(1-ret[0])))
	}
	return ret[0]'''))
m('ah3','C08',(L,'''		go func() {
			defer wg.Done()
			for startIndex := range tasks {
				endIndex''','''		go func() {
			done := false
			for startIndex := range tasks {
				if !done {
					defer wg.Done()
					done = true
				}
				endIndex'''))
m('ah4','C08',(L,'''			fvals := make([]float64, e.NFeatures())
			e.resetFVals(fvals)
			for startIndex := range tasks {
				endIndex := startIndex + BatchSize
				if endIndex > nRows {
					endIndex = nRows
				}
''','''			fvals := make([]float64, e.NFeatures())
			e.resetFVals(fvals)
			for startIndex := range tasks {
				endIndex := startIndex + BatchSize
				if endIndex > nRows {
					endIndex = nRows
					wg.Add(-1)
					defer wg.Add(1)
				}
'''))
m('ah5','C08',(L,'''	// feed the queue
	for i := 0; i < nBatches; i++ {
		tasks <- i * BatchSize
	}
	close(tasks)
	wg.Wait()
	return nil
}

func (e *Ensemble) predictCSRInner(''','''	// feed the queue
	for i := 0; i < nBatches; i++ {
		select {
		case tasks <- i * BatchSize:
		default:
			tasks <- i * BatchSize
			if i == nBatches-1 && nRows%BatchSize == 0 {
				tasks <- i * BatchSize
			}
		}
	}
	close(tasks)
	wg.Wait()
	return nil
}

func (e *Ensemble) predictCSRInner('''))
m('ah8','C08 C09',(LT,'nCategorical  uint32\n','nCategorical  uint32\n	last          uint32\n'),(LT,'return t.leafValues[node.Left], node.Left','t.last = node.Left\n				return t.leafValues[node.Left], t.last'))
m('ai2','C08 C09',(L,'	transform transformation.Transform\n}','	transform transformation.Transform\n	raw       []float64\n}'),(L,'rawPredictions := make([]float64, e.NRawOutputGroups())','if e.raw == nil {\n			e.raw = make([]float64, e.NRawOutputGroups())\n		}\n		rawPredictions := e.raw'),(L,'return &Ensemble{e, &transformation.TransformRaw{e.NRawOutputGroups()}}','return &Ensemble{ensembleBaseInterface: e, transform: &transformation.TransformRaw{e.NRawOutputGroups()}}'),(L,'return &Ensemble{e, &transformation.TransformLeafIndex{e.NRawOutputGroups() * e.NEstimators()}}','return &Ensemble{ensembleBaseInterface: e, transform: &transformation.TransformLeafIndex{e.NRawOutputGroups() * e.NEstimators()}}'),(LI,'return &Ensemble{e, transform}, nil','return &Ensemble{ensembleBaseInterface: e, transform: transform}, nil'),(LI,'return &Ensemble{e, &transformation.TransformRaw{e.nRawOutputGroups}}, nil','return &Ensemble{ensembleBaseInterface: e, transform: &transformation.TransformRaw{e.nRawOutputGroups}}, nil'),(SK,'return &Ensemble{e, &transformation.TransformRaw{e.nRawOutputGroups}}, nil','return &Ensemble{ensembleBaseInterface: e, transform: &transformation.TransformRaw{e.nRawOutputGroups}}, nil'),(XI,'return &Ensemble{e, transform}, nil','return &Ensemble{ensembleBaseInterface: e, transform: transform}, nil'),(XLI,'return &Ensemble{e, transform}, nil','return &Ensemble{ensembleBaseInterface: e, transform: transform}, nil'))
m('ai4','C09',(LE,'	for i := 0; i < nEstimators; i++ {\n		for k := 0; k < e.nRawOutputGroups; k++ {\n			pred, _ :=','	for j := range fvals {\n		if isZero(fvals[j]) {\n			fvals[j] = 0\n		}\n	}\n	for i := 0; i < nEstimators; i++ {\n		for k := 0; k < e.nRawOutputGroups; k++ {\n			pred, _ :='))
m('aj2','C10 C12',(L,'''	nEstimators = e.adjustNEstimators(nEstimators)
	err := e.checkNEstimators(nEstimators)
	if err != nil {
		return err
	}

	if nRows <= BatchSize || nThreads == 0 || nThreads == 1 {
		// single thread calculations
		for''','''	err := e.checkNEstimators(nEstimators)
	nEstimators = e.adjustNEstimators(nEstimators)
	if err != nil {
		return err
	}

	if nRows <= BatchSize || nThreads == 0 || nThreads == 1 {
		// single thread calculations
		for'''))
m('am4','C13',(U,'return 1.0 / (1.0 + math.Exp(-x))','if x > 30 {\n		return 1.0\n	}\n	return 1.0 / (1.0 + math.Exp(-x))'))
m('am4b','C13',(U,'return 1.0 / (1.0 + math.Exp(-x))','if x < -700 {\n		return 0.0\n	}\n	return 1.0 / (1.0 + math.Exp(-x))'))
m('am6','C13',('transformation/exponential.go','outputPredictions[startIndex] = math.Exp(rawPredictions[0])','outputPredictions[startIndex] = math.Exp(rawPredictions[0])\n	if math.IsInf(outputPredictions[startIndex], 1) {\n		outputPredictions[startIndex] = math.MaxFloat64\n	}'))
m('am7','C13',(LI,'if objectiveStr == "poisson" || objectiveStr == "gamma" ||','if objectiveStr == "poisson" ||'))
m('am8','C13',(LI,'strings.HasSuffix(objectiveStr, " sqrt")','strings.Contains(objectiveStr, "sqrt")'),)
m('an1','C14',(LI,'if objectiveStruct.value != 1 {','if objectiveStruct.value < 1 {'))
m('an2','C14',(XI,'if len(weightDrop) != int(origModel.Param.NumTrees) {','if len(weightDrop) < int(origModel.Param.NumTrees) {'),(XI,'for i, v := range weightDrop {','for i, v := range weightDrop[:origModel.Param.NumTrees] {'))
m('ao1','C15',(LI,'	e := &lgEnsemble{name: "lightgbm.gbdt"}\n\n	if data.Name','	if dec.More() {\n		return nil, fmt.Errorf("data after the model")\n	}\n	e := &lgEnsemble{name: "lightgbm.gbdt"}\n\n	if data.Name'))
m('ao2','C15',(XB,'	if err == io.EOF {\n		err = io.ErrUnexpectedEOF\n	}\n','	if err == io.EOF && buf.Len() > 0 {\n		err = nil\n	}\n'),)
m('ao3','C15',(D,'_, err := io.ReadFull(d.reader, buf)','_, err := d.reader.Read(buf)'))
m('ao4','C15',(U,"""		if err != nil && err != io.EOF {
			return nil, err
		}
		line = strings.TrimSpace(line)
		if line == "" {
			break
		}
	}
	return""","""		line = strings.TrimSpace(line)
		if line == "" {
			break
		}
	}
	return"""))
m('ao7','C15',(XI,'''		weightDrop, err := xgbin.ReadFloat32Slice(reader)
		if err != nil {
			return nil, err
		}''','''		weightDrop, err := xgbin.ReadFloat32Slice(reader)
		if err != nil {
			weightDrop = nil
		}
		if weightDrop == nil {
			weightDrop = make([]float32, origModel.Param.NumTrees)
		}'''))
m('ap3','C16',(L,'''			if cols[j] < len(fvals) {
				fvals[cols[j]] = vals[j]
			}''','''			if cols[j] >= len(fvals) {
				break
			}
			fvals[cols[j]] = vals[j]'''))
m('ap4','C16',(L,'if cols[j] < len(fvals) {','if cols[j] < len(fvals) && vals[j] != 0 {'))
m('ap5','C16',(L,'if cols[j] < len(fvals) {','if cols[j] < len(fvals) && !math.IsNaN(vals[j]) {'))
m('ap7','C16',(L,'''		e.resetFVals(fvals)
	}
}''','''		if end-start > 3 {
			e.resetFVals(fvals)
		} else {
			for j := start; j < end; j++ {
				if cols[j] < len(fvals) {
					e.resetFVals(fvals[cols[j]:])
				}
			}
		}
	}
}'''))
m('ap8','C16',(L,'''		e.resetFVals(fvals)
	}
}''','''		for j := start; j < end && j < start+64; j++ {
			if cols[j] < len(fvals) {
				e.resetFVals(fvals[cols[j] : cols[j]+1])
			}
		}
	}
}'''))
m('aq3','C17',(MI,'%.19g','%.16g'))
m('aq5','C17',(MI,'''		_, err := fmt.Fprint(writer, "\\n")
		if err != nil {
			return err
		}
	}
	return nil
}

// ToCsvFile''','''		_, err := fmt.Fprint(writer, "\\n")
		if err != nil && i != m.Rows-1 {
			return err
		}
	}
	return nil
}

// ToCsvFile'''))
m('aq6','C17',(MI,'''		if err != nil && err != io.EOF {
			return err
		}
		// NOTE''','''		if err != nil && err != io.EOF && line == "" {
			return err
		}
		// NOTE'''))
m('aq7','C17',(MI,'tokens := strings.Split(line, delimiter)','tokens := strings.Split(line, delimiter)\n		if len(delimiter) > 1 {\n			tokens = strings.FieldsFunc(line, func(r rune) bool { return strings.ContainsRune(delimiter, r) })\n		}'))
m('aq10','C17 C18',(MI,'mat.Cols != len(records)','mat.Cols > len(records)'))
m('aq12','C18',(MI,'strconv.ParseUint(pair[0], 10, 32)','strconv.ParseUint(pair[0], 10, 16)'))
m('aq13','C18',(MI,'value, err := strconv.ParseFloat(pair[1], 64)','value, err := strconv.ParseFloat(pair[1], 32)'))
m('aq15','C18',(MI,'if len(pair) != 2 {','if len(pair) < 2 {'))
m('aq17','C18',(MM,'''		for j := 0; j < cols; j++ {
			mat.ColIndexes = append(mat.ColIndexes, j)
		}''','''		for j := cols - 1; j >= 0; j-- {
			mat.ColIndexes = append(mat.ColIndexes, j)
		}'''))
m('as5','C19 C13',(L,'return &Ensemble{e, &transformation.TransformRaw{e.NRawOutputGroups()}}','return &Ensemble{e, &transformation.TransformRaw{e.NOutputGroups()}}'))
m('as6','C19 C09',(L,'return &Ensemble{e, &transformation.TransformRaw{e.NRawOutputGroups()}}','if e.transform.Type() == transformation.LeafIndex {\n		e.transform = &transformation.TransformRaw{e.NRawOutputGroups()}\n		return e\n	}\n	return &Ensemble{e, &transformation.TransformRaw{e.NRawOutputGroups()}}'))
m('as7','C19 C09',(L,'return &Ensemble{e, &transformation.TransformRaw{e.NRawOutputGroups()}}','if e.transform.Type() == transformation.Raw {\n		return e\n	}\n	return &Ensemble{e.ensembleBaseInterface, &transformation.TransformRaw{e.NRawOutputGroups()}}'))
m('at2','C20',(D,'tuple := append(Tuple{}, d.machine.popMark()...)','tuple := Tuple(d.machine.popMark())'))
m('at3','C20',(D,'list := append(List{}, d.machine.popMark()...)','list := List(d.machine.popMark())'))
m('at4','C20',(MA,'m.marks = m.marks[:len(m.marks)-1]','m.marks = m.marks[:len(m.marks)-1]\n	if len(m.marks) > 6 {\n		m.marks = m.marks[:6]\n	}'))
m('at5','C20',(D,'if bytes.HasPrefix(rawString[i:], []byte("\\\\u")) && i+6 <= len(rawString) {','if bytes.HasPrefix(rawString[i:], []byte("\\\\u")) && i+6 < len(rawString) {'))
m('at7','C20',(D,'''		case opNone:''','''		case opPop:
			d.machine.pop()
		case opNone:'''))
m('at8','C20',(MA,'m.memory[key] = m.back()','if _, found := m.memory[key]; !found {\n		m.memory[key] = m.back()\n	}'))
m('au2','C21',(XB,'''	vec := make([]float32, size)
	err = binary.Read(bytes.NewReader(data)''','''	vec := make([]float32, size)
	if len(data) < 8 {
		return vec[:1], nil
	}
	err = binary.Read(bytes.NewReader(data)'''))
m('au3','C21',(XI,'if origNode.CLeft >= numNodes || origNode.CRight >= numNodes {','if origNode.CLeft > numNodes || origNode.CRight > numNodes {'))
m('au4','C21',(LT,'if int(node.Left) >= len(t.leafValues) {','if int(node.Left) > len(t.leafValues) {'))
m('au5x','C21',(LT,'if int(node.Feature) >= nFeatures {','if int(node.Feature) > nFeatures {'))
m('au6x','C21',(LT,'int(node.Left) <= i ||','int(node.Left) < i ||'))
m('au7x','C21',(LI,'if int(leftChilds[i]) >= numNodes || int(rightChilds[i]) >= numNodes {','if int(leftChilds[i]) >= numNodes {'))
NP='internal/pickle/numpy.go'
m('ba1','C22',(LI,'		return 0, fmt.Errorf("unknown missing type = %d", missingTypeOrig)','		missingType = missingNan | missingZero'))
m('ba2','C22',(LI,'''			return node, fmt.Errorf("unknown missing_type '%s'", nodeJSON.MissingType)
		}

		if node''','''			missingType = missingNan
		}

		if node'''))
m('ba3','C22',(LI,'''			return node, fmt.Errorf("unknown missing_type '%s'", nodeJSON.MissingType)
		}
		if node''','''			missingType = 0
		}
		if node'''))
m('ba4','C22',(U,'value, err := strconv.ParseUint(vStr, 10, 32)','value, err := strconv.ParseInt(vStr, 10, 64)'))
m('ba5','C22',(U,'value, err := strconv.ParseInt(vStr, 10, 32)','value, err := strconv.ParseInt(vStr, 10, 64)'))
m('ba6','C22',(U,'''	values := make([]float64, 0, len(valuesStr))
	for _, vStr := range valuesStr {
		value, err := strconv.ParseFloat(vStr, 64)''','''	values := make([]float64, 0, len(valuesStr))
	for _, vStr := range valuesStr {
		var value float64
		_, err := fmt.Sscan(vStr, &value)'''))
m('ba7','C22',(U,'''	value, err := strconv.Atoi(valueStr)
	if err != nil {
		return 0, fmt.Errorf("can't convert %s: %s", key, err.Error())''','''	value, err := strconv.Atoi(valueStr)
	if err != nil && valueStr != "" {
		return 0, fmt.Errorf("can't convert %s: %s", key, err.Error())'''))
m('ba8','C22',(LI,'nodeJSON.DecisionType == "<="','nodeJSON.DecisionType == "<=" || nodeJSON.DecisionType == ""'))
m('ba8b','C22',(LI,'nodeJSON.DecisionType == "<="','nodeJSON.DecisionType == "<=" || nodeJSON.DecisionType == "<"'))
m('ba9','C22',(LI,'''		value, ok := data["leaf_value"].(float64)
		if !ok {
			return nil, fmt.Errorf("unknown tree")
		}''','''		if _, ok := data["leaf_value"]; !ok {
			return nil, fmt.Errorf("unknown tree")
		}
		value, _ := data["leaf_value"].(float64)'''))
m('ba10','C22',(LI,'''		value, ok := data["leaf_value"].(float64)
		if !ok {''','''		value, ok := data["leaf_value"].(float64)
		if !ok && len(data) != 0 {'''))
m('ba11','C22',(LI,'''		threshold, ok := nodeJSON.Threshold.(float64)
		if !ok {''','''		threshold, ok := nodeJSON.Threshold.(float64)
		if !ok && nodeJSON.Threshold != nil {'''))
m('ba12','C22',(LI,'''		threshold, ok := nodeJSON.Threshold.(float64)
''','''		if s, ok := nodeJSON.Threshold.(string); ok {
			if v, err := strconv.ParseFloat(s, 64); err == nil {
				nodeJSON.Threshold = v
			}
		}
		threshold, ok := nodeJSON.Threshold.(float64)
'''))
m('ba13','C22',(PS,'''	t.LearningRate, err = dict.toFloat("learning_rate")
	if err != nil {''','''	t.LearningRate, err = dict.toFloat("learning_rate")
	if _, absent := dict.value("learning_rate"); absent != nil {
		t.LearningRate, err = 0.1, nil
	}
	if err != nil {'''))
m('ba14','C22',(NP,'if isFortran != 0 {','if isFortran != 0 && len(a.Shape) < 2 {'))
m('ba15','C22',(PS,'''	if arr.Type.Type != "f8" {
		return fmt''','''	if arr.Type.Type != "f8" && arr.Type.Type != "f4" {
		return fmt'''))
m('ba16','C22',(PS,'if numpyScalar.Type.Type != "f8" {','if numpyScalar.Type.Type[1:] != "8" {'))
m('ba17','C22',(PS,'if numpyArray.Type.Type != "f8" {','if numpyArray.Type.Type[1:] != "8" {'))
m('ba18','C22',(PS,'''	t.NFeatures, err = dict.toInt("n_features_")
	if err''','''	t.NFeatures, err = dict.toInt("n_features_")
	if err != nil {
		t.NFeatures, err = t.MaxFeatures, nil
	}
	if err'''))
m('ba19','C22',(LI,'''	numCategorical, err := params.ToInt("num_cat")
	if err != nil {''','''	numCategorical, err := params.ToInt("num_cat")
	if err != nil && params.Contains("num_cat") {'''))
m('ba20','C22',(LI,'''	decisionTypes, err := params.ToUint32Slice("decision_type")
	if err''','''	decisionTypes, err := params.ToUint32Slice("decision_type")
	if err != nil && !params.Contains("decision_type") {
		decisionTypes, err = make([]uint32, numNodes), nil
	}
	if err'''))
m('ba21','C22',(LI,'if value, err := strconv.Atoi(valueStr); err != nil || value < 0','if value, err := strconv.Atoi(valueStr); (err != nil && valueStr != "") || value < 0'),(LI,'''				value, err := strconv.Atoi(valueStr)
				if err != nil {''','''				value, err := strconv.Atoi(valueStr)
				if err != nil && valueStr != "" {'''))
m('ba22','C22',(LI,'value < 0 || value > math.MaxInt32 {','value > math.MaxInt32 {'),(LI,'value, err := strconv.Atoi(tokens[0])','value, err := strconv.Atoi(strings.TrimPrefix(tokens[0], "-"))'))
m('ba23','C22',(PS,'''	t.NNodes, err = dict.toInt("node_count")
	if err''','''	t.NNodes, err = dict.toInt("node_count")
	if err != nil {
		t.NNodes, err = -1, nil
	}
	if err'''),(SK,'tree.Tree.NNodes != len(tree.Tree.Nodes) ||','(tree.Tree.NNodes >= 0 && tree.Tree.NNodes != len(tree.Tree.Nodes)) ||'),(SK,'make([]bool, tree.Tree.NNodes)','make([]bool, len(tree.Tree.Nodes))'))
m('ba24','C22',(PS,'''		return fmt.Errorf("expected arr.Type.Type = \\"V56\\" (got: %s)", arr.Type.Type)''','''		if arr.Type.Type[0] != 'V' {
			return fmt.Errorf("expected arr.Type.Type = \\"V56\\" (got: %s)", arr.Type.Type)
		}'''))
m('ba25','C22',(LI,'''	leafValues, err := params.ToFloat64Slice("leaf_value")
	if err != nil {
		return t, err
	}
''','''	leafValues, err := params.ToFloat64Slice("leaf_value")
	if err != nil && numLeaves > 1 {
		return t, err
	} else if err != nil {
		leafValues = []float64{0}
	}
'''))
m('ba26','C22',(LI,'''	thresholds, err := params.ToFloat64Slice("threshold")
	if err''','''	thresholds, err := params.ToFloat64Slice("threshold")
	if err != nil && numCategorical == numNodes {
		thresholds, err = make([]float64, numNodes), nil
	}
	if err'''))
m('ba27','C22',(PS,'''	e.Name = classDesc.Name
''','''	e.Name = classDesc.Name
	if e.Name == "ZeroEstimator" {
		e.Name, e.Prior = "LogOddsEstimator", []float64{0}
	}
'''))
# batch da
m('da1','C03 C01 C15',(U,'''		line, err = reader.ReadString('\\n')
		if err != nil && err != io.EOF {
			return nil, err
		}
		line = strings.TrimSpace(line)
		if line == "" {''','''		var buf []byte
		buf, err = reader.ReadSlice('\\n')
		if err != nil && err != io.EOF && err != bufio.ErrBufferFull {
			return nil, err
		}
		line = strings.TrimSpace(string(buf))
		if line == "" {'''))
m('da3','C17 C18',(MI,'''	records := make([]libsvmRecord, 0)
	rows := 0
	startIndex := 0
	if skipFirstColumn {
		startIndex = 1
	}
	for {
		line, err := reader.ReadString('\\n')
		if err != nil && err != io.EOF {
			return err
		}''','''	records := make([]libsvmRecord, 0)
	rows := 0
	startIndex := 0
	if skipFirstColumn {
		startIndex = 1
	}
	scanner := bufio.NewScanner(reader)
	for scanner.Scan() {
		var err error
		line := scanner.Text()'''))
m('da6','C16 C09',(L,'''		fvals := make([]float64, e.NFeatures())
		e.resetFVals(fvals)
		e.predictCSRInner(indptr, cols, vals, 0, len(indptr)-1, predictions, nEstimators, fvals)
		return nil''','''		fvals := rowBuf(e.NFeatures())
		if fvals == nil {
			fvals = make([]float64, e.NFeatures())
			e.resetFVals(fvals)
		}
		e.predictCSRInner(indptr, cols, vals, 0, len(indptr)-1, predictions, nEstimators, fvals)
		rowBufs.Put(fvals)
		return nil'''),(L,'// BatchSize for','''var rowBufs sync.Pool

func rowBuf(n int) []float64 {
	if b, ok := rowBufs.Get().([]float64); ok && len(b) == n {
		return b
	}
	return nil
}

// BatchSize for'''))
m('da7','C07 C09 C07',(L,'''	nRows := 1
	if len(pred''','''	nRows := 1
	if len(fvals) > 0 && e.lastKey == &fvals[0] && e.lastN == nEstimators && len(predictions) >= len(e.lastOut) {
		copy(predictions, e.lastOut)
		return nil
	}
	if len(pred'''),(L,'''	transform transformation.Transform
}''','''	transform transformation.Transform
	lastKey   *float64
	lastN     int
	lastOut   []float64
}'''),(L,'return &Ensemble{e, &transformation.TransformRaw{e.NRawOutputGroups()}}','return &Ensemble{ensembleBaseInterface: e, transform: &transformation.TransformRaw{e.NRawOutputGroups()}}'),(L,'return &Ensemble{e, &transformation.TransformLeafIndex{e.NRawOutputGroups() * e.NEstimators()}}','return &Ensemble{ensembleBaseInterface: e, transform: &transformation.TransformLeafIndex{e.NRawOutputGroups() * e.NEstimators()}}'),(LI,'return &Ensemble{e, transform}','return &Ensemble{ensembleBaseInterface: e, transform: transform}'),(LI,'return &Ensemble{e, &transformation','return &Ensemble{ensembleBaseInterface: e, transform: &transformation'),(XI,'return &Ensemble{e, transform}','return &Ensemble{ensembleBaseInterface: e, transform: transform}'),(XLI,'return &Ensemble{e, transform}','return &Ensemble{ensembleBaseInterface: e, transform: transform}'),(SK,'return &Ensemble{e, &transformation','return &Ensemble{ensembleBaseInterface: e, transform: &transformation'),(L,'''	e.predictInnerAndTransform(fvals, nEstimators, predictions, 0)
	return nil''','''	e.predictInnerAndTransform(fvals, nEstimators, predictions, 0)
	if len(fvals) > 0 {
		e.lastKey, e.lastN, e.lastOut = &fvals[0], nEstimators, append([]float64{}, predictions[:e.NOutputGroups()]...)
	}
	return nil'''))
m('da11','C11',(LE,'''	if nEstimators > 0 {
		nEstimators = util''','''	nEstimators = int(int32(nEstimators))
	if nEstimators > 0 {
		nEstimators = util'''))
m('da16','C01 C03',(LI,'''	t.leafValues = leafValues
''','''	if _, ok := params["shrinkage"]; ok {
		if s, err := params.ToFloat64Slice("shrinkage"); err == nil && s[0] > 1 {
			for i := range leafValues {
				leafValues[i] *= s[0]
			}
		}
	}
	t.leafValues = leafValues
'''))
m('da17','C03',(U,'tokens := strings.SplitN(line, "=", 2)','tokens := strings.Split(line, "=")'))
m('da20','C07 C08',(L,'''	if nThreads > nBatches {
		nThreads = nBatches
	}
	tasks := make(chan int)

	wg := sync.WaitGroup{}
	for i := 0; i < nThreads; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for startIndex''','''	if nThreads > nBatches {
		nThreads = nBatches
	}
	tasks := make(chan int, nBatches)

	wg := sync.WaitGroup{}
	for i := 0; i < nThreads; i++ {
		go func() {
			wg.Add(1)
			defer wg.Done()
			for startIndex'''))
m('da21','C09 C08',(L,'''		rawPredictions := make([]float64, e.NRawOutputGroups())
''','''		if len(e.scratch) != e.NRawOutputGroups() {
			e.scratch = make([]float64, e.NRawOutputGroups())
		}
		rawPredictions := e.scratch
'''),*[(f,a.replace('&Ensemble{e, t','&Ensemble{e, t'),a.replace('&Ensemble{e, transform}','&Ensemble{ensembleBaseInterface: e, transform: transform}').replace('&Ensemble{e, &','&Ensemble{ensembleBaseInterface: e, transform: &')) for f,a in ((L,'return &Ensemble{e, &transformation.TransformRaw'),(L,'return &Ensemble{e, &transformation.TransformLeaf'),(LI,'return &Ensemble{e, transform}'),(LI,'return &Ensemble{e, &transformation'),(XI,'return &Ensemble{e, transform}'),(XLI,'return &Ensemble{e, transform}'),(SK,'return &Ensemble{e, &transformation'))],(L,'''	transform transformation.Transform
}''','''	transform transformation.Transform
	scratch   []float64
}'''))
m('da22','C12 C03',(LT,'if index < 0 || index >= len(used) || used[index] {','if index <= 0 && i > 0 || index >= len(used) || used[index] {'))
m('da23','C12 C03',(LI,'''	leafValues, err := params.ToFloat64Slice("leaf_value")''','''	if numLeaves > 1<<15 {
		return t, fmt.Errorf("too many leaves")
	}
	leafValues, err := params.ToFloat64Slice("leaf_value")'''))
m('da24','C04',(XI,'if origTree.Param.NumRoots != 1 {','if origTree.Param.NumRoots != 1 || origTree.Param.NumDeleted > 64 {'))
m('da25','C04',(XI,'if xgIsLeaf(&origTree.Nodes[0]) {','if xgIsLeaf(&origTree.Nodes[0]) && numNodes == 1 {'))
m('da26','C04 C12 C21',(XI,'''	return origNode.CLeft == -1''','''	return origNode.CLeft == -1 || origNode.CLeft == 0'''))
m('da27','C05',(XL,'if math.IsNaN(fvals[i]) {','if math.IsNaN(fvals[i]) || fvals[i] == 0 {'))
m('da28','C05',(XL,'if math.IsNaN(fvals[i]) {','if math.IsNaN(fvals[i]) || math.IsInf(fvals[i], 0) {'))
m('da29','C13',(U,'''func Sigmoid(x float64) float64 {''','''func Sigmoid(x float64) float64 {
	if x < -700 {
		return 0
	}'''))
m('da30','C13',('transformation/exponential.go','math.Exp(rawPredictions[0])','math.Expm1(rawPredictions[0]) + 1'))
m('da31','C17',(MI,'len(tokens[col]) == 0 {\n				value','strings.TrimSpace(tokens[col]) == "" {\n				value'))
m('da32','C18',(MI,'''			if len(tokens[col]) == 0 {
				continue
			}
			pair''','''			if len(tokens[col]) == 0 || tokens[col][0] == '#' {
				continue
			}
			pair'''))
m('da33','C18',(MI,'''		records = records[:0]
		for col := startIndex; col < len(tokens); col++ {
			if len''','''		records = records[:0]
		if cap(records) < len(tokens) {
			records = make([]libsvmRecord, 1, len(tokens))[:0]
		}
		for col := startIndex; col < len(tokens); col++ {
			if len'''))
m('da34','C19 C12',(XE,'nleaves[groupID*e.NEstimators()+estimatorID] =','nleaves[estimatorID*e.NRawOutputGroups()+groupID] ='))
m('da35','C10',(L,'if len(vals) < nRows*ncols {','if len(vals) < (nRows-1)*ncols+e.NFeatures() {'))
m('da36','C10',(L,'''	if ncols == 0 || e.NFeatures() > ncols {
		return fmt.Errorf("incorrect number of columns")
	}
	if len(vals)''','''	if nRows == 0 {
		return nil
	}
	if ncols == 0 || e.NFeatures() > ncols {
		return fmt.Errorf("incorrect number of columns")
	}
	if len(vals)'''))
m('da37','C16 C07',(L,'''			if cols[j] < len(fvals) {
				fvals''','''			if cols[j] >= len(fvals) {
				break
			}
			{
				fvals'''))
m('da38','C16',(L,'''		e.predictInnerAndTransform(fvals, nEstimators, predictions, i*e.NOutputGroups())
		e.resetFVals(fvals)''','''		e.predictInnerAndTransform(fvals, nEstimators, predictions, i*e.NOutputGroups())
		if start < end {
			e.resetFVals(fvals[:util_max(cols[start:end], len(fvals))])
		}'''),(L,'// BatchSize for','''func util_max(cols []int, n int) int {
	m := cols[len(cols)-1] + 1
	if m > n {
		m = n
	}
	return m
}

// BatchSize for'''))
m('da39','C14',(XI,'header.NameObj == "binary:logistic"','header.NameObj == "binary:logistic" || header.NameObj == "binary:logitraw"'))
m('da40','C14',(LI,'objectiveStruct.value != 1 {','objectiveStruct.value < 1 {'))
m('da41','C14',(LI,'if loadTransformation && !e.averageOutput {','if loadTransformation && (!e.averageOutput || e.nRawOutputGroups > 1) {'))
m('da42','C15',(XB,'''	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return buf''','''	if err == io.EOF && buf.Len() == 0 {
		err = io.ErrUnexpectedEOF
	} else if err == io.EOF {
		err = nil
	}
	return buf'''))
m('da43','C21',(LI,'if catBoundaries[catIdx] > catBoundaries[catIdx+1] || int(catBoundaries[catIdx+1]) > len(catThresholds) {','if int(catBoundaries[catIdx+1]) > len(catThresholds) {'))
m('da44','C20',(D,'bytes.HasPrefix(rawString[i:], []byte("\\\\u"))','bytes.HasPrefix(bytes.ToLower(rawString[i:]), []byte("\\\\u"))'))
# ---- batch db
m('db1','C19 C09 C10',(LE,'	name string\n	// averageOutput','	name string\n	leafCounts []int\n	// averageOutput'),(LE,'''	nleaves := make([]int, e.NEstimators()*e.NRawOutputGroups())
''','''	if e.leafCounts != nil {
		return e.leafCounts
	}
	nleaves := make([]int, e.NEstimators()*e.NRawOutputGroups())
'''),(LE,'''	return nleaves
''','''	e.leafCounts = nleaves
	return nleaves
'''))
m('db2','C07 C16',(L,'''			if cols[j] < len(fvals) {
				fvals''','''			if cols[j] < len(fvals) && (j == start || cols[j] != cols[j-1]) {
				fvals'''))
m('db3','C07 C16 C08',(L,'''	for i := startIndex; i < endIndex; i++ {
		start := indptr[i]
		end := indptr[i+1]
''','''	for i := startIndex; i < endIndex; i++ {
		start := indptr[i]
		end := indptr[i+1]
		if start == end && i > startIndex && indptr[i-1] == start {
			g := e.NOutputGroups()
			copy(predictions[i*g:(i+1)*g], predictions[(i-1)*g:i*g])
			continue
		}
'''))
m('db4','C02',(LT,'return util.FindInBitsetUint32(uint32(node.Threshold), uint32(ifval))','return util.FindInBitsetUint32(uint32(int32(node.Threshold)), uint32(ifval))'))
m('db5','C02 C03',(U,'''	max := values[0]
	for _, v := range values {
		if v > max {
			max = v
		}
	}
	max++''','''	max := values[len(values)-1]
	if values[0] > max {
		max = values[0]
	}
	max++'''),(U,'		i1 := v / 32\n','		i1 := v / 32\n		if i1 >= len(bitset) {\n			bitset = append(bitset, make([]uint32, i1+1-len(bitset))...)\n		}\n'))
m('db6','C02 C03',(U,'		i1 := v / 32\n','		i1 := v / 32\n		if bitset[i1]>>uint32(v%32)&1 > 0 {\n			break\n		}\n'))
m('db7','C14 C21',(XI,'''	if origTree.Param.NumRoots != 1 {
		return t, fmt''','''	if origTree.Param.NumRoots != 1 && origTree.Param.NumNodes > 1 {
		return t, fmt'''))
m('db8','C14',(LI,'''	if err := params.Compare("version", "v2"); err != nil {''','''	if version, _ := params.ToString("version"); !strings.HasPrefix(version, "v2") {'''))
m('db9','C18',(MI,'if len(tokens) < 2 {','if len(tokens) < 1+startIndex {'))
m('db10','C18',(MI,'strconv.ParseUint(pair[0], 10, 32)','strconv.ParseUint(pair[0], 0, 32)'))
m('db11','C20',(D,'''			obj := d.machine.getMemory(string(line))
''','''			obj := d.machine.getMemory(string(line))
			if t, ok := obj.(Dict); ok && len(t) == 0 {
				obj = Dict{}
			}
'''))
m('db12','C20 C06',(D,'''			v, err := strconv.Atoi(string(line[:l-1]))
			if err != nil {
				return nil, fmt.Errorf("unexpected long format: %s", line)
			}
			d.machine.push(v)''','''			v, err := strconv.ParseInt(string(line[:l-1]), 10, 32)
			if err != nil {
				return nil, fmt.Errorf("unexpected long format: %s", line)
			}
			d.machine.push(int(v))'''))
m('db13','C15',(XB,'''	buf := bytes.Buffer{}
	_, err := io''','''	if data, err := reader.Peek(int(size & 4095)); err == nil && size < 4096 && reader.Buffered() > int(size) {
		reader.Discard(int(size))
		return data, nil
	}
	buf := bytes.Buffer{}
	_, err := io'''))
m('db14','C15 C01',(U,'''	for {
		// NOTE''','''	for len(params) < 1<<10 {
		// NOTE'''))
m('db15','C15 C03',(U,'''		line = strings.TrimSpace(line)
		if line == "" {
			break
		}
	}
	return params''','''		line = strings.TrimRight(line, "\\n")
		if line == "" {
			break
		}
	}
	return params'''))
m('db16','C03 C01',(U,'''			params[tokens[0]] = tokens[1]
		} else''','''			params[tokens[0]] = strings.Trim(tokens[1], "[]")
		} else'''))
m('db17','C03 C12',(LI,'''		if index, ok := data["leaf_index"].(float64); ok {''','''		if index, ok := data["leaf_index"].(float64); ok && index > 0 {'''))
m('db18','C03 C12',(LT,'''		used[index] = true
''','''		used[index] = index < 64
'''))
m('db19','C03 C02',(LI,'''		tokens := strings.Split(thresholdString, "||")
		for''','''		tokens := strings.SplitN(thresholdString, "||", 256)
		for'''))
m('db20','C01 C03',(LI,'''		defaultType := uint8(0)
		if decisionTypes[idx]&(1<<1) > 0 {
			defaultType = defaultLeft
		}
		node = numericalNode(splitFeatures[idx], missingType, thresholds[idx], defaultType)''','''		defaultType := uint8(0)
		if decisionTypes[idx]&(1<<1) > 0 {
			defaultType = defaultLeft
		}
		if missingType == missingZero && isZero(thresholds[idx]) {
			// zeros are missing here
			defaultType = defaultLeft
		}
		node = numericalNode(splitFeatures[idx], missingType, thresholds[idx], defaultType)'''))
m('db21','C04',(XI,'''		if math.IsInf(threshold, -1) {''','''		if math.IsInf(threshold, 0) {'''))
m('db22','C04',(XI,'''		if math.IsInf(threshold, -1) {''','''		if threshold < -math.MaxFloat32 {'''))
m('db23','C04',(XI,'return origNode.CLeft == -1','return origNode.CLeft == -1 || origNode.CLeft == origNode.CRight'))
m('db24','C04 C21',(XI,'''	if xgIsLeaf(&origTree.Nodes[0]) {''','''	if xgIsLeaf(&origTree.Nodes[0]) || numNodes-origTree.Param.NumDeleted <= 1 {'''))
m('db25','C05',(XL,'''		predictions[startIndex+k] = e.BaseScore + float64(e.Weights[e.nRawOutputGroups*e.NumFeature+k])''','''		predictions[startIndex+k] = float64(float32(e.BaseScore) + e.Weights[e.nRawOutputGroups*e.NumFeature+k])'''))
m('db26','C05 C16',(XL,'''	for j := 0; j < len(fvals); j++ {
		fvals[j] = 0.0
	}''','''	for j := 1; j <= len(fvals); j *= 2 {
		copy(fvals[j:], fvals[:j])
	}'''))
m('db27','C16 C04',(XE,'''	for j := 0; j < len(fvals); j++ {
		fvals[j] = math.NaN()
	}''','''	if len(fvals) == 0 {
		return
	}
	fvals[0] = math.NaN()
	for j := 1; j < len(fvals) && j <= 1<<9; j *= 2 {
		copy(fvals[j:], fvals[:j])
	}'''))
m('db28','C06',(PS,'''	if t.NClasses == 2 {
		adjNClasses = 1''','''	if len(t.InitEstimator.Prior) == 1 {
		adjNClasses = 1'''))
m('db29','C06',(SK,'''		for k := range base {
			base[k] = 0.0
		}''','''		base = make([]float64, e.nRawOutputGroups)[:0:e.nRawOutputGroups]
		base = base[:cap(base)]'''))
m('db31','C06 C12',(SK,'''tree.Tree.Values[refNode.LeftChild]*scale+base)
		}''','''(tree.Tree.Values[refNode.LeftChild]+base/scale)*scale)
		}'''))
m('db33','C13',('util/util.go','''	for _, v := range rawValues {
		max = math.Max(max, v)
	}''','''	for _, v := range rawValues {
		max = math.Max(max, v)
	}
	if max < 700 {
		max = 0
	}'''))
m('db34','C13',('util/util.go','return 1.0 / (1.0 + math.Exp(-x))','''if x < -36 {
		return 0
	}
	return 1.0 / (1.0 + math.Exp(-x))'''))
m('db35','C13',('util/util.go','return 1.0 / (1.0 + math.Exp(-x))','''return 0.5 * (1 + math.Tanh(0.5*x))'''))
m('db36','C17',(MI,'''"%.19g", m.Values[i*m.Cols+j])''','''"%.17G", m.Values[i*m.Cols+j])'''))
m('db37','C17',(MI,'''		tokens := strings.Split(line, delimiter)

		records''','''		tokens := strings.Split(line, delimiter)
		if n := len(tokens) - 1; mat_trail && n > 0 && n == width && tokens[n] == "" {
			tokens = tokens[:n]
		}
		width = len(tokens)

		records'''),(MI,'''	records := make([]libsvmRecord, 0)
	rows := 0
	startIndex := 0''','''	const mat_trail = true
	width := 0
	records := make([]libsvmRecord, 0)
	rows := 0
	startIndex := 0'''))
m('db38','C17',(MI,'''	f, err := os.Create(filename)''','''	f, err := os.OpenFile(filename, os.O_CREATE|os.O_WRONLY, 0644)'''))
m('db39','C17 C18',(MI,'''		if limit > 0 && rows == limit {
			break
		}
	}
	return nil
}

// WriteStr''','''		if limit > 0 && rows == limit {
			break
		}
		if err == io.EOF {
			break
		}
	}
	return nil
}

// WriteStr'''))
m('db40','C18',(MM,'''	if len(values) != cols*rows {
		return mat, fmt.Errorf("wrong dimensions")
	}
	mat.Values = append(mat.Values, values...)
	mat.ColIndexes''','''	if len(values) != cols*rows {
		return mat, fmt.Errorf("wrong dimensions")
	}
	mat.Values = values
	mat.ColIndexes'''))
m('db41','C11 C01',(LE,'''	coef := 1.0
	if e.averageOutput {
		coef = 1.0 / float64(nEstimators)''','''	coef := 1.0
	if e.averageOutput && nEstimators > 1 {
		coef = 1.0 / float64(nEstimators-1+len(e.Trees)/(nEstimators*e.nRawOutputGroups))'''))
m('db42','C12',(LE,'''	nResults := e.nRawOutputGroups * nEstimators
	for k := 0; k < nResults; k++ {
		predictions[startIndex+k] = 0.0
	}
''','''	if startIndex+e.nRawOutputGroups*nEstimators > len(predictions) {
		return
	}
'''))
m('db43','C10 C19',(L,'''	return &Ensemble{e, &transformation.TransformRaw{e.NRawOutputGroups()}}''','''	if e.transform.Type() == transformation.Raw {
		return e
	}
	return &Ensemble{e, &transformation.TransformRaw{e.NRawOutputGroups()}}'''))
m('db44','C10 C19 C12',(L,'''	return &Ensemble{e, &transformation.TransformLeafIndex{e.NRawOutputGroups() * e.NEstimators()}}''','''	return &Ensemble{e, &transformation.TransformLeafIndex{e.NOutputGroups() * e.NEstimators()}}'''))
m('db45','C19 C12',(XE,'nleaves[groupID*e.NEstimators()+estimatorID] = e.Trees[estimatorID*e.NRawOutputGroups()+groupID].nLeaves()','nleaves[groupID*e.NEstimators()+estimatorID] = len(e.Trees[estimatorID*e.NRawOutputGroups()+groupID].nodes)|1'))
m('db46','C21',(LT,'else if int(node.Right) != i+1 ||','else if int(node.Right) <= i ||'))
m('db47','C21 C04',(XI,'if origNode.CLeft >= numNodes || origNode.CRight >= numNodes {','if origNode.CLeft >= numNodes && origNode.CRight >= numNodes {'))
m('db48','C22',(LI,'''			if value, err := strconv.Atoi(valueStr); err''','''			if value, err := strconv.Atoi(strings.TrimSpace(valueStr)); err'''),(LI,'value, err := strconv.Atoi(tokens[0])','value, err := strconv.Atoi(strings.TrimSpace(tokens[0]))'),(LI,'''				value, err := strconv.Atoi(valueStr)
''','''				value, err := strconv.Atoi(strings.TrimSpace(valueStr))
'''))
m('db49','C22',(LI,'if nodeJSON.SplitFeature == nil || nodeJSON.DefaultLeft == nil {','if nodeJSON.SplitFeature == nil {'),(LI,'		if *nodeJSON.DefaultLeft {','		if nodeJSON.DefaultLeft != nil && *nodeJSON.DefaultLeft {'))
m('db50','C08',(L,'''	tasks := make(chan int)

	wg := sync.WaitGroup{}
	for i := 0; i < nThreads; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for''','''	tasks := make(chan int)

	wg := sync.WaitGroup{}
	for i := 0; i < nThreads; i++ {
		go func() {
			wg.Add(1)
			defer wg.Done()
			for'''))
m('dc1','C04',(XE,'predictions[startIndex+k] += pred * e.WeightDrop[ID]','predictions[startIndex+k] = float64(float32(predictions[startIndex+k] + pred*e.WeightDrop[ID]))'))
m('dc2','C01',(LE,'predictions[startIndex+k] += pred * coef','predictions[startIndex+k] = float64(float32(predictions[startIndex+k] + pred*coef))'))
m('dc3','C05',(XL,'predictions[startIndex+k] += fvals[i] * float64(e.Weights[e.nRawOutputGroups*i+k])','predictions[startIndex+k] += float64(float32(fvals[i]) * e.Weights[e.nRawOutputGroups*i+k])'))
m('dc4','C06',(SK,'tree.Tree.Values[refNode.RightChild]*scale+base','float64(float32(tree.Tree.Values[refNode.RightChild]*scale+base))'))
m('dc5','C05',(XL,'predictions[startIndex+k] += fvals[i] * float64(e.Weights[e.nRawOutputGroups*i+k])','predictions[startIndex+k] = float64(float32(predictions[startIndex+k] + fvals[i] * float64(e.Weights[e.nRawOutputGroups*i+k])))'))
m('dd1','C17 C18',(MI,'''	defer reader.Close()
	mat, err := DenseMatFromLibsvm''','''	mat, err := DenseMatFromLibsvm'''))
m('dd2','C15',(SK,'''	defer reader.Close()
''',''))
m('dd3','C17',(MI,'''	if closeErr := f.Close(); err == nil {
		err = closeErr
	}
	return err''','''	if err != nil {
		return err
	}
	return f.Close()'''))
m('dd4','C15',(XI,'''	defer reader.Close()
	bufReader := bufio.NewReader(reader)
	return XGEnsembleFromReader(bufReader, loadTransformation)''','''	bufReader := bufio.NewReader(reader)
	e, err := XGEnsembleFromReader(bufReader, loadTransformation)
	if err != nil {
		return nil, err
	}
	return e, reader.Close()'''))
m('de1','C15 C20',('internal/pickle/decoder.go','''	line := make([]byte, 0)
	buf := make([]byte, 1)
	for {''','''	line := lineBuf[:0]
	buf := make([]byte, 1)
	defer func() { lineBuf = line }()
	for {'''),('internal/pickle/decoder.go','func (d *Decoder) readLine() ([]byte, error) {','var lineBuf []byte\n\nfunc (d *Decoder) readLine() ([]byte, error) {'))
m('de2','C17 C18',('mat/mat_io.go','''	records := make([]libsvmRecord, 0)
	rows := 0''','''	records := scratch[:0]
	defer func() { scratch = records }()
	rows := 0'''),('mat/mat_io.go','type libsvmRowFunc','var scratch []libsvmRecord\n\ntype libsvmRowFunc'))
m('de3','C15',('util/util.go','''	params := make(stringParams)
	var line''','''	for k := range params {
		delete(params, k)
	}
	var line'''),('util/util.go','type stringParams map[string]string','type stringParams map[string]string\n\nvar params = make(stringParams)\n'))
m('de4','C17 C18',('mat/mat_io.go','''	records := make([]libsvmRecord, 0)
	startIndex''','''	records := scratch[:0]
	defer func() { scratch = records }()
	startIndex'''),('mat/mat_io.go','type libsvmRowFunc','var scratch []libsvmRecord\n\ntype libsvmRowFunc'))
m('df1','C23',(U,'((e >> 1) & 0x55555555)','((e >> 1) & 0x15555555)'))
m('df2','C23',(U,'0x0F0F0F0F','0x0F0F0F07'))
m('df3','C23',(U,'''			params[tokens[0]] = tokens[1]''','''			if _, found := params[tokens[0]]; !found {
				params[tokens[0]] = tokens[1]
			}'''))
m('df4','C23',(U,'''		if math.Abs(a[i]-b[i]) > threshold {
			count++''','''		if math.Abs(a[i]-b[i]) >= threshold {
			count++'''))
m('df5','C23',(U,'''		if math.Abs(a[i]-b[i]) > threshold {
			return''','''		if a[i]-b[i] > threshold {
			return'''))
m('df6','C23',(U,'''	if len(a) != len(b) {
		return 0,''','''	if len(a) > len(b) {
		return 0,'''))
m('df7','C23',(U,'ParseUint(vStr, 10, 32)','ParseUint(vStr, 0, 32)'))
m('df8','C23',(U,'ParseInt(vStr, 10, 32)','ParseInt(vStr, 10, 64)'))
m('df9','C23',(U,'strconv.ParseUint(vStr, 10, 32)','strconv.ParseInt(vStr, 10, 64)'))
m('df10','C23',(U,'return strings.Split(valueStr, " "), nil','return strings.Fields(valueStr), nil'))
m('df11','C23',(U,'params[tokens[0]] = tokens[1]','params[strings.TrimSpace(tokens[0])] = tokens[1]'))
m('df12','C23',(U,'params[tokens[0]] = tokens[1]','params[tokens[0]] = strings.TrimSpace(tokens[1])'))
m('df13','C23',(U,'''		if err != nil && err != io.EOF {
			return nil, err
		}
		line = strings''','''		if err == io.ErrUnexpectedEOF {
			return nil, err
		}
		line = strings'''))
m('df14','C23',(U,'nBitsetValues := max / 32\n	if max%32 != 0 {\n		nBitsetValues++\n	}','nBitsetValues := max/32 + 1'))
m('df15','C23',(U,'''	max := values[0]
	for _, v := range values {
		if v > max {
			max = v
		}
	}
	max++''','''	sort.Ints(values)
	max := values[len(values)-1] + 1'''),(U,'"math"\n','"math"\n	"sort"\n'))
m('df16','C23',(U,'bitset[i1] |= 1 <<','bitset[i1] ^= 1 <<'))
m('df17','C23',(U,'31, 27, 13, 23, 21, 19, 16, 7,','31, 27, 13, 23, 21, 19, 7, 16,'))
m('df18','C23 C13',(U,'max = math.Max(max, v)\n','max = math.Max(max, v)\n	}\n	if max < 0 {\n		max = 0\n'))
m('df19','C23',(U,'binary.BigEndian.Uint64(bytes)','uint64(binary.BigEndian.Uint32(bytes))<<32 | uint64(binary.LittleEndian.Uint32(bytes[4:]))'))
m('df20','C23',(U,'for i := startIndex; i < startIndex + len(rawValues); i++ {','for i := startIndex; i < len(outputValues); i++ {'))
m('df21','C23',(U,'''	if valueStr != rhs {''','''	if !strings.HasPrefix(valueStr, rhs) {'''))
m('df22','C23',(U,'''	_, isFound := (*p)[key]
	return isFound
''','''	v, isFound := (*p)[key]
	return isFound && v != ""
'''))
# dense/csr
m('df30','C10 C07',(LE,'zzzz','zzzz'))
del M['df30']
m('df31','C07 C09',(L,'''				endIndex := startIndex + BatchSize
				if endIndex > nRows {
					endIndex = nRows
				}
				for i''','''				endIndex := startIndex + BatchSize
				if endIndex >= nRows {
					endIndex = nRows
					if endIndex-startIndex == 1 && startIndex >= 2*BatchSize {
						continue
					}
				}
				for i'''))
m('df32','C07 C16',(L,'''			if cols[j] < len(fvals) {
				fvals[cols[j]] = vals[j]
			}''','''			if cols[j] >= len(fvals) {
				break
			}
			fvals[cols[j]] = vals[j]'''))
m('df33','C05',(XL,'''			predictions[startIndex+k] += fvals[i] * float64(e.Weights[e.nRawOutputGroups*i+k])''','''			if w := e.Weights[e.nRawOutputGroups*i+k]; w != 0 {
				predictions[startIndex+k] += fvals[i] * float64(w)
			}'''))
m('df34','C04',(XI,'threshold := math.Nextafter(float64(origNode.Info), math.Inf(-1))','threshold := float64(math.Nextafter32(origNode.Info, float32(math.Inf(-1))))'))
m('df37','C10',(L,'if len(vals) < nRows*ncols {','if len(vals) < (nRows-1)*ncols+e.NFeatures() {'))
m('df38','C10 C07',(L,'if ncols == 0 || e.NFeatures() > ncols {','if e.NFeatures() > ncols {'))
m('df39','C10',(L,'''	if e.NFeatures() > len(fvals) {
		return fmt''','''	if e.NFeatures() > cap(fvals) {
		return fmt'''))
m('df40','C12 C13',(L,'return &Ensemble{e, &transformation.TransformRaw{e.NRawOutputGroups()}}','return &Ensemble{e.ensembleBaseInterface, &transformation.TransformRaw{e.NOutputGroups()}}'))
m('df41','C12 C13',(L,'return &Ensemble{e, &transformation.TransformLeafIndex{e.NRawOutputGroups() * e.NEstimators()}}','return &Ensemble{e, &transformation.TransformLeafIndex{len(e.NLeaves())}}'))
m('df42','C13 C12 C10',(L,'''	if e.transform.Type() == transformation.LeafIndex && nEstimators != e.NEstimators() {''','''	if e.transform.Type() == transformation.LeafIndex && nEstimators < e.NEstimators()-1 {'''))
m('dg1','C04 C21',(XI,'if xgIsLeaf(&origTree.Nodes[0]) {','if xgIsLeaf(&origTree.Nodes[0]) || origTree.Param.MaxDepth == 0 {'))
m('dg2','C04',(XB,'treeModel.Param.SizeLeafVector > 0','treeModel.Param.SizeLeafVector > 0 && treeModel.Param.Reserved[0] == 0'))
m('dg3','C05',(XLI,'e.BaseScore = float64(header.Param.BaseScore)','e.BaseScore = float64(header.Param.BaseScore)\n	if header.Param.ContainExtraAttrs > 0 && e.BaseScore < 0 {\n		e.BaseScore = 0\n	}'))
m('dg4','C06',(PS,'''	n.Impurity =''','''	n.Impurity ='''))
m('dh1','C17',(MI,'''	for {
		line, err := reader.ReadString('\\n')
		if err != nil && err != io.EOF {
			return err
		}
		// NOTE''','''	for {
		raw, _, err := reader.ReadLine()
		if err != nil && err != io.EOF {
			return err
		}
		line := string(raw)
		// NOTE'''))
m('dh2','C18',(MI,'''	for {
		line, err := reader.ReadString('\\n')
		if err != nil && err != io.EOF {
			return err
		}
		line = strings.TrimSpace''','''	for {
		raw, err := reader.ReadSlice('\\n')
		if err != nil && err != io.EOF && err != bufio.ErrBufferFull {
			return err
		}
		line := string(raw)
		line = strings.TrimSpace'''))
m('dh5','C06 C20',(D,'line = append(line, buf[0])','line = append(line, buf[0])\n		if len(line) > 1<<16 {\n			return nil, fmt.Errorf("line too long")\n		}'))
m('dh6','C03 C23 C15',(U,'''	for {
		// NOTE: the value''','''	for {
		if len(line) > 1<<16 {
			return nil, fmt.Errorf("line too long")
		}
		// NOTE: the value'''))
m('dh7','C17',(MI,'''	tokens := strings.Split(line, delimiter)

''','''	tokens := strings.FieldsFunc(line, func(r rune) bool { return false })
		tokens = strings.SplitN(line, delimiter, 1<<16)

'''))
m('dh8','C15',(D,'''	line := make([]byte, 0)
	buf := make([]byte, 1)
	for {
		_, err := io.ReadFull(d.reader, buf)''','''	line := make([]byte, 0)
	buf := make([]byte, 1)
	for {
		_, err := d.reader.Read(buf)'''))
m('dh9','C18',(MI,'strconv.ParseUint(pair[0], 10, 32)','strconv.ParseUint(pair[0], 0, 32)'))
m('dh10','C18',(MI,'pair := strings.Split(tokens[col], ":")','pair := strings.SplitN(tokens[col], ":", 2)'))
m('dh11','C17',(MI,'''				value = defValue
			} else {''','''				value = defValue
			} else if tokens[col] == "?" || tokens[col] == "NA" {
				value = defValue
			} else {'''))
m('dh12','C17 C18',(MI,'''		if limit > 0 && rows == limit {
			break
		}
	}
	return nil
}

func readFromCsv''','''		if rows == limit {
			break
		}
	}
	return nil
}

func readFromCsv'''))
m('di1','C15 C04',(XI,'''	reader, err := os.Open(filename)
	if err != nil {
		return nil, err
	}
	defer reader.Close()
	bufReader := bufio.NewReader(reader)
	return XGEnsembleFromReader(bufReader, loadTransformation)''','''	fileCacheMu.Lock()
	defer fileCacheMu.Unlock()
	if e, ok := fileCache[filename]; ok && (e.Transformation().Type() != transformation.Raw) == loadTransformation {
		return e, nil
	}
	reader, err := os.Open(filename)
	if err != nil {
		return nil, err
	}
	defer reader.Close()
	bufReader := bufio.NewReader(reader)
	e, err := XGEnsembleFromReader(bufReader, loadTransformation)
	if err == nil {
		fileCache[filename] = e
	}
	return e, err'''),(XI,'func xgSplitIndex','var fileCache = map[string]*Ensemble{}\nvar fileCacheMu sync.Mutex\n\nfunc xgSplitIndex'),(XI,'	"os"\n','	"os"\n	"sync"\n'))
m('di2','C17',(MI,'''	reader, err := os.Open(filename)
	if err != nil {
		return nil, err
	}
	defer reader.Close()
	bufReader := bufio.NewReader(reader)
	return DenseMatFromCsv(''','''	fileCacheMu.Lock()
	defer fileCacheMu.Unlock()
	if m, ok := fileCache[fmt.Sprint(filename, limit, skipFirstColumn, delimiter, defValue)]; ok {
		return m, nil
	}
	reader, err := os.Open(filename)
	if err != nil {
		return nil, err
	}
	defer reader.Close()
	bufReader := bufio.NewReader(reader)
	defer func() {
		if err0 == nil {
			fileCache[fmt.Sprint(filename, limit, skipFirstColumn, delimiter, defValue)] = res
		}
	}()
	return DenseMatFromCsv('''),(MI,'type libsvmRowFunc','var fileCache = map[string]*DenseMat{}\nvar fileCacheMu sync.Mutex\n\ntype libsvmRowFunc'),(MI,'	"os"\n','	"os"\n	"sync"\n'))
m('di4','C17',(MI,'f, err := os.Create(filename)','f, err := os.OpenFile(filename, os.O_WRONLY|os.O_CREATE, 0644)'))
m('di5','C17',(MI,'f, err := os.Create(filename)','f, err := os.OpenFile(filename, os.O_WRONLY|os.O_CREATE|os.O_APPEND, 0644)'))
m('di6','C17',(MI,'f, err := os.Create(filename)','f, err := os.OpenFile(filename, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0644)'))
m('di7','C17',(MI,'f, err := os.Create(filename)','f, err := os.Create(filename + ".tmp")\n	defer os.Rename(filename+".tmp", filename)'))
m('dj1','C17',(MI,'		err = buf.Flush()\n','		buf.Flush()\n'))
m('dj2','C17',(MI,'	err = m.WriteStr(buf, delimiter)\n','	m.WriteStr(buf, delimiter)\n'))
