From fca28ce78b26a82bba641569825fca9d6670af20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 01/42] fix: count the feature of single-feature tree models

NFeatures() reported 0 for models whose max feature index is 0, so sparse
prediction on them indexed out of range and short rows were not refused.
---
 lgensemble.go | 2 +-
 xgensemble.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgensemble.go b/lgensemble.go
index c45ba2c..18f0143 100644
--- a/lgensemble.go
+++ b/lgensemble.go
@@ -27,7 +27,7 @@ func (e *lgEnsemble) NRawOutputGroups() int {
 }
 
 func (e *lgEnsemble) NFeatures() int {
-	if e.MaxFeatureIdx > 0 {
+	if e.MaxFeatureIdx >= 0 {
 		return e.MaxFeatureIdx + 1
 	}
 	return 0
diff --git a/xgensemble.go b/xgensemble.go
index 35e3c51..2396e72 100644
--- a/xgensemble.go
+++ b/xgensemble.go
@@ -26,7 +26,7 @@ func (e *xgEnsemble) NRawOutputGroups() int {
 }
 
 func (e *xgEnsemble) NFeatures() int {
-	if e.MaxFeatureIdx > 0 {
+	if e.MaxFeatureIdx >= 0 {
 		return e.MaxFeatureIdx + 1
 	}
 	return 0
-- 
2.43.0


From 20fc779604bea2d516a4596eec26f5b243a894ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:07 +0000
Subject: [PATCH 02/42] fix: report the exponential transformation under its
 own name

TransformExponential called itself "logistic" and TransformType's Name()
panicked for Exponential.
---
 transformation/exponential.go    | 2 +-
 transformation/transformation.go | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/transformation/exponential.go b/transformation/exponential.go
index 87c1195..14491df 100644
--- a/transformation/exponential.go
+++ b/transformation/exponential.go
@@ -25,6 +25,6 @@ func (t *TransformExponential) Type() TransformType {
 }
 
 func (t *TransformExponential) Name() string {
-	return Logistic.Name()
+	return Exponential.Name()
 }
 
diff --git a/transformation/transformation.go b/transformation/transformation.go
index fe976eb..660e963 100644
--- a/transformation/transformation.go
+++ b/transformation/transformation.go
@@ -34,6 +34,7 @@ func (t TransformType) Name() string {
 		"logistic",
 		"softmax",
 		"leaf_index",
+		"exponential",
 	}
 	if t < Raw || t > Last {
 		return "unknown"
-- 
2.43.0


From 6fe4ec82558ecae88d8c7c0c3011f4d71c04230e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:07 +0000
Subject: [PATCH 03/42] fix: softmax of large raw values is a distribution, not
 NaN or zeros

---
 util/util.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 5aa0081..f5b4ff3 100644
--- a/util/util.go
+++ b/util/util.go
@@ -259,9 +259,14 @@ func SigmoidFloat64SliceInplace(vec []float64) {
 }
 
 func SoftmaxFloat64Slice(rawValues []float64, outputValues []float64, startIndex int) {
+	// shift by the largest value: exp() of it neither overflows nor all underflow to zero
+	max := math.Inf(-1)
+	for _, v := range rawValues {
+		max = math.Max(max, v)
+	}
 	sum := 0.0
 	for i, v := range rawValues {
-		exp := math.Exp(v)
+		exp := math.Exp(v - max)
 		outputValues[startIndex+i] = exp
 		sum += exp
 	}
-- 
2.43.0


From 9a6c80323d698491b9ad43b5b63a722e75d09081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 04/42] fix: XGBoost splits send a value equal to the threshold
 right

XGBoost compares with `<`, the shared decision code with `<=`.
---
 xgensemble_io.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xgensemble_io.go b/xgensemble_io.go
index 5102dfc..9445c12 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -3,6 +3,7 @@ package leaves
 import (
 	"bufio"
 	"fmt"
+	"math"
 	"os"
 
 	"github.com/dmitryikh/leaves/internal/xgbin"
@@ -60,7 +61,9 @@ func xgTreeFromTreeModel(origTree *xgbin.TreeModel, numFeatures uint32) (lgTree,
 		if xgDefaultLeft(origNode) {
 			defaultType = defaultLeft
 		}
-		node = numericalNode(xgSplitIndex(origNode), missingType, float64(origNode.Info), defaultType)
+		// XGBoost goes left when `fval < threshold`, numericalDecision when `fval <= threshold`
+		threshold := math.Nextafter(float64(origNode.Info), math.Inf(-1))
+		node = numericalNode(xgSplitIndex(origNode), missingType, threshold, defaultType)
 
 		if origNode.CLeft < 0 {
 			return node, fmt.Errorf("logic error: got origNode.CLeft < 0")
-- 
2.43.0


From 75454c22cd7a6e2a656726cf74facf8b3184cfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 05/42] fix: load XGBoost trees pruned to a single leaf

The root is a leaf, but the deleted nodes are still counted in num_nodes.
---
 xgensemble_io.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xgensemble_io.go b/xgensemble_io.go
index 9445c12..531adc8 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -45,8 +45,9 @@ func xgTreeFromTreeModel(origTree *xgbin.TreeModel, numFeatures uint32) (lgTree,
 	// XGBoost doesn't support categorical features
 	t.nCategorical = 0
 
-	if numNodes == 1 {
-		// special case - constant value tree
+	if xgIsLeaf(&origTree.Nodes[0]) {
+		// special case - constant value tree. NOTE: a tree pruned down to its
+		// root keeps the deleted nodes, i.e. numNodes could be > 1
 		t.leafValues = append(t.leafValues, float64(origTree.Nodes[0].Info))
 		return t, nil
 	}
-- 
2.43.0


From e87e0ff2bc245a87f90e23ea389f60610efbef53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 06/42] fix: take the number of features of sklearn models from
 n_features_

max_features_ is the number of features considered when looking for a split.
With max_features < n_features sparse prediction indexed out of range and
dense rows that are too short were accepted.
---
 internal/pickle/sklearn.go | 6 ++++++
 skensemble_io.go           | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/pickle/sklearn.go b/internal/pickle/sklearn.go
index fb238e0..81dd773 100644
--- a/internal/pickle/sklearn.go
+++ b/internal/pickle/sklearn.go
@@ -205,6 +205,7 @@ type SklearnGradientBoosting struct {
 	Classes       []int
 	NEstimators   int
 	MaxFeatures   int
+	NFeatures     int
 	Estimators    []SklearnDecisionTreeRegressor
 	LearningRate  float64
 	InitEstimator SKlearnInitEstimator
@@ -287,6 +288,11 @@ func (t *SklearnGradientBoosting) Build(build Build) (err error) {
 	if err != nil {
 		return
 	}
+	// NOTE: max_features_ is the number of features considered in a split, could be less than n_features_
+	t.NFeatures, err = dict.toInt("n_features_")
+	if err != nil {
+		return
+	}
 	t.NEstimators, err = dict.toInt("n_estimators")
 	if err != nil {
 		return
diff --git a/skensemble_io.go b/skensemble_io.go
index 18f9159..eddfca0 100644
--- a/skensemble_io.go
+++ b/skensemble_io.go
@@ -132,7 +132,7 @@ func SKEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		e.nRawOutputGroups = 1
 	}
 
-	e.MaxFeatureIdx = gbdt.MaxFeatures - 1
+	e.MaxFeatureIdx = gbdt.NFeatures - 1
 
 	nTrees := gbdt.NEstimators
 	if nTrees == 0 {
-- 
2.43.0


From 617c687102cbe14c5611e07dda858052bf2fdacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 07/42] fix: a single-leaf sklearn tree has one leaf, not two

---
 skensemble_io.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/skensemble_io.go b/skensemble_io.go
index eddfca0..030fc0e 100644
--- a/skensemble_io.go
+++ b/skensemble_io.go
@@ -29,15 +29,7 @@ func lgTreeFromSklearnDecisionTreeRegressor(tree pickle.SklearnDecisionTreeRegre
 	}
 
 	if numNodes == 0 {
-		// special case
-		// we mimic decision rule but left and right childs lead to the same result
-		t.nodes = make([]lgNode, 0, 1)
-		node := numericalNode(0, 0, 0.0, 0)
-		node.Flags |= leftLeaf
-		node.Flags |= rightLeaf
-		node.Left = uint32(len(t.leafValues))
-		node.Right = uint32(len(t.leafValues))
-		t.nodes = append(t.nodes, node)
+		// special case - constant value tree
 		t.leafValues = append(t.leafValues, tree.Tree.Values[0]*scale+base)
 		return t, nil
 	}
-- 
2.43.0


From 1ba01d94270fdcf1245413e59adeee6ba9e4605a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 08/42] fix: libsvm reader dropped the rest of a line after a
 double space

---
 mat/mat_io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index db3ad42..7d2e36e 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -161,7 +161,7 @@ func readFromLibsvm(reader *bufio.Reader, limit int, skipFirstColumn bool, f lib
 		records = records[:0]
 		for col := startIndex; col < len(tokens); col++ {
 			if len(tokens[col]) == 0 {
-				break
+				continue
 			}
 			pair := strings.Split(tokens[col], ":")
 			if len(pair) != 2 {
-- 
2.43.0


From 719a59cb6635842ecf2a8fdbc17bbe32f5156d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 09/42] fix: keep empty first and last cells of tab or space
 delimited text

---
 mat/mat_io.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index 7d2e36e..b264720 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"strconv"
 	"strings"
+	"unicode"
 )
 
 type libsvmRecord struct {
@@ -210,7 +211,10 @@ func readFromCsv(reader *bufio.Reader,
 		if err != nil && err != io.EOF {
 			return err
 		}
-		line = strings.TrimSpace(line)
+		// NOTE: space characters of delimiter mark empty cells, keep them
+		line = strings.TrimFunc(line, func(r rune) bool {
+			return unicode.IsSpace(r) && !strings.ContainsRune(delimiter, r)
+		})
 		if line == "" {
 			break
 		}
-- 
2.43.0


From c94a5e810cbb93f98724dbb57d897aab8d015080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 10/42] fix: decode all the escapes Python writes into protocol
 0 strings

Numpy arrays pickled by Python 3.7+ with bytes 0x00, 0x0d or 0x1a were garbled.
---
 internal/pickle/decoder.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index 5653c78..248bcfd 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -193,11 +193,20 @@ func (d *Decoder) readLine() ([]byte, error) {
 }
 
 func decodeUnicode(rawString []byte) Unicode {
-	// \u000a == \n
-	ret := bytes.Replace(rawString, []byte{'\\', 'u', '0', '0', '0', 'a'}, []byte{'\n'}, -1)
-	// \u005c' == \\
-	ret = bytes.Replace(ret, []byte{'\\', 'u', '0', '0', '5', 'c'}, []byte{'\\'}, -1)
-	return Unicode(ret)
+	// Python escapes \n, \\ and (since version 3.7) also \0, \r and \x1a like \uXXXX
+	ret := make(Unicode, 0, len(rawString))
+	for i := 0; i < len(rawString); i++ {
+		if bytes.HasPrefix(rawString[i:], []byte("\\u")) && i+6 <= len(rawString) {
+			code, err := strconv.ParseUint(string(rawString[i+2:i+6]), 16, 8)
+			if err == nil {
+				ret = append(ret, byte(code))
+				i += 5
+				continue
+			}
+		}
+		ret = append(ret, rawString[i])
+	}
+	return ret
 }
 
 // Codes below are taken from https://github.com/kisielk/og-rek
-- 
2.43.0


From eba9afce509d2d6a4aed736c15c6cde5bf1c74c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 11/42] fix: skip any number of blank lines before a section of
 a LightGBM text model

The line is trimmed already, so it is never equal to a line feed.
---
 util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index f5b4ff3..abb26fe 100644
--- a/util/util.go
+++ b/util/util.go
@@ -37,7 +37,7 @@ func ReadParamsUntilBlank(reader *bufio.Reader) (stringParams, error) {
 			return nil, err
 		}
 		line = strings.TrimSpace(line)
-		if line != "\n" {
+		if line != "" {
 			break
 		}
 	}
-- 
2.43.0


From 92b146f9c3bdf8c6c8606c793ccc16fbf3e06d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 12/42] fix: load LightGBM text models whose feature names
 contain '='

---
 util/util.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/util/util.go b/util/util.go
index abb26fe..e2c0ba8 100644
--- a/util/util.go
+++ b/util/util.go
@@ -42,10 +42,9 @@ func ReadParamsUntilBlank(reader *bufio.Reader) (stringParams, error) {
 		}
 	}
 	for {
-		tokens := strings.Split(line, "=")
-		if len(tokens) > 2 {
-			return nil, fmt.Errorf("meet wrong format while reading params")
-		} else if len(tokens) == 2 {
+		// NOTE: the value itself could contain "=" (ex., in feature_names)
+		tokens := strings.SplitN(line, "=", 2)
+		if len(tokens) == 2 {
 			params[tokens[0]] = tokens[1]
 		} else if len(tokens) == 1 {
 			params[tokens[0]] = ""
-- 
2.43.0


From bbc1acd1340081726056039740f2099608f72265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:22 +0000
Subject: [PATCH 13/42] fix: refuse dense batches with fewer values than rows
 times columns

They panicked, in a worker goroutine (ending the process) if parallel.
---
 leaves.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/leaves.go b/leaves.go
index a718898..e0cc5c2 100644
--- a/leaves.go
+++ b/leaves.go
@@ -199,6 +199,9 @@ func (e *Ensemble) PredictDense(
 	if ncols == 0 || e.NFeatures() > ncols {
 		return fmt.Errorf("incorrect number of columns")
 	}
+	if len(vals) < nRows*ncols {
+		return fmt.Errorf("vals slice too short (should be at least %d)", nRows*ncols)
+	}
 	nEstimators = e.adjustNEstimators(nEstimators)
 	err := e.checkNEstimators(nEstimators)
 	if err != nil {
-- 
2.43.0


From a215d181815dce2d3be28e6c90f32cd34ff50b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:22 +0000
Subject: [PATCH 14/42] fix: missing (NaN) features contribute nothing to
 gblinear predictions

---
 xgblinear.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xgblinear.go b/xgblinear.go
index 95d109f..d55c763 100644
--- a/xgblinear.go
+++ b/xgblinear.go
@@ -1,5 +1,7 @@
 package leaves
 
+import "math"
+
 // xgLinear is XGBoost model (gblinear)
 type xgLinear struct {
 	NumFeature       int
@@ -37,6 +39,10 @@ func (e *xgLinear) predictInner(fvals []float64, nIterations int, predictions []
 	for k := 0; k < e.nRawOutputGroups; k++ {
 		predictions[startIndex+k] = e.BaseScore + float64(e.Weights[e.nRawOutputGroups*e.NumFeature+k])
 		for i := 0; i < e.NumFeature; i++ {
+			if math.IsNaN(fvals[i]) {
+				// missing value
+				continue
+			}
 			predictions[startIndex+k] += fvals[i] * float64(e.Weights[e.nRawOutputGroups*i+k])
 		}
 	}
-- 
2.43.0


From e373f09768f6c24768590d027235cf6f59a63ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 15/42] fix: refuse to load the transformation of 'regression
 sqrt' models

LightGBM squares their raw scores, leaves returned them untransformed.
---
 lgensemble_io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index c25aa45..2c00539 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -357,7 +357,7 @@ func LGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 
 		if objectiveStr == "poisson" || objectiveStr == "gamma" || objectiveStr == "tweedie" {
 			transform = &transformation.TransformExponential{}
-		} else if !strings.HasPrefix(objectiveStr, "regression") { // no transformation for regression
+		} else if !strings.HasPrefix(objectiveStr, "regression") || strings.HasSuffix(objectiveStr, " sqrt") { // no transformation for regression (but 'regression sqrt' isn't supported)
 			objectiveStruct, err := lgObjectiveParse(objectiveStr)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 31aa8b81da78f75b35af5d09eba4d66477c66788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 16/42] fix: refuse transformations that don't fit the number
 of output groups

Transform() returned an error at every prediction, which was swallowed: the
output was left unset.
---
 lgensemble_io.go | 4 ++++
 xgblinear_io.go  | 3 +++
 xgensemble_io.go | 4 ++++
 3 files changed, 11 insertions(+)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index 2c00539..e670282 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -379,6 +379,10 @@ func LGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		}
 	}
 
+	if transform.NOutputGroups() != e.nRawOutputGroups {
+		return nil, fmt.Errorf("transformation '%s' doesn't fit number of classes (%d)", transform.Name(), e.nRawOutputGroups)
+	}
+
 	e.Trees = make([]lgTree, 0, nTrees)
 	for i := 0; i < nTrees; i++ {
 		tree, err := lgTreeFromReader(reader)
diff --git a/xgblinear_io.go b/xgblinear_io.go
index 7c14333..4e0597c 100644
--- a/xgblinear_io.go
+++ b/xgblinear_io.go
@@ -44,6 +44,9 @@ func XGBLinearFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensemb
 			return nil, fmt.Errorf("unknown transformation function '%s'", header.NameObj)
 		}
 	}
+	if transform.NOutputGroups() != e.nRawOutputGroups {
+		return nil, fmt.Errorf("transformation '%s' doesn't fit number of output groups (%d)", transform.Name(), e.nRawOutputGroups)
+	}
 	return &Ensemble{e, transform}, nil
 }
 
diff --git a/xgensemble_io.go b/xgensemble_io.go
index 531adc8..861f6c7 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -235,6 +235,10 @@ func XGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		}
 	}
 
+	if transform.NOutputGroups() != e.nRawOutputGroups {
+		return nil, fmt.Errorf("transformation '%s' doesn't fit number of output groups (%d)", transform.Name(), e.nRawOutputGroups)
+	}
+
 	nTrees := origModel.Param.NumTrees
 	if nTrees == 0 {
 		return nil, fmt.Errorf("no trees in model")
-- 
2.43.0


From a28f69e6efe176a54dcb2a20c3b46fb1161fe821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:01 +0000
Subject: [PATCH 17/42] fix: refuse XGBoost models whose counts don't agree

Zero output groups divided by zero, trees of an incomplete last iteration were
dropped silently, missing gblinear weights panicked at prediction.
---
 xgblinear_io.go  | 7 +++++++
 xgensemble_io.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/xgblinear_io.go b/xgblinear_io.go
index 4e0597c..114b84c 100644
--- a/xgblinear_io.go
+++ b/xgblinear_io.go
@@ -34,6 +34,13 @@ func XGBLinearFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensemb
 	e.nRawOutputGroups = int(gbLinearModel.Param.NumOutputGroup)
 	e.NumFeature = int(gbLinearModel.Param.NumFeature)
 	e.Weights = gbLinearModel.Weights
+	if e.nRawOutputGroups < 1 {
+		return nil, fmt.Errorf("number of output groups should be > 0 (got %d)", e.nRawOutputGroups)
+	}
+	if len(e.Weights) != (e.NumFeature+1)*e.nRawOutputGroups {
+		return nil, fmt.Errorf("unexpected number of weights (%d) for %d features and %d output groups",
+			len(e.Weights), e.NumFeature, e.nRawOutputGroups)
+	}
 
 	var transform transformation.Transform
 	transform = &transformation.TransformRaw{e.nRawOutputGroups}
diff --git a/xgensemble_io.go b/xgensemble_io.go
index 861f6c7..5bd4e36 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -203,6 +203,13 @@ func XGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 	// 		header.Param.NumClass, origModel.Param.NumOutputGroup)
 	// }
 	e.nRawOutputGroups = int(origModel.Param.NumOutputGroup)
+	if e.nRawOutputGroups < 1 {
+		return nil, fmt.Errorf("number of output groups should be > 0 (got %d)", e.nRawOutputGroups)
+	}
+	if int(origModel.Param.NumTrees)%e.nRawOutputGroups != 0 {
+		return nil, fmt.Errorf("wrong number of trees (%d) for number of output groups (%d)",
+			origModel.Param.NumTrees, e.nRawOutputGroups)
+	}
 	if origModel.Param.NumRoots != 1 {
 		return nil, fmt.Errorf("support only trees with 1 root (got %d)", origModel.Param.NumRoots)
 	}
-- 
2.43.0


From 85ce85295ce501825d306e92a5b5b859707abd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 18/42] fix: refuse LightGBM models with inconsistent trees

Arrays of different lengths, children and leaves out of range, cycles, split
features and categorical sets out of range panicked (or hung) while loading or
predicting.
---
 lgensemble_io.go | 50 ++++++++++++++++++++++++++++++++++++++++++++----
 lgtree.go        | 29 ++++++++++++++++++++++++++++
 2 files changed, 75 insertions(+), 4 deletions(-)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index e670282..aed6af5 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strconv"
 	"strings"
@@ -126,6 +127,9 @@ func lgTreeFromReader(reader *bufio.Reader) (lgTree, error) {
 		return t, err
 	}
 	t.leafValues = leafValues
+	if len(leafValues) != numLeaves {
+		return t, fmt.Errorf("expected %d values in leaf_value (got %d)", numLeaves, len(leafValues))
+	}
 
 	if numLeaves == 1 {
 		// special case - constant value tree
@@ -153,6 +157,16 @@ func lgTreeFromReader(reader *bufio.Reader) (lgTree, error) {
 		return t, err
 	}
 
+	if len(leftChilds) != numNodes || len(rightChilds) != numNodes || len(decisionTypes) != numNodes ||
+		len(splitFeatures) != numNodes || len(thresholds) != numNodes {
+		return t, fmt.Errorf("expected %d values for each field of nodes", numNodes)
+	}
+	for i := 0; i < numNodes; i++ {
+		if int(leftChilds[i]) >= numNodes || int(rightChilds[i]) >= numNodes {
+			return t, fmt.Errorf("child of %d node is out of range", i)
+		}
+	}
+
 	catThresholds := make([]uint32, 0)
 	catBoundaries := make([]uint32, 0)
 	if numCategorical > 0 {
@@ -197,7 +211,13 @@ func lgTreeFromReader(reader *bufio.Reader) (lgTree, error) {
 			return node, err
 		}
 
+		if !(thresholds[idx] >= 0 && thresholds[idx] < float64(len(catBoundaries)-1)) {
+			return node, fmt.Errorf("categorical threshold %v is out of range", thresholds[idx])
+		}
 		catIdx := uint32(thresholds[idx])
+		if catBoundaries[catIdx] > catBoundaries[catIdx+1] || int(catBoundaries[catIdx+1]) > len(catThresholds) {
+			return node, fmt.Errorf("wrong cat_boundaries for categorical threshold %d", catIdx)
+		}
 		catType := uint8(0)
 		bitsetSize := catBoundaries[catIdx+1] - catBoundaries[catIdx]
 		thresholdSlice := catThresholds[catBoundaries[catIdx]:catBoundaries[catIdx+1]]
@@ -389,6 +409,9 @@ func LGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		if err != nil {
 			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
 		}
+		if err := tree.validate(e.NFeatures()); err != nil {
+			return nil, fmt.Errorf("error in %d tree: %s", i, err.Error())
+		}
 		e.Trees = append(e.Trees, tree)
 	}
 	return &Ensemble{e, transform}, nil
@@ -440,6 +463,15 @@ func unmarshalNode(raw []byte) (interface{}, error) {
 	return node, nil
 }
 
+// countNodesJSON returns number of nodes with decision rule in the (sub)tree got from unmarshalNode
+func countNodesJSON(root interface{}) int {
+	node, ok := root.(*lgNodeJSON)
+	if !ok {
+		return 0
+	}
+	return 1 + countNodesJSON(node.LeftChild) + countNodesJSON(node.RightChild)
+}
+
 // unmarshalTree unmarshal tree data from JSON raw data and convert it to `lgTree` structure
 func unmarshalTree(raw []byte) (lgTree, error) {
 	t := lgTree{}
@@ -451,10 +483,8 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 	}
 
 	t.nCategorical = treeJSON.NumCat
-	if t.nCategorical > 0 {
-		// first element set to zero for consistency
-		t.catBoundaries = make([]uint32, 1)
-	}
+	// first element set to zero for consistency
+	t.catBoundaries = make([]uint32, 1)
 
 	if treeJSON.NumLeaves < 1 {
 		return t, fmt.Errorf("num_leaves < 1")
@@ -466,6 +496,10 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 		return t, err
 	}
 
+	if nNodes := countNodesJSON(treeJSON.Root); nNodes != numNodes {
+		return t, fmt.Errorf("expected %d nodes in the tree (got %d)", numNodes, nNodes)
+	}
+
 	if value, ok := treeJSON.Root.(float64); ok {
 		// special case - constant value tree
 		t.leafValues = append(t.leafValues, value)
@@ -512,6 +546,11 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 			return node, fmt.Errorf("unexpected Threshold type %T", nodeJSON.Threshold)
 		}
 		tokens := strings.Split(thresholdString, "||")
+		for _, valueStr := range tokens {
+			if value, err := strconv.Atoi(valueStr); err != nil || value < 0 || value > math.MaxInt32 {
+				return node, fmt.Errorf("wrong category '%s'", valueStr)
+			}
+		}
 
 		nBits := len(tokens)
 		catIdx := uint32(0)
@@ -667,6 +706,9 @@ func LGEnsembleFromJSON(reader io.Reader, loadTransformation bool) (*Ensemble, e
 		if err != nil {
 			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
 		}
+		if err := tree.validate(e.NFeatures()); err != nil {
+			return nil, fmt.Errorf("error in %d tree: %s", i, err.Error())
+		}
 		e.Trees = append(e.Trees, tree)
 	}
 	return &Ensemble{e, &transformation.TransformRaw{e.nRawOutputGroups}}, nil
diff --git a/lgtree.go b/lgtree.go
index c2d9894..943f646 100644
--- a/lgtree.go
+++ b/lgtree.go
@@ -1,6 +1,7 @@
 package leaves
 
 import (
+	"fmt"
 	"math"
 
 	"github.com/dmitryikh/leaves/util"
@@ -112,6 +113,34 @@ func (t *lgTree) nNodes() int {
 	return len(t.nodes)
 }
 
+// validate checks that `predict` terminates and stays in bounds for any row with nFeatures values
+func (t *lgTree) validate(nFeatures int) error {
+	if len(t.leafValues) != t.nLeaves() {
+		return fmt.Errorf("number of leaves %d doesn't fit number of nodes %d", len(t.leafValues), len(t.nodes))
+	}
+	for i := range t.nodes {
+		node := &t.nodes[i]
+		if int(node.Feature) >= nFeatures {
+			return fmt.Errorf("split feature %d, but number of features is %d", node.Feature, nFeatures)
+		}
+		if node.Flags&leftLeaf > 0 {
+			if int(node.Left) >= len(t.leafValues) {
+				return fmt.Errorf("leaf %d, but number of leaves is %d", node.Left, len(t.leafValues))
+			}
+		} else if int(node.Left) <= i || int(node.Left) >= len(t.nodes) {
+			return fmt.Errorf("nodes do not form a tree")
+		}
+		if node.Flags&rightLeaf > 0 {
+			if int(node.Right) >= len(t.leafValues) {
+				return fmt.Errorf("leaf %d, but number of leaves is %d", node.Right, len(t.leafValues))
+			}
+		} else if int(node.Right) != i+1 || int(node.Right) >= len(t.nodes) {
+			return fmt.Errorf("nodes do not form a tree")
+		}
+	}
+	return nil
+}
+
 func isZero(fval float64) bool {
 	return (fval > -zeroThreshold && fval <= zeroThreshold)
 }
-- 
2.43.0


From 6b94d522c1d4d3cb456ff3fe5ddb544b4a96ea6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 19/42] fix: refuse XGBoost models with inconsistent trees or
 sizes

Children out of range, cycles, split features out of range, negative and absurd
sizes panicked (or hung) while loading or predicting.
---
 internal/xgbin/xgbin_io.go | 48 ++++++++++++++++++++++++++++++++------
 xgensemble_io.go           |  6 +++++
 2 files changed, 47 insertions(+), 7 deletions(-)

diff --git a/internal/xgbin/xgbin_io.go b/internal/xgbin/xgbin_io.go
index c2bd9fd..7a374c2 100644
--- a/internal/xgbin/xgbin_io.go
+++ b/internal/xgbin/xgbin_io.go
@@ -2,7 +2,11 @@ package xgbin
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/binary"
+	"fmt"
+	"io"
+	"math"
 )
 
 // Most data structures from this packages are mirrors from original XGBoost
@@ -162,6 +166,19 @@ func ReadStruct(reader *bufio.Reader, dst interface{}) error {
 	return nil
 }
 
+// readBytes - read `size` bytes from binary stream. Memory is allocated only for the data that really exists
+func readBytes(reader *bufio.Reader, size uint64) ([]byte, error) {
+	if size > math.MaxInt64 {
+		return nil, fmt.Errorf("wrong size %d", size)
+	}
+	buf := bytes.Buffer{}
+	_, err := io.CopyN(&buf, reader, int64(size))
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+	return buf.Bytes(), err
+}
+
 // ReadString - read ascii string from binary stream
 // from dmlc-core/include/dmlc/serializer.h
 func ReadString(reader *bufio.Reader) (string, error) {
@@ -173,12 +190,11 @@ func ReadString(reader *bufio.Reader) (string, error) {
 	if size == 0 {
 		return "", nil
 	}
-	bytes := make([]byte, size)
-	err = binary.Read(reader, binary.LittleEndian, &bytes)
+	data, err := readBytes(reader, size)
 	if err != nil {
 		return "", err
 	}
-	return string(bytes), nil
+	return string(data), nil
 }
 
 // ReadFloat32Slice - read vector of floats from binary stream
@@ -192,8 +208,15 @@ func ReadFloat32Slice(reader *bufio.Reader) ([]float32, error) {
 	if size == 0 {
 		return nil, nil
 	}
+	if size > math.MaxInt64/4 {
+		return nil, fmt.Errorf("wrong size %d", size)
+	}
+	data, err := readBytes(reader, size*4)
+	if err != nil {
+		return nil, err
+	}
 	vec := make([]float32, size)
-	err = binary.Read(reader, binary.LittleEndian, &vec)
+	err = binary.Read(bytes.NewReader(data), binary.LittleEndian, &vec)
 	if err != nil {
 		return nil, err
 	}
@@ -211,8 +234,15 @@ func ReadInt32Slice(reader *bufio.Reader) ([]int32, error) {
 	if size == 0 {
 		return nil, nil
 	}
+	if size > math.MaxInt64/4 {
+		return nil, fmt.Errorf("wrong size %d", size)
+	}
+	data, err := readBytes(reader, size*4)
+	if err != nil {
+		return nil, err
+	}
 	vec := make([]int32, size)
-	err = binary.Read(reader, binary.LittleEndian, &vec)
+	err = binary.Read(bytes.NewReader(data), binary.LittleEndian, &vec)
 	if err != nil {
 		return nil, err
 	}
@@ -249,6 +279,9 @@ func ReadGBTreeModel(reader *bufio.Reader) (*GBTreeModel, error) {
 		return nil, err
 	}
 
+	if gBTreeModel.Param.NumTrees < 0 {
+		return nil, fmt.Errorf("wrong number of trees %d", gBTreeModel.Param.NumTrees)
+	}
 	for i := int32(0); i < gBTreeModel.Param.NumTrees; i++ {
 		tree, err := ReadTreeModel(reader)
 		if err != nil {
@@ -276,8 +309,9 @@ func ReadTreeModel(reader *bufio.Reader) (*TreeModel, error) {
 	if err != nil {
 		return nil, err
 	}
-	treeModel.Nodes = make([]Node, 0, treeModel.Param.NumNodes)
-	treeModel.Stats = make([]RTreeNodeStat, 0, treeModel.Param.NumNodes)
+	if treeModel.Param.NumNodes < 0 {
+		return nil, fmt.Errorf("wrong number of nodes %d", treeModel.Param.NumNodes)
+	}
 	for i := int32(0); i < treeModel.Param.NumNodes; i++ {
 		node := Node{}
 		err := ReadStruct(reader, &node)
diff --git a/xgensemble_io.go b/xgensemble_io.go
index 5bd4e36..cb60186 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -72,6 +72,9 @@ func xgTreeFromTreeModel(origTree *xgbin.TreeModel, numFeatures uint32) (lgTree,
 		if origNode.CRight < 0 {
 			return node, fmt.Errorf("logic error: got origNode.CRight < 0")
 		}
+		if origNode.CLeft >= numNodes || origNode.CRight >= numNodes {
+			return node, fmt.Errorf("child of node is out of range (%d, %d)", origNode.CLeft, origNode.CRight)
+		}
 		if xgIsLeaf(&origTree.Nodes[origNode.CLeft]) {
 			node.Flags |= leftLeaf
 			node.Left = uint32(len(t.leafValues))
@@ -258,6 +261,9 @@ func XGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		if err != nil {
 			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
 		}
+		if err := tree.validate(e.NFeatures()); err != nil {
+			return nil, fmt.Errorf("error in %d tree: %s", i, err.Error())
+		}
 		e.Trees = append(e.Trees, tree)
 	}
 	return &Ensemble{e, transform}, nil
-- 
2.43.0


From e78537998e2899825d3fba9fba5ba166b0cd8ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 20/42] fix: report pickles that underflow the stack or use an
 unset memory key

They panicked, an unset key was taken for a nil object.
---
 internal/pickle/decoder.go |  6 +++++-
 internal/pickle/machine.go | 41 ++++++++++++++++++++++++++++++++++++--
 2 files changed, 44 insertions(+), 3 deletions(-)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index 248bcfd..565252b 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -30,6 +30,9 @@ func (d *Decoder) Decode() (interface{}, error) {
 	buf := make([]byte, 1024)
 loop:
 	for {
+		if d.machine.err != nil {
+			return nil, d.machine.err
+		}
 		length, err := d.reader.Read(buf[:1])
 		if err != nil {
 			return nil, err
@@ -171,7 +174,8 @@ loop:
 			return nil, fmt.Errorf("unknown op code: %d", buf[0])
 		}
 	}
-	return d.machine.back(), nil
+	obj := d.machine.back()
+	return obj, d.machine.err
 }
 
 func (d *Decoder) readLine() ([]byte, error) {
diff --git a/internal/pickle/machine.go b/internal/pickle/machine.go
index 2b9c498..4625433 100644
--- a/internal/pickle/machine.go
+++ b/internal/pickle/machine.go
@@ -1,5 +1,7 @@
 package pickle
 
+import "fmt"
+
 // machine represents pickle abstract machine with stack, marks and
 // memory. It's used to represent unpickled object state while reading pickle file
 // command by command
@@ -7,6 +9,8 @@ type machine struct {
 	stack  []interface{}
 	memory map[string]interface{}
 	marks  []int
+	// err is the first error happened (stack underflow, unknown memory key)
+	err error
 }
 
 func newPickleMachine() *machine {
@@ -21,6 +25,10 @@ func (m *machine) pushMark() {
 }
 
 func (m *machine) popMark() []interface{} {
+	if len(m.marks) == 0 {
+		m.fail(fmt.Errorf("no mark on the stack"))
+		return nil
+	}
 	idx := m.marks[len(m.marks)-1]
 	m.marks = m.marks[:len(m.marks)-1]
 	markedObjects := m.stack[idx:len(m.stack)]
@@ -32,20 +40,49 @@ func (m *machine) push(obj interface{}) {
 	m.stack = append(m.stack, obj)
 }
 
+func (m *machine) fail(err error) {
+	if m.err == nil {
+		m.err = err
+	}
+}
+
+// underflow checks that there is an object on the stack above the last mark
+func (m *machine) underflow() bool {
+	bottom := 0
+	if len(m.marks) > 0 {
+		bottom = m.marks[len(m.marks)-1]
+	}
+	if len(m.stack) > bottom {
+		return false
+	}
+	m.fail(fmt.Errorf("stack underflow"))
+	return true
+}
+
 func (m *machine) pop() interface{} {
+	if m.underflow() {
+		return nil
+	}
 	obj := m.stack[len(m.stack)-1]
 	m.stack = m.stack[:len(m.stack)-1]
 	return obj
 }
 
 func (m *machine) back() interface{} {
+	if m.underflow() {
+		return nil
+	}
 	return m.stack[len(m.stack)-1]
 }
 
 func (m *machine) putMemory(key string) {
-	m.memory[key] = m.stack[len(m.stack)-1]
+	m.memory[key] = m.back()
 }
 
 func (m *machine) getMemory(key string) interface{} {
-	return m.memory[key]
+	obj, found := m.memory[key]
+	if !found {
+		m.fail(fmt.Errorf("memory key %s not found", key))
+	}
+	return obj
 }
-- 
2.43.0


From b9fb5a2e3829436931e1e4dc6eddbbe4b783360f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 21/42] fix: read pickles from readers that return no bytes now
 and then

Read() may return 0 bytes without an error.
---
 internal/pickle/decoder.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index 565252b..c21906d 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -33,11 +33,9 @@ loop:
 		if d.machine.err != nil {
 			return nil, d.machine.err
 		}
-		length, err := d.reader.Read(buf[:1])
+		_, err := io.ReadFull(d.reader, buf[:1])
 		if err != nil {
 			return nil, err
-		} else if length != 1 {
-			return nil, fmt.Errorf("unexpected read")
 		}
 
 		nInstr++
@@ -182,11 +180,9 @@ func (d *Decoder) readLine() ([]byte, error) {
 	line := make([]byte, 0)
 	buf := make([]byte, 1)
 	for {
-		len, err := d.reader.Read(buf)
+		_, err := io.ReadFull(d.reader, buf)
 		if err != nil {
 			return nil, err
-		} else if len != 1 {
-			return nil, fmt.Errorf("unexpected read")
 		}
 		if buf[0] == '\n' {
 			break
-- 
2.43.0


From 08b2edc12446c5c21804c5b7d1388971a2f92152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 22/42] fix: appends are seen through every memory reference to
 a list

A list was copied on append, the memory kept the list as it was when stored.
---
 internal/pickle/decoder.go | 8 +++-----
 internal/pickle/numpy.go   | 4 ++--
 internal/pickle/types.go   | 9 +++++----
 3 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index c21906d..20cc0d4 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -104,16 +104,14 @@ loop:
 			d.machine.push(tuple)
 		case opList:
 			list := append(List{}, d.machine.popMark()...)
-			d.machine.push(list)
+			d.machine.push(&list)
 		case opAppend:
 			el := d.machine.pop()
-			obj := d.machine.pop()
-			list, err := toList(obj, -1)
+			list, err := toList(d.machine.back(), -1)
 			if err != nil {
 				return nil, err
 			}
-			list = append(list, el)
-			d.machine.push(list)
+			*list = append(*list, el)
 		case opUnicode:
 			line, err := d.readLine()
 			if err != nil {
diff --git a/internal/pickle/numpy.go b/internal/pickle/numpy.go
index 85c98bb..483a4c0 100644
--- a/internal/pickle/numpy.go
+++ b/internal/pickle/numpy.go
@@ -73,9 +73,9 @@ func (a *NumpyArrayRaw) Build(build Build) (err error) {
 	case Build, Reduce:
 		// if we've got Build or Reduce objects we have a deal with plain data stored in raw byte array
 		err = ParseClass(&a.Data, args[4])
-	case List:
+	case *List:
 		// sometimes we've got data stored as python list (for array of python objects)
-		a.DataList = x
+		a.DataList = *x
 	default:
 		err = fmt.Errorf("unexpected type %T", args[4])
 	}
diff --git a/internal/pickle/types.go b/internal/pickle/types.go
index 54c6c38..c678948 100644
--- a/internal/pickle/types.go
+++ b/internal/pickle/types.go
@@ -70,13 +70,14 @@ func toTuple(obj interface{}, length int) (Tuple, error) {
 	return tuple, nil
 }
 
-func toList(obj interface{}, length int) (List, error) {
-	list, ok := obj.(List)
+// toList returns reference to the list, because list could be shared and changed afterwards
+func toList(obj interface{}, length int) (*List, error) {
+	list, ok := obj.(*List)
 	if !ok {
 		return nil, fmt.Errorf("expected List object (got %T)", obj)
 	}
-	if length > -1 && len(list) != length {
-		return nil, fmt.Errorf("expected List with length %d (got %d)", length, len(list))
+	if length > -1 && len(*list) != length {
+		return nil, fmt.Errorf("expected List with length %d (got %d)", length, len(*list))
 	}
 	return list, nil
 }
-- 
2.43.0


From a6315ebf8d77f2e19fa90967d2e977761ffa51bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 23/42] fix: the state of a shared object is seen through every
 memory reference to it

Python stores an object in the memory before BUILD sets its state: references
to it (ex., to a big endian numpy dtype) got the object without the state.
---
 internal/pickle/decoder.go | 10 ++++---
 internal/pickle/numpy.go   |  4 +--
 internal/pickle/types.go   | 55 ++++++++++++--------------------------
 3 files changed, 25 insertions(+), 44 deletions(-)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index 20cc0d4..b513bc2 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -121,7 +121,7 @@ loop:
 		case opReduce:
 			args := d.machine.pop()
 			callable := d.machine.pop()
-			r := Reduce{Callable: callable}
+			r := &Reduce{Callable: callable}
 			if t, ok := args.(Tuple); ok {
 				r.Args = t
 			} else {
@@ -132,9 +132,11 @@ loop:
 			d.machine.push(None{})
 		case opBuild:
 			args := d.machine.pop()
-			obj := d.machine.pop()
-			b := Build{Object: obj, Args: args}
-			d.machine.push(b)
+			reduce, err := toReduce(d.machine.back())
+			if err != nil {
+				return nil, err
+			}
+			reduce.Build = &Build{Object: reduce, Args: args}
 		case opDict:
 			objs := d.machine.popMark()
 			nObjs := len(objs)
diff --git a/internal/pickle/numpy.go b/internal/pickle/numpy.go
index 483a4c0..eff644f 100644
--- a/internal/pickle/numpy.go
+++ b/internal/pickle/numpy.go
@@ -70,8 +70,8 @@ func (a *NumpyArrayRaw) Build(build Build) (err error) {
 	}
 
 	switch x := args[4].(type) {
-	case Build, Reduce:
-		// if we've got Build or Reduce objects we have a deal with plain data stored in raw byte array
+	case *Reduce:
+		// if we've got Reduce object we have a deal with plain data stored in raw byte array
 		err = ParseClass(&a.Data, args[4])
 	case *List:
 		// sometimes we've got data stored as python list (for array of python objects)
diff --git a/internal/pickle/types.go b/internal/pickle/types.go
index c678948..5ded04f 100644
--- a/internal/pickle/types.go
+++ b/internal/pickle/types.go
@@ -24,10 +24,13 @@ type Global struct {
 	Name   string
 }
 
-// Reduce is result of REDUCE pickle command (usually class __init__ call)
+// Reduce is result of REDUCE pickle command (usually class __init__ call).
+// It's kept by reference, because object could be shared and built afterwards
 type Reduce struct {
 	Callable interface{}
 	Args     Tuple
+	// Build is set if there was BUILD command on the object
+	Build *Build
 }
 
 // Build is result of BUILD pickle command (usually class __setstate__ call)
@@ -101,20 +104,10 @@ func toDict(obj interface{}) (Dict, error) {
 	return dict, nil
 }
 
-func toBuild(obj interface{}) (Build, error) {
-	def := Build{}
-	build, ok := obj.(Build)
+func toReduce(obj interface{}) (*Reduce, error) {
+	reduce, ok := obj.(*Reduce)
 	if !ok {
-		return def, fmt.Errorf("expected Build object (got %T)", obj)
-	}
-	return build, nil
-}
-
-func toReduce(obj interface{}) (Reduce, error) {
-	def := Reduce{}
-	reduce, ok := obj.(Reduce)
-	if !ok {
-		return def, fmt.Errorf("expected Reduce object (got %T)", obj)
+		return nil, fmt.Errorf("expected Reduce object (got %T)", obj)
 	}
 	return reduce, nil
 }
@@ -153,30 +146,16 @@ func (d *Dict) toFloat(key string) (float64, error) {
 
 // ParseClass calls PythonClass's Reduce and Build methods
 func ParseClass(entity PythonClass, obj interface{}) (err error) {
-	build, hasBuild := obj.(Build)
-	var reduce Reduce
-	if hasBuild {
-		reduce, err = toReduce(build.Object)
-		if err != nil {
-			return err
-		}
-		err = entity.Reduce(reduce)
-		if err != nil {
-			return err
-		}
-		err = entity.Build(build)
-		if err != nil {
-			return err
-		}
-	} else {
-		reduce, err = toReduce(obj)
-		if err != nil {
-			return err
-		}
-		err = entity.Reduce(reduce)
-		if err != nil {
-			return err
-		}
+	reduce, err := toReduce(obj)
+	if err != nil {
+		return err
+	}
+	err = entity.Reduce(*reduce)
+	if err != nil {
+		return err
+	}
+	if reduce.Build != nil {
+		return entity.Build(*reduce.Build)
 	}
 	return nil
 }
-- 
2.43.0


From 2531c92d97af74bbf219d4869d8d59717525e92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 24/42] fix: error messages don't print pickled objects

A dictionary that contains itself overflowed the stack while being printed.
---
 internal/pickle/decoder.go | 2 +-
 internal/pickle/numpy.go   | 8 ++++----
 internal/pickle/sklearn.go | 6 +++---
 internal/pickle/types.go   | 4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index b513bc2..dcbe54a 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -125,7 +125,7 @@ loop:
 			if t, ok := args.(Tuple); ok {
 				r.Args = t
 			} else {
-				return nil, fmt.Errorf("reduce: unexpected args %v", args)
+				return nil, fmt.Errorf("reduce: unexpected args %T", args)
 			}
 			d.machine.push(r)
 		case opNone:
diff --git a/internal/pickle/numpy.go b/internal/pickle/numpy.go
index eff644f..828f0b8 100644
--- a/internal/pickle/numpy.go
+++ b/internal/pickle/numpy.go
@@ -21,7 +21,7 @@ func (a *NumpyArrayRaw) Reduce(reduce Reduce) (err error) {
 	}
 
 	if len(reduce.Args) != 3 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple length: %d", len(reduce.Args))
 	}
 	_, err = toGlobal(reduce.Args[0], "numpy", "ndarray")
 	if err != nil {
@@ -94,7 +94,7 @@ func (b *NumpyRawBytes) Reduce(reduce Reduce) (err error) {
 		return
 	}
 	if len(reduce.Args) != 2 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple length: %d", len(reduce.Args))
 	}
 	unicode, err := toUnicode(reduce.Args[0], -1)
 	if err != nil {
@@ -134,7 +134,7 @@ func (d *NumpyDType) Reduce(reduce Reduce) error {
 		return err
 	}
 	if len(reduce.Args) != 3 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple length: %d", len(reduce.Args))
 	}
 	unicode, err := toUnicode(reduce.Args[0], -1)
 	if err != nil {
@@ -172,7 +172,7 @@ func (s *NumpyScalarRaw) Reduce(reduce Reduce) (err error) {
 		return
 	}
 	if len(reduce.Args) != 2 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple length: %d", len(reduce.Args))
 	}
 	err = ParseClass(&s.Type, reduce.Args[0])
 	if err != nil {
diff --git a/internal/pickle/sklearn.go b/internal/pickle/sklearn.go
index 81dd773..b82781a 100644
--- a/internal/pickle/sklearn.go
+++ b/internal/pickle/sklearn.go
@@ -153,7 +153,7 @@ func (t *SklearnDecisionTreeRegressor) Reduce(reduce Reduce) (err error) {
 		return
 	}
 	if len(reduce.Args) != 3 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple length: %d", len(reduce.Args))
 	}
 	_, err = toGlobal(reduce.Args[0], "sklearn.tree.tree", "DecisionTreeRegressor")
 	if err != nil {
@@ -217,7 +217,7 @@ func (t *SklearnGradientBoosting) Reduce(reduce Reduce) (err error) {
 		return
 	}
 	if len(reduce.Args) != 3 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple length: %d", len(reduce.Args))
 	}
 	_, err = toGlobal(reduce.Args[0], "sklearn.ensemble.gradient_boosting", "GradientBoostingClassifier")
 	if err != nil {
@@ -341,7 +341,7 @@ func (e *SKlearnInitEstimator) Reduce(reduce Reduce) (err error) {
 		return
 	}
 	if len(reduce.Args) != 3 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple length: %d", len(reduce.Args))
 	}
 	classDesc, err := toGlobal(reduce.Args[0], "sklearn.ensemble.gradient_boosting", "")
 	if err != nil {
diff --git a/internal/pickle/types.go b/internal/pickle/types.go
index 5ded04f..dd10d20 100644
--- a/internal/pickle/types.go
+++ b/internal/pickle/types.go
@@ -127,7 +127,7 @@ func (d *Dict) toInt(key string) (int, error) {
 	}
 	intValue, ok := value.(int)
 	if !ok {
-		return 0, fmt.Errorf("expected int (got %#v)", value)
+		return 0, fmt.Errorf("expected int (got %T)", value)
 	}
 	return intValue, nil
 }
@@ -139,7 +139,7 @@ func (d *Dict) toFloat(key string) (float64, error) {
 	}
 	floatValue, ok := value.(float64)
 	if !ok {
-		return 0, fmt.Errorf("expected int (got %#v)", value)
+		return 0, fmt.Errorf("expected int (got %T)", value)
 	}
 	return floatValue, nil
 }
-- 
2.43.0


From 7b817aaeace592b4ec186af35de55d2aa6b13391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:08 +0000
Subject: [PATCH 25/42] fix: refuse sklearn models with inconsistent trees or
 sizes

Children out of range, cycles, split features out of range, missing values or
bytes and odd shapes panicked (or hung) while loading or predicting.
---
 internal/pickle/sklearn.go | 19 ++++++++++++++-----
 skensemble_io.go           | 29 ++++++++++++++++++++++++++---
 2 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/internal/pickle/sklearn.go b/internal/pickle/sklearn.go
index b82781a..98b0bfe 100644
--- a/internal/pickle/sklearn.go
+++ b/internal/pickle/sklearn.go
@@ -72,14 +72,14 @@ func (t *SklearnTree) Reduce(reduce Reduce) (err error) {
 		return err
 	}
 
-	if len(arr.Shape) != 1 && arr.Shape[0] != t.NOutputs {
+	if len(arr.Shape) != 1 || arr.Shape[0] != t.NOutputs {
 		return fmt.Errorf("expected 1 dim array with %d values (got: %v)", t.NOutputs, arr.Shape)
 	}
 	if arr.Type.Type != "i8" || arr.Type.LittleEndinan != true {
 		return fmt.Errorf("expected ndtype \"i8\" little endian (got: %#v)", arr.Type)
 	}
 
-	t.Classes = make([]int, 0, t.NOutputs)
+	t.Classes = make([]int, 0)
 	err = arr.Data.Iterate(8, func(b []byte) error {
 		t.Classes = append(t.Classes, int(binary.LittleEndian.Uint64(b)))
 		return nil
@@ -179,6 +179,9 @@ func (t *SklearnDecisionTreeRegressor) Build(build Build) (err error) {
 	if nClassesRaw.Type.Type != "i8" || !nClassesRaw.Type.LittleEndinan {
 		return fmt.Errorf("expected little endian i8, got (%#v)", nClassesRaw.Type)
 	}
+	if len(nClassesRaw.Data) != 8 {
+		return fmt.Errorf("expected 8 bytes, got %d", len(nClassesRaw.Data))
+	}
 	t.NClasses = int(binary.LittleEndian.Uint64(nClassesRaw.Data))
 	t.MaxFeatures, err = dict.toInt("max_features_")
 	if err != nil {
@@ -269,14 +272,14 @@ func (t *SklearnGradientBoosting) Build(build Build) (err error) {
 		return err
 	}
 
-	if len(arr.Shape) != 1 && arr.Shape[0] != t.NClasses {
+	if len(arr.Shape) != 1 || arr.Shape[0] != t.NClasses {
 		return fmt.Errorf("expected 1 dim array with %d values (got: %v)", t.NClasses, arr.Shape)
 	}
 	if arr.Type.Type != "i8" || arr.Type.LittleEndinan != true {
 		return fmt.Errorf("expected ndtype \"i8\" little endian (got: %#v)", arr.Type)
 	}
 
-	t.Classes = make([]int, 0, t.NClasses)
+	t.Classes = make([]int, 0)
 	err = arr.Data.Iterate(8, func(b []byte) error {
 		t.Classes = append(t.Classes, int(binary.LittleEndian.Uint64(b)))
 		return nil
@@ -369,6 +372,9 @@ func (e *SKlearnInitEstimator) Build(build Build) (err error) {
 		if numpyScalar.Type.Type != "f8" {
 			return fmt.Errorf("expected f8, got (%#v)", numpyScalar.Type)
 		}
+		if len(numpyScalar.Data) != 8 {
+			return fmt.Errorf("expected 8 bytes, got %d", len(numpyScalar.Data))
+		}
 		e.Prior = append(e.Prior, util.Float64FromBytes(numpyScalar.Data, numpyScalar.Type.LittleEndinan))
 	} else if e.Name == "PriorProbabilityEstimator" {
 		dict, err := toDict(build.Args)
@@ -387,10 +393,13 @@ func (e *SKlearnInitEstimator) Build(build Build) (err error) {
 		if numpyArray.Type.Type != "f8" {
 			return fmt.Errorf("expected f8, got (%#v)", numpyArray.Type)
 		}
-		numpyArray.Data.Iterate(8, func(bytes []byte) error {
+		err = numpyArray.Data.Iterate(8, func(bytes []byte) error {
 			e.Prior = append(e.Prior, util.Float64FromBytes(bytes, numpyArray.Type.LittleEndinan))
 			return nil
 		})
+		if err != nil {
+			return err
+		}
 	} else {
 		return fmt.Errorf("unknown init estimator class: %s", e.Name)
 	}
diff --git a/skensemble_io.go b/skensemble_io.go
index 030fc0e..5f3b689 100644
--- a/skensemble_io.go
+++ b/skensemble_io.go
@@ -9,11 +9,16 @@ import (
 	"github.com/dmitryikh/leaves/transformation"
 )
 
-func lgTreeFromSklearnDecisionTreeRegressor(tree pickle.SklearnDecisionTreeRegressor, scale float64, base float64) (lgTree, error) {
+func lgTreeFromSklearnDecisionTreeRegressor(tree pickle.SklearnDecisionTreeRegressor, scale float64, base float64, nFeatures int) (lgTree, error) {
 	t := lgTree{}
 	// no support for categorical features in sklearn trees
 	t.nCategorical = 0
 
+	if tree.Tree.NNodes != len(tree.Tree.Nodes) || len(tree.Tree.Values) != len(tree.Tree.Nodes) {
+		return t, fmt.Errorf("unexpected number of nodes (%d) and values (%d), should be %d",
+			len(tree.Tree.Nodes), len(tree.Tree.Values), tree.Tree.NNodes)
+	}
+
 	numLeaves := 0
 	numNodes := 0
 	for _, n := range tree.Tree.Nodes {
@@ -38,6 +43,14 @@ func lgTreeFromSklearnDecisionTreeRegressor(tree pickle.SklearnDecisionTreeRegre
 	createNode := func(idx int) (lgNode, error) {
 		node := lgNode{}
 		refNode := &tree.Tree.Nodes[idx]
+		for _, child := range []int{refNode.LeftChild, refNode.RightChild} {
+			if child < 0 || child >= len(tree.Tree.Nodes) {
+				return node, fmt.Errorf("child %d is out of range", child)
+			}
+		}
+		if refNode.Feature < 0 || refNode.Feature >= nFeatures {
+			return node, fmt.Errorf("split feature %d, but number of features is %d", refNode.Feature, nFeatures)
+		}
 		missingType := uint8(0)
 		defaultType := uint8(0)
 		node = numericalNode(uint32(refNode.Feature), missingType, refNode.Threshold, defaultType)
@@ -126,8 +139,12 @@ func SKEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 
 	e.MaxFeatureIdx = gbdt.NFeatures - 1
 
+	if e.nRawOutputGroups < 1 {
+		return nil, fmt.Errorf("unexpected number of classes (%d)", gbdt.NClasses)
+	}
+
 	nTrees := gbdt.NEstimators
-	if nTrees == 0 {
+	if nTrees < 1 {
 		return nil, fmt.Errorf("no trees in file")
 	}
 
@@ -138,6 +155,9 @@ func SKEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 	scale := gbdt.LearningRate
 	base := make([]float64, e.nRawOutputGroups)
 	if gbdt.InitEstimator.Name == "LogOddsEstimator" {
+		if e.nRawOutputGroups != 1 || len(gbdt.InitEstimator.Prior) != 1 {
+			return nil, fmt.Errorf("LogOddsEstimator should have one prior for one output")
+		}
 		for i := 0; i < e.nRawOutputGroups; i++ {
 			base[i] = gbdt.InitEstimator.Prior[0]
 		}
@@ -154,10 +174,13 @@ func SKEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 	for i := 0; i < gbdt.NEstimators; i++ {
 		for j := 0; j < e.nRawOutputGroups; j++ {
 			treeNum := i*e.nRawOutputGroups + j
-			tree, err := lgTreeFromSklearnDecisionTreeRegressor(gbdt.Estimators[treeNum], scale, base[j])
+			tree, err := lgTreeFromSklearnDecisionTreeRegressor(gbdt.Estimators[treeNum], scale, base[j], e.NFeatures())
 			if err != nil {
 				return nil, fmt.Errorf("error while creating %d tree: %s", treeNum, err.Error())
 			}
+			if err := tree.validate(e.NFeatures()); err != nil {
+				return nil, fmt.Errorf("error in %d tree: %s", treeNum, err.Error())
+			}
 			e.Trees = append(e.Trees, tree)
 		}
 		for k := range base {
-- 
2.43.0


From a92af136843fbacddd77acad31b2a66eb815ddef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:08 +0000
Subject: [PATCH 26/42] fix: number the leaves of LightGBM JSON models as the
 model does

leaf_index was ignored, leaf predictions differed from LightGBM and from the
same model in text format.
---
 lgensemble_io.go | 45 ++++++++++++++++++++++++++++++++-------------
 lgtree.go        | 23 +++++++++++++++++++++++
 2 files changed, 55 insertions(+), 13 deletions(-)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index aed6af5..791fb4e 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -50,6 +50,13 @@ type lgNodeJSON struct {
 	RightChild    interface{}
 }
 
+// lgLeafJSON is a leaf of the tree
+type lgLeafJSON struct {
+	value float64
+	// index is the number of the leaf in the original tree (-1 if unknown)
+	index int
+}
+
 // lgObjective keeps parsed data from 'objective' field of lightgbm txt format
 // 'multiclass num_class:13' parsed to
 // lgObjective{name: 'multiclass', param: 'num_class', value:13}
@@ -450,7 +457,11 @@ func unmarshalNode(raw []byte) (interface{}, error) {
 		if !ok {
 			return nil, fmt.Errorf("unknown tree")
 		}
-		return value, nil
+		leaf := lgLeafJSON{value, -1}
+		if index, ok := data["leaf_index"].(float64); ok {
+			leaf.index = int(index)
+		}
+		return leaf, nil
 	}
 	node.LeftChild, err = unmarshalNode(node.LeftChildRaw)
 	if err != nil {
@@ -500,12 +511,15 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 		return t, fmt.Errorf("expected %d nodes in the tree (got %d)", numNodes, nNodes)
 	}
 
-	if value, ok := treeJSON.Root.(float64); ok {
+	if leaf, ok := treeJSON.Root.(lgLeafJSON); ok {
 		// special case - constant value tree
-		t.leafValues = append(t.leafValues, value)
+		t.leafValues = append(t.leafValues, leaf.value)
 		return t, nil
 	}
 
+	// leafIndices keeps original number for each value in t.leafValues
+	leafIndices := make([]int, 0, treeJSON.NumLeaves)
+
 	createNumericalNode := func(nodeJSON *lgNodeJSON) (lgNode, error) {
 		node := lgNode{}
 		missingType, isFound := stringToMissingType[nodeJSON.MissingType]
@@ -521,15 +535,17 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 			return node, fmt.Errorf("unexpected Threshold type %T", nodeJSON.Threshold)
 		}
 		node = numericalNode(nodeJSON.SplitFeature, missingType, threshold, defaultType)
-		if value, ok := nodeJSON.LeftChild.(float64); ok {
+		if leaf, ok := nodeJSON.LeftChild.(lgLeafJSON); ok {
 			node.Flags |= leftLeaf
 			node.Left = uint32(len(t.leafValues))
-			t.leafValues = append(t.leafValues, value)
+			t.leafValues = append(t.leafValues, leaf.value)
+			leafIndices = append(leafIndices, leaf.index)
 		}
-		if value, ok := nodeJSON.RightChild.(float64); ok {
+		if leaf, ok := nodeJSON.RightChild.(lgLeafJSON); ok {
 			node.Flags |= rightLeaf
 			node.Right = uint32(len(t.leafValues))
-			t.leafValues = append(t.leafValues, value)
+			t.leafValues = append(t.leafValues, leaf.value)
+			leafIndices = append(leafIndices, leaf.index)
 		}
 		return node, nil
 	}
@@ -587,15 +603,17 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 		}
 
 		node = categoricalNode(nodeJSON.SplitFeature, missingType, catIdx, catType)
-		if value, ok := nodeJSON.LeftChild.(float64); ok {
+		if leaf, ok := nodeJSON.LeftChild.(lgLeafJSON); ok {
 			node.Flags |= leftLeaf
 			node.Left = uint32(len(t.leafValues))
-			t.leafValues = append(t.leafValues, value)
+			t.leafValues = append(t.leafValues, leaf.value)
+			leafIndices = append(leafIndices, leaf.index)
 		}
-		if value, ok := nodeJSON.RightChild.(float64); ok {
+		if leaf, ok := nodeJSON.RightChild.(lgLeafJSON); ok {
 			node.Flags |= rightLeaf
 			node.Right = uint32(len(t.leafValues))
-			t.leafValues = append(t.leafValues, value)
+			t.leafValues = append(t.leafValues, leaf.value)
+			leafIndices = append(leafIndices, leaf.index)
 		}
 		return node, nil
 	}
@@ -637,7 +655,7 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 		if node.Flags&leftLeaf == 0 {
 			if left, ok := stackData.nodeJSON.LeftChild.(*lgNodeJSON); ok {
 				stack = append(stack, StackData{&t.nodes[len(t.nodes)-1].Left, left})
-			} else if _, ok := stackData.nodeJSON.LeftChild.(float64); ok {
+			} else if _, ok := stackData.nodeJSON.LeftChild.(lgLeafJSON); ok {
 			} else {
 				return t, fmt.Errorf("unexpected left child type %T", stackData.nodeJSON.LeftChild)
 			}
@@ -645,12 +663,13 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 		if node.Flags&rightLeaf == 0 {
 			if right, ok := stackData.nodeJSON.RightChild.(*lgNodeJSON); ok {
 				stack = append(stack, StackData{&t.nodes[len(t.nodes)-1].Right, right})
-			} else if _, ok := stackData.nodeJSON.RightChild.(float64); ok {
+			} else if _, ok := stackData.nodeJSON.RightChild.(lgLeafJSON); ok {
 			} else {
 				return t, fmt.Errorf("unexpected right child type %T", stackData.nodeJSON.RightChild)
 			}
 		}
 	}
+	t.renumberLeaves(leafIndices)
 	return t, nil
 }
 
diff --git a/lgtree.go b/lgtree.go
index 943f646..2e77460 100644
--- a/lgtree.go
+++ b/lgtree.go
@@ -141,6 +141,29 @@ func (t *lgTree) validate(nFeatures int) error {
 	return nil
 }
 
+// renumberLeaves gives number indices[i] to the i-th leaf. Does nothing if indices are
+// not a permutation
+func (t *lgTree) renumberLeaves(indices []int) {
+	leafValues := make([]float64, len(t.leafValues))
+	used := make([]bool, len(t.leafValues))
+	for i, index := range indices {
+		if index < 0 || index >= len(used) || used[index] {
+			return
+		}
+		used[index] = true
+		leafValues[index] = t.leafValues[i]
+	}
+	t.leafValues = leafValues
+	for i := range t.nodes {
+		if t.nodes[i].Flags&leftLeaf > 0 {
+			t.nodes[i].Left = uint32(indices[t.nodes[i].Left])
+		}
+		if t.nodes[i].Flags&rightLeaf > 0 {
+			t.nodes[i].Right = uint32(indices[t.nodes[i].Right])
+		}
+	}
+}
+
 func isZero(fval float64) bool {
 	return (fval > -zeroThreshold && fval <= zeroThreshold)
 }
-- 
2.43.0


From 2fbfc00f85f9e98b95664da547576befc7389d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:39 +0000
Subject: [PATCH 27/42] fix: refuse models with an absurd number of features

Sparse prediction panicked on them while allocating a row.
---
 lgensemble_io.go | 6 ++++++
 skensemble_io.go | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index 791fb4e..c6a5e89 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -351,6 +351,9 @@ func LGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 	if err != nil {
 		return nil, err
 	}
+	if maxFeatureIdx >= math.MaxInt32 {
+		return nil, fmt.Errorf("max_feature_idx (%d) is too large", maxFeatureIdx)
+	}
 	e.MaxFeatureIdx = maxFeatureIdx
 
 	if params.Contains("average_output") {
@@ -710,6 +713,9 @@ func LGEnsembleFromJSON(reader io.Reader, loadTransformation bool) (*Ensemble, e
 		return nil, fmt.Errorf("num_tree_per_iteration (%d) should be > 0", data.NumTreesPerIteration)
 	}
 	e.nRawOutputGroups = data.NumClasses
+	if data.MaxFeatureIdx >= math.MaxInt32 {
+		return nil, fmt.Errorf("max_feature_idx (%d) is too large", data.MaxFeatureIdx)
+	}
 	e.MaxFeatureIdx = data.MaxFeatureIdx
 
 	nTrees := len(data.Trees)
diff --git a/skensemble_io.go b/skensemble_io.go
index 5f3b689..4661891 100644
--- a/skensemble_io.go
+++ b/skensemble_io.go
@@ -3,6 +3,7 @@ package leaves
 import (
 	"bufio"
 	"fmt"
+	"math"
 	"os"
 
 	"github.com/dmitryikh/leaves/internal/pickle"
@@ -137,6 +138,9 @@ func SKEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		e.nRawOutputGroups = 1
 	}
 
+	if gbdt.NFeatures > math.MaxInt32 {
+		return nil, fmt.Errorf("number of features (%d) is too large", gbdt.NFeatures)
+	}
 	e.MaxFeatureIdx = gbdt.NFeatures - 1
 
 	if e.nRawOutputGroups < 1 {
-- 
2.43.0


From d9b043c85164398e111c2f01907f68c86489527e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 28/42] verif: hook at the begin and the end of every row
 evaluation (build tag verif)

---
 leaves.go    |  2 ++
 verif_off.go |  6 ++++++
 verif_on.go  | 15 +++++++++++++++
 3 files changed, 23 insertions(+)
 create mode 100644 verif_off.go
 create mode 100644 verif_on.go

diff --git a/leaves.go b/leaves.go
index e0cc5c2..b92f40e 100644
--- a/leaves.go
+++ b/leaves.go
@@ -31,6 +31,7 @@ type Ensemble struct {
 }
 
 func (e *Ensemble) predictInnerAndTransform(fvals []float64, nEstimators int, predictions []float64, startIndex int) {
+	verifRow(true, fvals, startIndex)
 	if e.Transformation().Type() == transformation.Raw {
 		e.predictInner(fvals, nEstimators, predictions, startIndex)
 	} else if e.Transformation().Type() == transformation.LeafIndex {
@@ -41,6 +42,7 @@ func (e *Ensemble) predictInnerAndTransform(fvals []float64, nEstimators int, pr
 		e.predictInner(fvals, nEstimators, rawPredictions, 0)
 		e.transform.Transform(rawPredictions, predictions, startIndex)
 	}
+	verifRow(false, fvals, startIndex)
 }
 
 func (e *Ensemble) checkNEstimators(nEstimators int) error {
diff --git a/verif_off.go b/verif_off.go
new file mode 100644
index 0000000..17adfa5
--- /dev/null
+++ b/verif_off.go
@@ -0,0 +1,6 @@
+//go:build !verif
+// +build !verif
+
+package leaves
+
+func verifRow(begin bool, fvals []float64, startIndex int) {}
diff --git a/verif_on.go b/verif_on.go
new file mode 100644
index 0000000..1bae19a
--- /dev/null
+++ b/verif_on.go
@@ -0,0 +1,15 @@
+//go:build verif
+// +build verif
+
+package leaves
+
+// VerifRow is called (if set) at the begin and at the end of every evaluation
+// of a row. `fvals` are the values the row is evaluated on, `startIndex` points
+// to its first output cell. May be called from several goroutines at once
+var VerifRow func(begin bool, fvals []float64, startIndex int)
+
+func verifRow(begin bool, fvals []float64, startIndex int) {
+	if VerifRow != nil {
+		VerifRow(begin, fvals, startIndex)
+	}
+}
-- 
2.43.0


From d25dc2314bc8fa997701c786edc3d9038fdde7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:42 +0000
Subject: [PATCH 29/42] fix: leaf predictions of gblinear models left the
 output as it was

Now the cells are set to zero, like for constant trees.
---
 xgblinear.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xgblinear.go b/xgblinear.go
index d55c763..3f18147 100644
--- a/xgblinear.go
+++ b/xgblinear.go
@@ -50,6 +50,9 @@ func (e *xgLinear) predictInner(fvals []float64, nIterations int, predictions []
 
 func (e *xgLinear) predictLeafIndicesInner(fvals []float64, nEstimators int, predictions []float64, startIndex int) {
 	// TODO: may be we should return an error here
+	for k := 0; k < e.nRawOutputGroups; k++ {
+		predictions[startIndex+k] = 0.0
+	}
 }
 
 func (e *xgLinear) resetFVals(fvals []float64) {
-- 
2.43.0


From 2a01e7741953570c5a15def4c344f6a99e0d327c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 30/42] fix: refuse wider rows after a first row of no columns
 in dense matrices

---
 mat/mat_io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index b264720..5a54aba 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -120,7 +120,7 @@ func recordsToDenseMat(mat *DenseMat, records []libsvmRecord) error {
 		}
 		mat.Values = append(mat.Values, r.value)
 	}
-	if mat.Cols == 0 {
+	if mat.Rows == 0 {
 		mat.Cols = len(records)
 	} else if mat.Cols != len(records) {
 		return fmt.Errorf("different number of columns (%d != %d)", mat.Cols, len(records))
-- 
2.43.0


From 8fe5438897676f5e5562296da8d1a11dfe9cbc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 31/42] fix: report failures to write the end of a csv file

---
 mat/mat_io.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index 5a54aba..84e95c9 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -283,9 +283,13 @@ func (m *DenseMat) ToCsvFile(filename string, delimiter string) error {
 	if err != nil {
 		return err
 	}
-	defer f.Close()
-
 	buf := bufio.NewWriter(f)
-	defer buf.Flush()
-	return m.WriteStr(buf, delimiter)
+	err = m.WriteStr(buf, delimiter)
+	if err == nil {
+		err = buf.Flush()
+	}
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
-- 
2.43.0


From 1ccba585ac4f2d082c81b0608db796b993ae4ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:28 +0000
Subject: [PATCH 32/42] verif: access to the pickle decoder (build tag
 verifpickle)

---
 verif_pickle.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)
 create mode 100644 verif_pickle.go

diff --git a/verif_pickle.go b/verif_pickle.go
new file mode 100644
index 0000000..9fe3e6f
--- /dev/null
+++ b/verif_pickle.go
@@ -0,0 +1,15 @@
+//go:build verifpickle
+// +build verifpickle
+
+package leaves
+
+import (
+	"io"
+
+	"github.com/dmitryikh/leaves/internal/pickle"
+)
+
+// VerifUnpickle decodes a pickle, for verification only
+func VerifUnpickle(r io.Reader) (interface{}, error) {
+	return pickle.NewDecoder(r).Decode()
+}
-- 
2.43.0


From d5145c2046b6e9e194ae53a705d050f8d4bc9d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:37 +0000
Subject: [PATCH 33/42] fix: a backslash after a backslash does not begin an
 escape in pickled strings

---
 internal/pickle/decoder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index dcbe54a..5d8583f 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -204,6 +204,11 @@ func decodeUnicode(rawString []byte) Unicode {
 				continue
 			}
 		}
+		if bytes.HasPrefix(rawString[i:], []byte("\\\\")) {
+			// a backslash after a backslash doesn't begin an escape
+			ret = append(ret, rawString[i])
+			i++
+		}
 		ret = append(ret, rawString[i])
 	}
 	return ret
-- 
2.43.0


From 29e6e76dd43f91374739ff4c8ab0b8094fc90219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 34/42] fix: refuse sklearn models with a negative number of
 features

---
 skensemble_io.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skensemble_io.go b/skensemble_io.go
index 4661891..08f91e0 100644
--- a/skensemble_io.go
+++ b/skensemble_io.go
@@ -138,8 +138,8 @@ func SKEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		e.nRawOutputGroups = 1
 	}
 
-	if gbdt.NFeatures > math.MaxInt32 {
-		return nil, fmt.Errorf("number of features (%d) is too large", gbdt.NFeatures)
+	if gbdt.NFeatures < 0 || gbdt.NFeatures > math.MaxInt32 {
+		return nil, fmt.Errorf("wrong number of features (%d)", gbdt.NFeatures)
 	}
 	e.MaxFeatureIdx = gbdt.NFeatures - 1
 
-- 
2.43.0


From b24ec86bc4255e254b1766877f7d9af3892fc219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 35/42] fix: refuse sklearn models whose number of trees
 overflows

---
 internal/pickle/sklearn.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/pickle/sklearn.go b/internal/pickle/sklearn.go
index 98b0bfe..99b5188 100644
--- a/internal/pickle/sklearn.go
+++ b/internal/pickle/sklearn.go
@@ -317,13 +317,14 @@ func (t *SklearnGradientBoosting) Build(build Build) (err error) {
 	if t.NClasses == 2 {
 		adjNClasses = 1
 	}
-	if len(arr.Shape) != 2 || arr.Shape[0] != t.NEstimators || arr.Shape[1] != adjNClasses {
+	if len(arr.Shape) != 2 || arr.Shape[0] != t.NEstimators || arr.Shape[1] != adjNClasses || adjNClasses < 1 {
 		return fmt.Errorf("unexpected shape: %#v", arr.Shape)
 	}
-	if len(arr.DataList) != arr.Shape[0]*arr.Shape[1] {
+	// NOTE: the product of the dimensions could overflow
+	if len(arr.DataList)%adjNClasses != 0 || len(arr.DataList)/adjNClasses != arr.Shape[0] {
 		return fmt.Errorf("unexpected array list length")
 	}
-	t.Estimators = make([]SklearnDecisionTreeRegressor, arr.Shape[0]*arr.Shape[1])
+	t.Estimators = make([]SklearnDecisionTreeRegressor, len(arr.DataList))
 	for i := range arr.DataList {
 		err = ParseClass(&t.Estimators[i], arr.DataList[i])
 		if err != nil {
-- 
2.43.0


From d70b4eee9966439df4e83c4aa944e297f0be41fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:36 +0000
Subject: [PATCH 36/42] fix: XGBoost splits at negative infinity send every
 value right

---
 xgensemble_io.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xgensemble_io.go b/xgensemble_io.go
index cb60186..ec821b0 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -64,6 +64,10 @@ func xgTreeFromTreeModel(origTree *xgbin.TreeModel, numFeatures uint32) (lgTree,
 		}
 		// XGBoost goes left when `fval < threshold`, numericalDecision when `fval <= threshold`
 		threshold := math.Nextafter(float64(origNode.Info), math.Inf(-1))
+		if math.IsInf(threshold, -1) {
+			// no value is less than negative infinity (NaN isn't as well, so all values go right)
+			threshold = math.NaN()
+		}
 		node = numericalNode(xgSplitIndex(origNode), missingType, threshold, defaultType)
 
 		if origNode.CLeft < 0 {
-- 
2.43.0


From d1c650bea30fc2f8f39add2e873383211c53dfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:33 +0000
Subject: [PATCH 37/42] fix: LightGBM JSON splits without split_feature or
 default_left are taken as zeros

---
 lgensemble_io.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index c6a5e89..48338dd 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -37,12 +37,12 @@ type lgTreeJSON struct {
 }
 
 type lgNodeJSON struct {
-	SplitIndex   uint32 `json:"split_index"`
-	SplitFeature uint32 `json:"split_feature"`
+	SplitIndex   uint32  `json:"split_index"`
+	SplitFeature *uint32 `json:"split_feature"`
 	// Threshold could be float64 (for numerical decision) or string (for categorical, example "10||100||400")
 	Threshold     interface{}     `json:"threshold"`
 	DecisionType  string          `json:"decision_type"`
-	DefaultLeft   bool            `json:"default_left"`
+	DefaultLeft   *bool           `json:"default_left"`
 	MissingType   string          `json:"missing_type"`
 	LeftChildRaw  json.RawMessage `json:"left_child"`
 	RightChildRaw json.RawMessage `json:"right_child"`
@@ -529,15 +529,18 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 		if !isFound {
 			return node, fmt.Errorf("unknown missing_type '%s'", nodeJSON.MissingType)
 		}
+		if nodeJSON.SplitFeature == nil || nodeJSON.DefaultLeft == nil {
+			return node, fmt.Errorf("no split_feature or default_left field")
+		}
 		defaultType := uint8(0)
-		if nodeJSON.DefaultLeft {
+		if *nodeJSON.DefaultLeft {
 			defaultType = defaultLeft
 		}
 		threshold, ok := nodeJSON.Threshold.(float64)
 		if !ok {
 			return node, fmt.Errorf("unexpected Threshold type %T", nodeJSON.Threshold)
 		}
-		node = numericalNode(nodeJSON.SplitFeature, missingType, threshold, defaultType)
+		node = numericalNode(*nodeJSON.SplitFeature, missingType, threshold, defaultType)
 		if leaf, ok := nodeJSON.LeftChild.(lgLeafJSON); ok {
 			node.Flags |= leftLeaf
 			node.Left = uint32(len(t.leafValues))
@@ -560,6 +563,10 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 			return node, fmt.Errorf("unknown missing_type '%s'", nodeJSON.MissingType)
 		}
 
+		if nodeJSON.SplitFeature == nil {
+			return node, fmt.Errorf("no split_feature field")
+		}
+
 		thresholdString, ok := nodeJSON.Threshold.(string)
 		if !ok {
 			return node, fmt.Errorf("unexpected Threshold type %T", nodeJSON.Threshold)
@@ -605,7 +612,7 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 			}
 		}
 
-		node = categoricalNode(nodeJSON.SplitFeature, missingType, catIdx, catType)
+		node = categoricalNode(*nodeJSON.SplitFeature, missingType, catIdx, catType)
 		if leaf, ok := nodeJSON.LeftChild.(lgLeafJSON); ok {
 			node.Flags |= leftLeaf
 			node.Left = uint32(len(t.leafValues))
-- 
2.43.0


From 69bf0b9392d7a820bcdbcd8a63a1591421e28235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:33 +0000
Subject: [PATCH 38/42] fix: sklearn models with an integer learning rate are
 refused

---
 internal/pickle/types.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/pickle/types.go b/internal/pickle/types.go
index dd10d20..48ce62d 100644
--- a/internal/pickle/types.go
+++ b/internal/pickle/types.go
@@ -137,9 +137,13 @@ func (d *Dict) toFloat(key string) (float64, error) {
 	if err != nil {
 		return 0, err
 	}
+	// NOTE: python code accepts int as well (ex., learning_rate=1)
+	if intValue, ok := value.(int); ok {
+		return float64(intValue), nil
+	}
 	floatValue, ok := value.(float64)
 	if !ok {
-		return 0, fmt.Errorf("expected int (got %T)", value)
+		return 0, fmt.Errorf("expected float (got %T)", value)
 	}
 	return floatValue, nil
 }
-- 
2.43.0


From a3ea2dd2c44493b2f1e9a1e4dbe1b18b32d34044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:33 +0000
Subject: [PATCH 39/42] fix: numpy data in native byte order are read as big
 endian

---
 internal/pickle/numpy.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/pickle/numpy.go b/internal/pickle/numpy.go
index 828f0b8..e70660e 100644
--- a/internal/pickle/numpy.go
+++ b/internal/pickle/numpy.go
@@ -157,7 +157,15 @@ func (d *NumpyDType) Build(build Build) error {
 	if err != nil {
 		return err
 	}
-	d.LittleEndinan = endian[0] == '<'
+	switch endian[0] {
+	case '<', '=', '|':
+		// NOTE: '=' is the native order, '|' is for types without order
+		d.LittleEndinan = true
+	case '>':
+		d.LittleEndinan = false
+	default:
+		return fmt.Errorf("unknown byte order \"%s\"", endian)
+	}
 	return nil
 }
 
-- 
2.43.0


From d9e563372e1b7d83ed6a21b18cb89566231bf785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:12 +0000
Subject: [PATCH 40/42] fix: refuse XGBoost models with an absurd number of
 features

---
 xgensemble_io.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xgensemble_io.go b/xgensemble_io.go
index ec821b0..e9e7588 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -163,6 +163,9 @@ func XGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 	if header.Param.NumFeatures == 0 {
 		return nil, fmt.Errorf("zero number of features")
 	}
+	if header.Param.NumFeatures > math.MaxInt32 {
+		return nil, fmt.Errorf("number of features (%d) is too large", header.Param.NumFeatures)
+	}
 	e.MaxFeatureIdx = int(header.Param.NumFeatures) - 1
 	e.BaseScore = float64(header.Param.BaseScore)
 
-- 
2.43.0


From e0fc558a982079b488df04286253e3d9a36db8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:02 +0000
Subject: [PATCH 41/42] fix: refuse dense batches whose sizes overflow or are
 negative

---
 leaves.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/leaves.go b/leaves.go
index b92f40e..4bddfe5 100644
--- a/leaves.go
+++ b/leaves.go
@@ -195,14 +195,15 @@ func (e *Ensemble) PredictDense(
 	nThreads int,
 ) error {
 	nRows := nrows
-	if len(predictions) < e.NOutputGroups()*nRows {
-		return fmt.Errorf("predictions slice too short (should be at least %d)", e.NOutputGroups()*nRows)
+	// NOTE: products of sizes could overflow
+	if nRows > 0 && len(predictions)/nRows < e.NOutputGroups() {
+		return fmt.Errorf("predictions slice too short (should be at least %d * %d)", e.NOutputGroups(), nRows)
 	}
-	if ncols == 0 || e.NFeatures() > ncols {
+	if ncols <= 0 || e.NFeatures() > ncols {
 		return fmt.Errorf("incorrect number of columns")
 	}
-	if len(vals) < nRows*ncols {
-		return fmt.Errorf("vals slice too short (should be at least %d)", nRows*ncols)
+	if nRows > 0 && len(vals)/nRows < ncols {
+		return fmt.Errorf("vals slice too short (should be at least %d * %d)", nRows, ncols)
 	}
 	nEstimators = e.adjustNEstimators(nEstimators)
 	err := e.checkNEstimators(nEstimators)
-- 
2.43.0


From 9dff23e0e365f6d1c225cf7e7919b2b8c74cd3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:54 +0000
Subject: [PATCH 42/42] fix: refuse matrices whose shape overflows or is
 negative

---
 mat/mat.go    | 16 ++++++++++++++--
 mat/mat_io.go |  2 +-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/mat/mat.go b/mat/mat.go
index 4225938..d81e6fa 100644
--- a/mat/mat.go
+++ b/mat/mat.go
@@ -15,6 +15,18 @@ type DenseMat struct {
 	Rows   int
 }
 
+// isShape tells whether a matrix of `rows` by `cols` has `size` elements.
+// NOTE: `rows`*`cols` could overflow
+func isShape(size int, rows int, cols int) bool {
+	if rows < 0 || cols < 0 {
+		return false
+	}
+	if cols == 0 {
+		return size == 0
+	}
+	return size%cols == 0 && size/cols == rows
+}
+
 // DenseMatZero return DenseMat with shape `rows` by `cols` with all zero elements
 func DenseMatZero(rows int, cols int) DenseMat {
 	return DenseMat{
@@ -28,7 +40,7 @@ func DenseMatZero(rows int, cols int) DenseMat {
 // information `rows` and `cols`
 func DenseMatFromArray(values []float64, rows int, cols int) (DenseMat, error) {
 	mat := DenseMat{}
-	if len(values) != cols*rows {
+	if !isShape(len(values), rows, cols) {
 		return mat, fmt.Errorf("wrong dimensions")
 	}
 	mat.Values = append(mat.Values, values...)
@@ -56,7 +68,7 @@ func (m *CSRMat) Rows() int {
 // `rows` and `cols`. See also DenseMatFromArray to store dense data in matrix
 func CSRMatFromArray(values []float64, rows int, cols int) (CSRMat, error) {
 	mat := CSRMat{}
-	if len(values) != cols*rows {
+	if !isShape(len(values), rows, cols) {
 		return mat, fmt.Errorf("wrong dimensions")
 	}
 	mat.Values = append(mat.Values, values...)
diff --git a/mat/mat_io.go b/mat/mat_io.go
index 84e95c9..a10e7ab 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -248,7 +248,7 @@ func readFromCsv(reader *bufio.Reader,
 
 // WriteStr writes matrix to CSV like format with field delimiter `delimiter`
 func (m *DenseMat) WriteStr(writer io.Writer, delimiter string) error {
-	if m.Cols*m.Rows != len(m.Values) {
+	if !isShape(len(m.Values), m.Rows, m.Cols) {
 		return fmt.Errorf("matrix unconsistent")
 	}
 	if m.Cols == 0 || m.Rows == 0 {
-- 
2.43.0

