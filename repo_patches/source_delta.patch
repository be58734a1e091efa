From 75a26c27a3563b3bbf7ee96839578b9e35e72863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:49 +0000
Subject: [PATCH 01/43] fix: IterProduct rows shared memory, giving wrong
 products for repeat >= 4

---
 featselect/util.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/featselect/util.go b/featselect/util.go
index b6bf3b4..1f62dd5 100644
--- a/featselect/util.go
+++ b/featselect/util.go
@@ -49,7 +49,9 @@ func IterProduct(values []int, repeat int) [][]int {
 		updatedRes := make([][]int, 0)
 		for j := 0; j < nItems; j++ {
 			for i := 0; i < len(values); i++ {
-				newRow := append(res[j], values[i])
+				// The full slice expression forces append to copy, such that the
+				// rows do not share the same underlying array
+				newRow := append(res[j][:r:r], values[i])
 				updatedRes = append(updatedRes, newRow)
 			}
 		}
-- 
2.43.0


From c58b5d9dc38a41e3208b4c0b2053f432633b7c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:55 +0000
Subject: [PATCH 02/43] fix: WeightsFromAIC overwrote the AIC values passed by
 the caller

---
 featselect/util.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/featselect/util.go b/featselect/util.go
index 1f62dd5..52b8e6b 100644
--- a/featselect/util.go
+++ b/featselect/util.go
@@ -278,17 +278,14 @@ func WeightsFromAIC(aic []float64) []float64 {
 	w := make([]float64, len(aic))
 	min := MinFloat(aic)
 
-	for i := range aic {
-		aic[i] -= min
-	}
-
 	sumW := 0.0
 	for i := range aic {
-		sumW += math.Exp(-aic[i])
+		w[i] = math.Exp(-(aic[i] - min))
+		sumW += w[i]
 	}
 
-	for i := range aic {
-		w[i] = math.Exp(-aic[i]) / sumW
+	for i := range w {
+		w[i] /= sumW
 	}
 	return w
 }
-- 
2.43.0


From e903763750e708b6ef5a497a813aeb358b6c3a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:02 +0000
Subject: [PATCH 03/43] fix: CohenKappa returned NaN when both sets contain all
 features

---
 featselect/util.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/featselect/util.go b/featselect/util.go
index 52b8e6b..388fcbb 100644
--- a/featselect/util.go
+++ b/featselect/util.go
@@ -463,5 +463,10 @@ func CohenKappa(s1 []int, s2 []int, totNum int) float64 {
 
 	PrA := float64(n11+n22) / float64(totNum)
 	PrE := float64((n11+n12)*(n11+n21))/float64(totNum*totNum) + float64((n12+n22)*(n21+n22))/float64(totNum*totNum)
+
+	// Both sets contain all features, hence they agree completely
+	if n11 == totNum {
+		return 1.0
+	}
 	return (PrA - PrE) / (1. - PrE)
 }
-- 
2.43.0


From fc99f3712313a9521fe7092df3756586957e1aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:30 +0000
Subject: [PATCH 04/43] fix: SAScore kept the coefficients of the replaced item
 for the new selection

---
 featselect/saScore.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featselect/saScore.go b/featselect/saScore.go
index f5a345a..7ca7602 100644
--- a/featselect/saScore.go
+++ b/featselect/saScore.go
@@ -65,6 +65,7 @@ func (s *SAScore) Insert(item *SAItem) {
 	} else {
 		if item.Score > s.WorstItem.Score {
 			s.WorstItem.Selection = item.Selection
+			s.WorstItem.Coeff = item.Coeff
 			s.WorstItem.Score = item.Score
 
 			if item.Score > s.BestItem.Score {
-- 
2.43.0


From 3c000303e336a3c0153f7e29eaa91c8c7554809f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:37 +0000
Subject: [PATCH 05/43] fix: MorsePenroseCD.C kept tiny singular values instead
 of zeroing them

---
 featselect/lasso_cd.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featselect/lasso_cd.go b/featselect/lasso_cd.go
index 4a777fe..f17f129 100644
--- a/featselect/lasso_cd.go
+++ b/featselect/lasso_cd.go
@@ -46,6 +46,8 @@ func (m *MorsePenroseCD) C(y mat.Vector) *mat.VecDense {
 	for i := 0; i < len(s); i++ {
 		if s[i]*s[i] > 1e-6 {
 			s[i] = 1.0 / s[i]
+		} else {
+			s[i] = 0.0
 		}
 	}
 
-- 
2.43.0


From 755c082958ae2b990be959f33a534f9e247add11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:43 +0000
Subject: [PATCH 06/43] fix: Gcv did not square the leverage term of the
 leave-one-out residual

---
 featselect/fit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/fit.go b/featselect/fit.go
index a32a915..721bfed 100644
--- a/featselect/fit.go
+++ b/featselect/fit.go
@@ -102,7 +102,7 @@ func DenumMatrixGcv(X mat.Matrix) *mat.Dense {
 func Gcv(denum mat.Matrix, data []float64, pred []float64) float64 {
 	gcv := 0.0
 	for i := 0; i < len(data); i++ {
-		gcv += math.Pow(data[i]-pred[i], 2.0) / (1.0 - denum.At(i, i))
+		gcv += math.Pow((data[i]-pred[i])/(1.0-denum.At(i, i)), 2.0)
 	}
 	return math.Sqrt(gcv / float64(len(pred)))
 }
-- 
2.43.0


From d8487b4d187c1401977d3b04a4de90ea838aec0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:50 +0000
Subject: [PATCH 07/43] fix: Dataset.IsEqual ignored the feature names

---
 featselect/csvIO.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/featselect/csvIO.go b/featselect/csvIO.go
index 045718b..13472ba 100644
--- a/featselect/csvIO.go
+++ b/featselect/csvIO.go
@@ -79,6 +79,12 @@ func (d *Dataset) IsEqual(o *Dataset) bool {
 		return false
 	}
 
+	for i := range d.Names {
+		if d.Names[i] != o.Names[i] {
+			return false
+		}
+	}
+
 	tol := 1e-10
 	if !floats.EqualApprox(d.Y, o.Y, tol) {
 		return false
-- 
2.43.0


From e01c8b0214a2a3adb7f1f4e1c91b930bf5cdd142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:56 +0000
Subject: [PATCH 08/43] fix: ParseCSV read values with surrounding spaces (as
 in the README) as zero

---
 featselect/csvIO.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featselect/csvIO.go b/featselect/csvIO.go
index 13472ba..748dc76 100644
--- a/featselect/csvIO.go
+++ b/featselect/csvIO.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"os"
 	"strconv"
+	"strings"
 
 	"gonum.org/v1/gonum/floats"
 
@@ -141,7 +142,7 @@ func ParseCSV(handle io.Reader, targetCol int) *Dataset {
 		} else {
 			row := make([]float64, len(line))
 			for i, v := range line {
-				if fl, err := strconv.ParseFloat(v, 64); err == nil {
+				if fl, err := strconv.ParseFloat(strings.TrimSpace(v), 64); err == nil {
 					row[i] = fl
 				}
 			}
-- 
2.43.0


From d9a44ccb7efe5eae643342e8262cdb23c8eb06bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:02 +0000
Subject: [PATCH 09/43] fix: PlotPath left out the feature with the highest
 index

---
 featselect/lassoPlot.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/lassoPlot.go b/featselect/lassoPlot.go
index 392d13d..0776af8 100644
--- a/featselect/lassoPlot.go
+++ b/featselect/lassoPlot.go
@@ -224,7 +224,7 @@ func (p *LassoLarsPath) PlotPath(cr *AxisRange) *plot.Plot {
 
 	_, numFeat := p.MaxMinFeatNo()
 
-	for featNo := 0; featNo < numFeat; featNo++ {
+	for featNo := 0; featNo <= numFeat; featNo++ {
 		xy := p.ExtractPath(featNo)
 		line, err := plotter.NewLine(xy)
 
-- 
2.43.0


From 7229c51d8cf0c6285cfc47cb38bf317e12a89853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 10/43] fix: goselect-plotlasso ignored the coefficient range
 given on the command line

---
 cmdDepreciated/goselect-plotlasso/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmdDepreciated/goselect-plotlasso/main.go b/cmdDepreciated/goselect-plotlasso/main.go
index d247c65..fb570be 100644
--- a/cmdDepreciated/goselect-plotlasso/main.go
+++ b/cmdDepreciated/goselect-plotlasso/main.go
@@ -41,6 +41,8 @@ func main() {
 	lassoPathCoeffMin := flag.Float64("coeffmin", 0.0, "Minumum coefficient value in plot")
 	lassoPathCoeffMax := flag.Float64("coeffmax", 0.0, "Maximum coefficient value in plot. If equal to the minimum value, the range is autoscaled")
 
+	flag.Parse()
+
 	coeffMin := *lassoPathCoeffMin
 	coeffMax := *lassoPathCoeffMax
 	var coeffRng featselect.AxisRange
@@ -53,6 +55,5 @@ func main() {
 		coeffRngPtr = nil
 	}
 
-	flag.Parse()
 	analyseLasso(*lassoPathJSON, *lassoPathOutPrefix, *lassoPathType, coeffRngPtr)
 }
-- 
2.43.0


From c3bd9002d9f78aa4ffcf76552894904c738ff6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 11/43] fix: NestedLasso selected wrong features when the
 target is not the last column

---
 featselect/nestedLasso.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/featselect/nestedLasso.go b/featselect/nestedLasso.go
index 9796d10..ae55813 100644
--- a/featselect/nestedLasso.go
+++ b/featselect/nestedLasso.go
@@ -52,8 +52,12 @@ func NestedLasso(data *Dataset, lambMin float64, keep float64, estimator CDParam
 		survivors := path.PickMostRelevantFeatures(newNum)
 
 		// Map selection
+		featNames := make([]string, currentNumCoeff)
+		for i := range featNames {
+			featNames[i] = curDset.GetFeatName(i)
+		}
 		for _, v := range newPath {
-			v.Selection = MapSelectionByName(data, curDset.Names, v.Selection)
+			v.Selection = MapSelectionByName(data, featNames, v.Selection)
 		}
 
 		if newNum <= 2 {
-- 
2.43.0


From 4aab741350cce2e6de828d0d6dd5b713c75656bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:37 +0000
Subject: [PATCH 12/43] fix: NestedLasso normalized the dataset of the caller
 in place

---
 featselect/nestedLasso.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/featselect/nestedLasso.go b/featselect/nestedLasso.go
index ae55813..161602c 100644
--- a/featselect/nestedLasso.go
+++ b/featselect/nestedLasso.go
@@ -2,6 +2,8 @@ package featselect
 
 import (
 	"fmt"
+
+	"gonum.org/v1/gonum/mat"
 )
 
 // PureLassoLarsPathWithCrit is a type that holds all the nodes in addition to
@@ -70,7 +72,7 @@ func NestedLasso(data *Dataset, lambMin float64, keep float64, estimator CDParam
 	}
 
 	// Undo the normalisation of all paths before returning
-	normD = NewNormalizedData(data.X, data.Y)
+	normD = NewNormalizedData(mat.DenseCopyOf(data.X), yCpy)
 	for _, v := range res.Paths {
 		Path2Unnormalized(normD, v.Nodes)
 	}
-- 
2.43.0


From c6982a39ec72983eeedc45b2cadd480f502ef8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:43 +0000
Subject: [PATCH 13/43] fix: CalculateCohenSequence returned no parameters when
 no kappa is positive

---
 featselect/cohens_kappa.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featselect/cohens_kappa.go b/featselect/cohens_kappa.go
index 604498c..73c04ad 100644
--- a/featselect/cohens_kappa.go
+++ b/featselect/cohens_kappa.go
@@ -2,6 +2,7 @@ package featselect
 
 import (
 	"fmt"
+	"math"
 	"math/rand"
 
 	"gonum.org/v1/gonum/mat"
@@ -78,7 +79,7 @@ func CalculateCohenSequence(numSamples int, targets []CohensKappaTarget) map[str
 	}
 
 	numReceives := 0
-	bestKappa := 0.0
+	bestKappa := math.Inf(-1)
 	var bestHyper map[string]float64
 
 	allKappas := make([]float64, len(targets))
-- 
2.43.0


From dcfeca1283b70a7140015c2e4bb5740cce15db11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 14/43] fix: CalculateCohenSequence left its workers blocked
 forever

---
 featselect/cohens_kappa.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featselect/cohens_kappa.go b/featselect/cohens_kappa.go
index 73c04ad..25dee3f 100644
--- a/featselect/cohens_kappa.go
+++ b/featselect/cohens_kappa.go
@@ -109,6 +109,7 @@ func CalculateCohenSequence(numSamples int, targets []CohensKappaTarget) map[str
 			workChannel <- work
 		}
 	}
+	close(workChannel)
 
 	srt := Argsort(allKappas)
 	fmt.Printf("-------------------------------------------------------------------\n")
-- 
2.43.0


From 12ad58dec80e66a8611cfbea89b958241752dc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:55 +0000
Subject: [PATCH 15/43] fix: LassoCrdDescPath left its workers blocked forever

---
 featselect/lassoCrdDesc.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index 0cc2e5f..1fd04d8 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -245,6 +245,8 @@ func LassoCrdDescPath(dset *NormalizedData, cov CovMat, lambs []float64, maxIter
 		}
 	}
 
+	close(workChan)
+
 	firstModelWithFeatures := 0
 	for i := range nodes {
 		if len(nodes[i].Selection) > 0 {
-- 
2.43.0


From ad92059f6a3ef71492bbc1d0ebb59cc5daee49c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:16 +0000
Subject: [PATCH 16/43] fix: L2ConsistentCovTO left its workers blocked forever

---
 featselect/thresholdCov.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/featselect/thresholdCov.go b/featselect/thresholdCov.go
index dfb8288..819e5b5 100644
--- a/featselect/thresholdCov.go
+++ b/featselect/thresholdCov.go
@@ -109,7 +109,7 @@ func L2ConsistentCovTO(X mat.Matrix, numSamples int, maxThreshold float64, step
 				work.gr = 0
 				gridPt = 1
 			}
-			if gridPt <= numGrid {
+			if gridPt <= numGrid && numReceives < numSamples*numGrid {
 				workChannel <- work
 			}
 		case <-ticker:
@@ -117,6 +117,8 @@ func L2ConsistentCovTO(X mat.Matrix, numSamples int, maxThreshold float64, step
 		}
 	}
 
+	close(workChannel)
+
 	minIdx := Argmin(meanNormDiff)
 	var op ThresholdOperator
 	op.threshold = getThreshold(minIdx, step)
-- 
2.43.0


From 7ac4d53086eb554b0b282a136f05ff3e55c9184b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:22 +0000
Subject: [PATCH 17/43] fix: Highscore capacity depended on ties, and a list of
 one item panicked

---
 featselect/highscore.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/featselect/highscore.go b/featselect/highscore.go
index 7fbfed2..4a7f7bd 100644
--- a/featselect/highscore.go
+++ b/featselect/highscore.go
@@ -21,9 +21,15 @@ func NewHighscore(maxItems int) *Highscore {
 
 // Insert insters a new node into the highscore list
 func (h *Highscore) Insert(node *Node) {
-	if h.Len() == h.MaxItems-1 {
+	// One item is always kept, also when MaxItems is one
+	capacity := h.MaxItems - 1
+	if capacity < 1 {
+		capacity = 1
+	}
+
+	if h.Len() >= capacity {
 		last := h.Items.Back()
-		if last.Value.(*Node).Score > node.Score {
+		if last.Value.(*Node).Score >= node.Score {
 			return
 		}
 	}
@@ -36,14 +42,14 @@ func (h *Highscore) Insert(node *Node) {
 		if item.Value.(*Node).Score < node.Score {
 			h.Items.InsertBefore(node, item)
 			itemInserted = true
-			if h.Items.Len() >= h.MaxItems {
+			if h.Items.Len() > capacity {
 				h.Items.Remove(h.Items.Back())
 			}
 			break
 		}
 	}
 
-	if !itemInserted && h.Len() < h.MaxItems {
+	if !itemInserted {
 		h.Items.PushBack(node)
 	}
 }
-- 
2.43.0


From 98d78ca70ed04d62466913221a7d314919bd1177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:29 +0000
Subject: [PATCH 18/43] fix: Highscore.UnmarshalJSON panicked on a zero value
 and mixed old items with the new

---
 featselect/highscore.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featselect/highscore.go b/featselect/highscore.go
index 4a7f7bd..22462f2 100644
--- a/featselect/highscore.go
+++ b/featselect/highscore.go
@@ -108,6 +108,7 @@ func (h *Highscore) UnmarshalJSON(data []byte) error {
 		return err
 	}
 	h.MaxItems = aux.MaxItems
+	h.Items = list.New()
 
 	for _, n := range aux.Items {
 		h.Insert(n)
-- 
2.43.0


From 117b722705a09da143be849dca56cb3b214e17f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:00 +0000
Subject: [PATCH 19/43] fix: SelectModel gave infinite or noise-driven scores
 to models that fit exactly

---
 featselect/criteria.go | 4 ++--
 featselect/optimize.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/featselect/criteria.go b/featselect/criteria.go
index 50015ff..437ae32 100644
--- a/featselect/criteria.go
+++ b/featselect/criteria.go
@@ -49,7 +49,7 @@ func bounds(model []bool, start int, X mat.Matrix, y []float64, criteria crit) (
 	if kLcs > 0 {
 		XLcs := GetDesignMatrix(lcsMod, X)
 		coeffLcs := Fit(XLcs, y)
-		rssLcs = Rss(XLcs, coeffLcs, y)
+		rssLcs = math.Max(Rss(XLcs, coeffLcs, y), RssTol)
 	}
 
 	rssGcs := RssTol
@@ -57,7 +57,7 @@ func bounds(model []bool, start int, X mat.Matrix, y []float64, criteria crit) (
 	if kGcs < nr {
 		XGcs := GetDesignMatrix(gcsMod, X)
 		coeffGcs := Fit(XGcs, y)
-		rssGcs = Rss(XGcs, coeffGcs, y)
+		rssGcs = math.Max(Rss(XGcs, coeffGcs, y), RssTol)
 	}
 
 	lower := criteria(kLcs, len(y), rssGcs)
diff --git a/featselect/optimize.go b/featselect/optimize.go
index 14ce9d2..9731d41 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -223,7 +223,7 @@ func ScoreWorker(nodeCh <-chan *Node, scoreCh chan<- *Node, X mat.Matrix, y []fl
 		if numFeat > 0 && isNewNode(n) {
 			design := GetDesignMatrix(n.Model, X)
 			n.Coeff = Fit(design, y)
-			rss := Rss(design, n.Coeff, y)
+			rss := math.Max(Rss(design, n.Coeff, y), RssTol)
 			n.Score = -Aicc(numFeat, nrows, rss)
 		} else {
 			n.Score = -math.MaxFloat64
-- 
2.43.0


From db56235d946e630a1d701c229c24a6601f9601a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:07 +0000
Subject: [PATCH 20/43] fix: SelectModel never scored the root model and listed
 the empty model

---
 featselect/optimize.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index 9731d41..7dce2e2 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -111,8 +111,11 @@ func SelectModel(X mat.Matrix, y []float64, highscore *Highscore, sp *SearchProg
 		go CreateChildNodes(wantChildNode, pruneCh, node, childReady, X, y, params.Cutoff, highscore)
 	}
 
-	wantChildNode <- rootNode
-	numInProgress := 2
+	// The root model is scored as any other model. Its children are created
+	// when the child worker, which is started with nil, asks for a new node
+	node <- rootNode
+	wantChildNode <- nil
+	numInProgress := 1
 
 exploreLoop:
 	for {
@@ -121,7 +124,7 @@ exploreLoop:
 			numInProgress--
 			sp.Set(highscore.BestScore(), numChecked, log2Pruned)
 
-			if isNewNode(ns) {
+			if isNewNode(ns) && NumFeatures(ns.Model) > 0 {
 				highscore.Insert(ns)
 				numChecked++
 
-- 
2.43.0


From 330c30ce3c855a6e1cacfa4b91675a3bda9d6a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:30 +0000
Subject: [PATCH 21/43] fix: SelectModel discarded sub-models when the root
 model made a branch exceed the number of data points

---
 featselect/optimize.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index 7dce2e2..79a2791 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -124,7 +124,7 @@ exploreLoop:
 			numInProgress--
 			sp.Set(highscore.BestScore(), numChecked, log2Pruned)
 
-			if isNewNode(ns) && NumFeatures(ns.Model) > 0 {
+			if isNewNode(ns) && isScorable(ns, X) {
 				highscore.Insert(ns)
 				numChecked++
 
@@ -217,13 +217,21 @@ func isNewNode(node *Node) bool {
 	return node.WasFlipped
 }
 
+// isScorable returns true if the model has at least one feature and fewer features
+// than there are data points
+func isScorable(node *Node, X mat.Matrix) bool {
+	nrows, _ := X.Dims()
+	numFeat := NumFeatures(node.Model)
+	return numFeat > 0 && numFeat < nrows
+}
+
 // ScoreWorker is a function that calculates the score of a node
 func ScoreWorker(nodeCh <-chan *Node, scoreCh chan<- *Node, X mat.Matrix, y []float64) {
 	nrows, _ := X.Dims()
 	for n := range nodeCh {
 		numFeat := NumFeatures(n.Model)
 
-		if numFeat > 0 && isNewNode(n) {
+		if isScorable(n, X) && isNewNode(n) {
 			design := GetDesignMatrix(n.Model, X)
 			n.Coeff = Fit(design, y)
 			rss := math.Max(Rss(design, n.Coeff, y), RssTol)
@@ -239,10 +247,12 @@ func ScoreWorker(nodeCh <-chan *Node, scoreCh chan<- *Node, X mat.Matrix, y []fl
 // is lower than the current best score
 func CreateChild(node *Node, flip bool, X mat.Matrix, y []float64, cutoff float64, h *Highscore) *Node {
 	child := node.GetChildNode(flip)
-	n := NumFeatures(child.Model)
 	nrows, _ := X.Dims()
-	if n < nrows {
-		if n > 0 {
+
+	// All sub-models contain the features of the least common model, but features
+	// at higher levels (inherited from the root model) can still be removed
+	if NumFeatures(Lcs(child.Model, child.Level)) < nrows {
+		if NumFeatures(child.Model) > 0 {
 			child.Lower, child.Upper = BoundsAICC(child.Model, child.Level, X, y)
 		} else {
 			child.Lower = -1e100
-- 
2.43.0


From b1a71c1614d56c78e054825f33223bcf65057060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 22/43] fix: Highscore was accessed by SelectModel's goroutines
 and its caller without synchronization

---
 featselect/highscore.go | 24 ++++++++++++++++++++----
 featselect/optimize.go  |  4 +++-
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/featselect/highscore.go b/featselect/highscore.go
index 22462f2..33267c9 100644
--- a/featselect/highscore.go
+++ b/featselect/highscore.go
@@ -3,12 +3,15 @@ package featselect
 import (
 	"container/list"
 	"encoding/json"
+	"sync"
 )
 
-// Highscore is a structure that holds a list of Nodes sorted by their score
+// Highscore is a structure that holds a list of Nodes sorted by their score. Its
+// methods can be called from several goroutines
 type Highscore struct {
 	Items    *list.List
 	MaxItems int
+	rwlock   sync.RWMutex
 }
 
 // NewHighscore creates a new highscore list with maxItems entries
@@ -21,13 +24,16 @@ func NewHighscore(maxItems int) *Highscore {
 
 // Insert insters a new node into the highscore list
 func (h *Highscore) Insert(node *Node) {
+	h.rwlock.Lock()
+	defer h.rwlock.Unlock()
+
 	// One item is always kept, also when MaxItems is one
 	capacity := h.MaxItems - 1
 	if capacity < 1 {
 		capacity = 1
 	}
 
-	if h.Len() >= capacity {
+	if h.Items.Len() >= capacity {
 		last := h.Items.Back()
 		if last.Value.(*Node).Score >= node.Score {
 			return
@@ -56,11 +62,15 @@ func (h *Highscore) Insert(node *Node) {
 
 // Len returns the number of items in the highscore list
 func (h *Highscore) Len() int {
+	h.rwlock.RLock()
+	defer h.rwlock.RUnlock()
 	return h.Items.Len()
 }
 
 // BestScore returns the best score
 func (h *Highscore) BestScore() float64 {
+	h.rwlock.RLock()
+	defer h.rwlock.RUnlock()
 	front := h.Items.Front()
 
 	if front == nil {
@@ -71,7 +81,9 @@ func (h *Highscore) BestScore() float64 {
 
 // Scores returns all the scores in the highscore list
 func (h *Highscore) Scores() []float64 {
-	scores := make([]float64, h.Len())
+	h.rwlock.RLock()
+	defer h.rwlock.RUnlock()
+	scores := make([]float64, h.Items.Len())
 	i := 0
 	for item := h.Items.Front(); item != nil; item = item.Next() {
 		scores[i] = item.Value.(*Node).Score
@@ -82,7 +94,9 @@ func (h *Highscore) Scores() []float64 {
 
 // MarshalJSON creates a JSON representation of the highscore list
 func (h *Highscore) MarshalJSON() ([]byte, error) {
-	data := make([]*Node, h.Len())
+	h.rwlock.RLock()
+	defer h.rwlock.RUnlock()
+	data := make([]*Node, h.Items.Len())
 	counter := 0
 	for e := h.Items.Front(); e != nil; e = e.Next() {
 		data[counter] = e.Value.(*Node)
@@ -107,8 +121,10 @@ func (h *Highscore) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &aux); err != nil {
 		return err
 	}
+	h.rwlock.Lock()
 	h.MaxItems = aux.MaxItems
 	h.Items = list.New()
+	h.rwlock.Unlock()
 
 	for _, n := range aux.Items {
 		h.Insert(n)
diff --git a/featselect/optimize.go b/featselect/optimize.go
index 79a2791..db9aec9 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -262,7 +262,9 @@ func CreateChild(node *Node, flip bool, X mat.Matrix, y []float64, cutoff float6
 		return nil
 	}
 
-	if child.Lower > -h.BestScore() && h.Len() > 0 {
+	// An empty highscore list has no best score. Other goroutines can insert in the
+	// meantime, so the length has to be checked first
+	if h.Len() > 0 && child.Lower > -h.BestScore() {
 		return nil
 	}
 	return child
-- 
2.43.0


From 0157a839f62b8c7d98ea9b9da4dc71e4062c897c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:14 +0000
Subject: [PATCH 23/43] fix: SelectModel left a child worker blocked forever

---
 featselect/optimize.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index db9aec9..01ac903 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -167,6 +167,8 @@ exploreLoop:
 			wantChildNode <- node
 		}
 	}
+	// The child worker always asks for a new node when it is done with the last
+	<-childReady
 	close(node)
 	close(wantChildNode)
 	close(pruneCh)
-- 
2.43.0


From bcb6997cfd5921b62b9c44cee34c6d78cd10db9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:20 +0000
Subject: [PATCH 24/43] fix: SelectModel reported progress from before the last
 model was scored

---
 featselect/optimize.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index 01ac903..ae3f323 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -122,7 +122,6 @@ exploreLoop:
 		select {
 		case ns := <-score:
 			numInProgress--
-			sp.Set(highscore.BestScore(), numChecked, log2Pruned)
 
 			if isNewNode(ns) && isScorable(ns, X) {
 				highscore.Insert(ns)
@@ -133,6 +132,7 @@ exploreLoop:
 					CleanQueue(queue, -currentBestScore)
 				}
 			}
+			sp.Set(highscore.BestScore(), numChecked, log2Pruned)
 
 			if ns.Level < ncols {
 				queue.PushBack(ns)
@@ -150,6 +150,7 @@ exploreLoop:
 
 		case prLevel := <-pruneCh:
 			log2Pruned = NewLog2Pruned(log2Pruned, ncols-prLevel)
+			sp.Set(highscore.BestScore(), numChecked, log2Pruned)
 			numInProgress--
 			if numInProgress <= 0 && queue.Len() == 0 {
 				break exploreLoop
-- 
2.43.0


From 58a5381c412bed028f116086f29005147a9c1eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:26 +0000
Subject: [PATCH 25/43] fix: SelectModel wrote a root model into the caller's
 parameters, so they could not be reused

---
 featselect/optimize.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index ae3f323..df5adab 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -81,15 +81,16 @@ func SelectModel(X mat.Matrix, y []float64, highscore *Highscore, sp *SearchProg
 		panic("SelectModel: The number of features has to be larger or equal to 3.")
 	}
 
-	if params.RootModel == nil {
-		params.RootModel = make([]bool, ncols)
+	rootModel := params.RootModel
+	if rootModel == nil {
+		rootModel = make([]bool, ncols)
 	} else {
-		if len(params.RootModel) != ncols {
+		if len(rootModel) != ncols {
 			panic("SelectModel: Inconsistent length of rootModel.")
 		}
 	}
 
-	rootNode := NewNode(0, params.RootModel)
+	rootNode := NewNode(0, rootModel)
 
 	log2Pruned := 0.0
 	numChecked := 0
-- 
2.43.0


From e44b831247ffaaa725cb6594fe4c99d69c001419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:49 +0000
Subject: [PATCH 26/43] fix: LassoCrdDesc zeroed the caller's start vector
 instead of starting from it

---
 featselect/lassoCrdDesc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index 1fd04d8..adbaa09 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -32,7 +32,7 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 	}
 
 	betaOld := make([]float64, nFeat)
-	copy(x0, betaOld)
+	copy(betaOld, x0)
 	beta := make([]float64, nFeat)
 	covDotBeta := MulSlice(covMat, betaOld)
 	converged := false
-- 
2.43.0


From ab1e0dea8f9e67186b9159e66410a3b85528884b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:55 +0000
Subject: [PATCH 27/43] fix: LassoCrdDesc never converged when all coefficients
 are zero

---
 featselect/lassoCrdDesc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index adbaa09..6a6634d 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -62,7 +62,7 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 			}
 		}
 
-		converged = maxChange/maxCoeff < tol
+		converged = maxChange <= tol*maxCoeff
 
 		numActive := 0
 		for _, j := range iterIndices {
-- 
2.43.0


From 556581adc8749a07203d9eaabdda110eb2a306d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:01 +0000
Subject: [PATCH 28/43] fix: LassoCrdDesc never reconsidered features that were
 zero after the first sweep

---
 featselect/lassoCrdDesc.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index 6a6634d..32d34ab 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -9,6 +9,10 @@ import (
 
 const lassoCrdDescZero = 1e-16
 
+// lassoKKTTol is how much a condition has to be violated before a feature that is zero
+// is taken into account again
+const lassoKKTTol = 1e-10
+
 // CorrectableLasso is a function that implements the lasso method with corrections
 type CorrectableLasso = func(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64, maxIter int, tol float64, corr LassoCorrection) []float64
 
@@ -25,6 +29,7 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 	yVec := mat.NewVecDense(len(dset.y), dset.y)
 	XTy := mat.NewVecDense(nFeat, nil)
 	XTy.MulVec(dset.X.T(), yVec)
+	XTy.ScaleVec(1.0/float64(nr), XTy)
 
 	iterIndices := make([]int, nFeat-1)
 	for i := 1; i < nFeat; i++ {
@@ -41,7 +46,7 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 			covDiag := covMat.At(j, j)
 			oldCoeff := betaOld[j]
 			covDotBetaNoDiag := covDotBeta[j] - betaOld[j]*covDiag
-			newCoeff := XTy.AtVec(j)/float64(nr) - covDotBetaNoDiag - corr.Deriv(betaOld, j)
+			newCoeff := XTy.AtVec(j) - covDotBetaNoDiag - corr.Deriv(betaOld, j)
 			newCoeff = SoftThreshold(newCoeff, lamb) / covDiag
 
 			UpdateCovDotBeta(covMat, covDotBeta, j, oldCoeff, newCoeff)
@@ -101,13 +106,13 @@ func SoftThreshold(x float64, threshold float64) float64 {
 	return 0.0
 }
 
-// UnsatisfiedKKTConditions returns the indices where KKT conditions are not met
+// UnsatisfiedKKTConditions returns the indices of the features with zero coefficient where
+// the KKT conditions are not met. Xy is the product X^Ty divided by the number of data points
 func UnsatisfiedKKTConditions(Xy mat.Vector, covDotBeta []float64, coeff []float64, lamb float64, correction LassoCorrection) []int {
 	unsatisfied := []int{}
-	nr := Xy.Len()
 	for i := 1; i < len(covDotBeta); i++ {
-		value := math.Abs(Xy.AtVec(i) - covDotBeta[i]*float64(nr) - correction.Deriv(coeff, i))
-		if value < lamb && math.Abs(coeff[i]) > lassoCrdDescZero {
+		value := math.Abs(Xy.AtVec(i) - covDotBeta[i] - correction.Deriv(coeff, i))
+		if value > lamb+lassoKKTTol && math.Abs(coeff[i]) <= lassoCrdDescZero {
 			unsatisfied = append(unsatisfied, i)
 		}
 	}
-- 
2.43.0


From 3ca2f10a1104581203074efbc70667a8b668667c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:22 +0000
Subject: [PATCH 29/43] fix: LassoCrdDesc never selected the first feature of a
 dataset without bias column

---
 featselect/lassoCrdDesc.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index 32d34ab..5f1b859 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -31,9 +31,15 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 	XTy.MulVec(dset.X.T(), yVec)
 	XTy.ScaleVec(1.0/float64(nr), XTy)
 
-	iterIndices := make([]int, nFeat-1)
-	for i := 1; i < nFeat; i++ {
-		iterIndices[i-1] = i
+	// The first feature is left out only if it is the constant bias term
+	firstFeat := 0
+	if dset.HasBias {
+		firstFeat = 1
+	}
+
+	iterIndices := make([]int, nFeat-firstFeat)
+	for i := range iterIndices {
+		iterIndices[i] = i + firstFeat
 	}
 
 	betaOld := make([]float64, nFeat)
@@ -110,7 +116,7 @@ func SoftThreshold(x float64, threshold float64) float64 {
 // the KKT conditions are not met. Xy is the product X^Ty divided by the number of data points
 func UnsatisfiedKKTConditions(Xy mat.Vector, covDotBeta []float64, coeff []float64, lamb float64, correction LassoCorrection) []int {
 	unsatisfied := []int{}
-	for i := 1; i < len(covDotBeta); i++ {
+	for i := 0; i < len(covDotBeta); i++ {
 		value := math.Abs(Xy.AtVec(i) - covDotBeta[i] - correction.Deriv(coeff, i))
 		if value > lamb+lassoKKTTol && math.Abs(coeff[i]) <= lassoCrdDescZero {
 			unsatisfied = append(unsatisfied, i)
-- 
2.43.0


From cb2c86ec2a927eea6d7c4cdbb167dfd9db2ce009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:12 +0000
Subject: [PATCH 30/43] fix: LassoCrdDesc gave the bias column a coefficient
 when the start vector has one

---
 featselect/lassoCrdDesc.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index 5f1b859..f2433ec 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -44,6 +44,10 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 
 	betaOld := make([]float64, nFeat)
 	copy(betaOld, x0)
+	if dset.HasBias {
+		// The bias term is never updated, thus it can not start with a value
+		betaOld[0] = 0.0
+	}
 	beta := make([]float64, nFeat)
 	covDotBeta := MulSlice(covMat, betaOld)
 	converged := false
-- 
2.43.0


From 799eaa658d800723c59cd4e357f0938ef72db788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:21 +0000
Subject: [PATCH 31/43] fix: MaxInt, MinInt and MinFloat return the extreme
 element for any values

They started from the limits of 32-bit integers (the largest finite float), so
elements beyond them were never returned.
---
 featselect/util.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/featselect/util.go b/featselect/util.go
index 388fcbb..3bcbcfb 100644
--- a/featselect/util.go
+++ b/featselect/util.go
@@ -193,8 +193,8 @@ func ExistInt(a []int, value int) bool {
 func MaxInt(a []int) int {
 	max := math.MinInt32
 
-	for _, v := range a {
-		if v > max {
+	for i, v := range a {
+		if i == 0 || v > max {
 			max = v
 		}
 	}
@@ -205,8 +205,8 @@ func MaxInt(a []int) int {
 func MinInt(a []int) int {
 	min := math.MaxInt32
 
-	for _, v := range a {
-		if v < min {
+	for i, v := range a {
+		if i == 0 || v < min {
 			min = v
 		}
 	}
@@ -217,8 +217,8 @@ func MinInt(a []int) int {
 func MinFloat(a []float64) float64 {
 	min := math.MaxFloat64
 
-	for _, v := range a {
-		if v < min {
+	for i, v := range a {
+		if i == 0 || v < min {
 			min = v
 		}
 	}
-- 
2.43.0


From ceabd314b6fe2bf500b0460364c52df60861d797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:26 +0000
Subject: [PATCH 32/43] fix: Omp ignores columns that consist of zeros

The correlation of such a column with the residuals was NaN. When it was the
first column, Argmax always returned it and no other feature was selected.
---
 featselect/orthogonalMatchingPursuit.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/featselect/orthogonalMatchingPursuit.go b/featselect/orthogonalMatchingPursuit.go
index 908bb95..dfc2d23 100644
--- a/featselect/orthogonalMatchingPursuit.go
+++ b/featselect/orthogonalMatchingPursuit.go
@@ -51,7 +51,10 @@ func Omp(X mat.Matrix, y []float64, tol float64) *OmpResult {
 		resNorm := mat.Norm(residuals, 2)
 		proj.MulVec(X.T(), residuals)
 		for i := 0; i < proj.Len(); i++ {
-			proj.SetVec(i, math.Abs(proj.AtVec(i)/(resNorm*norms.AtVec(i))))
+			// A column with only zeros does not correlate with the residuals
+			if norms.AtVec(i) > 0.0 {
+				proj.SetVec(i, math.Abs(proj.AtVec(i)/(resNorm*norms.AtVec(i))))
+			}
 		}
 
 		imax := Argmax(proj.RawVector().Data)
-- 
2.43.0


From 7c9e239dd7cdcb2a8d3440329eecfc8812c4d5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:53 +0000
Subject: [PATCH 33/43] fix: GetCriteria and PlotDeviations panicked for a path
 node without features

---
 featselect/lassoPlot.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/featselect/lassoPlot.go b/featselect/lassoPlot.go
index 0776af8..34f12ad 100644
--- a/featselect/lassoPlot.go
+++ b/featselect/lassoPlot.go
@@ -9,6 +9,7 @@ import (
 
 	"image/color"
 
+	"gonum.org/v1/gonum/floats"
 	"gonum.org/v1/plot"
 	"gonum.org/v1/plot/plotter"
 	"gonum.org/v1/plot/vg"
@@ -125,14 +126,22 @@ func (p *LassoLarsPath) GetCriteria(criteria crit) []float64 {
 
 	for i, n := range p.LassoLarsNodes {
 		model := Selected2Model(n.Selection, nFeat)
-		design := GetDesignMatrix(model, p.Dset.X)
-		rss := Rss(design, n.Coeff, p.Dset.Y)
-		num := NumFeatures(model)
-		values[i] = criteria(num, nData, rss)
+		values[i] = criteria(NumFeatures(model), nData, p.rss(n))
 	}
 	return values
 }
 
+// rss returns the residual sum of squares of a node. The prediction of a node
+// without features is zero.
+func (p *LassoLarsPath) rss(n *LassoLarsNode) float64 {
+	if len(n.Selection) == 0 {
+		return floats.Dot(p.Dset.Y, p.Dset.Y)
+	}
+	_, nFeat := p.Dset.X.Dims()
+	design := GetDesignMatrix(Selected2Model(n.Selection, nFeat), p.Dset.X)
+	return Rss(design, n.Coeff, p.Dset.Y)
+}
+
 // PlotQualityScores plot the AICC value of the path
 func (p *LassoLarsPath) PlotQualityScores() *plot.Plot {
 	plt, err := plot.New()
@@ -166,13 +175,10 @@ func (p *LassoLarsPath) PlotDeviations() *plot.Plot {
 		panic(err)
 	}
 
-	nData, nFeat := p.Dset.X.Dims()
+	nData, _ := p.Dset.X.Dims()
 	rmseVals := make(plotter.XYs, len(p.LassoLarsNodes))
 	for i, n := range p.LassoLarsNodes {
-		model := Selected2Model(n.Selection, nFeat)
-		design := GetDesignMatrix(model, p.Dset.X)
-		rss := Rss(design, n.Coeff, p.Dset.Y)
-		rmse := math.Sqrt(rss / float64(nData))
+		rmse := math.Sqrt(p.rss(n) / float64(nData))
 		rmseVals[i] = plotter.XY{X: math.Log10(n.Lamb), Y: math.Log10(rmse)}
 	}
 
-- 
2.43.0


From 70f51afe103f3d2bdeb18351c68c21ede4f6f3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:53 +0000
Subject: [PATCH 34/43] fix: the commands reported success when their output
 could not be written

---
 cmd/bnb.go                                  | 17 ++++++++++++-----
 cmd/lasso.go                                |  5 ++++-
 cmd/sasearch.go                             |  9 +++++++--
 cmdDepreciated/goselect-nestedlasso/main.go |  5 ++++-
 cmdDepreciated/goselect-plotlasso/main.go   | 17 +++++++++++++----
 5 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/cmd/bnb.go b/cmd/bnb.go
index 74bd5d9..ad2f8b8 100644
--- a/cmd/bnb.go
+++ b/cmd/bnb.go
@@ -63,12 +63,15 @@ func init() {
 	bnbCmd.Flags().Int("maxqueue", 10000000, "Maximum size of the queue. If this limit is reached, subtrees will be removed. If you run out of memory, this number should be lowered.")
 }
 
-func saveHighscoreList(fname string, h *featselect.Highscore) {
+func saveHighscoreList(fname string, h *featselect.Highscore) error {
 	file, _ := os.Open(fname)
 	defer file.Close()
 
-	highscoreJSON, _ := json.Marshal(h)
-	ioutil.WriteFile(fname, highscoreJSON, 0644)
+	highscoreJSON, err := json.Marshal(h)
+	if err != nil {
+		return err
+	}
+	return ioutil.WriteFile(fname, highscoreJSON, 0644)
 }
 
 func setSearchFinished(finished chan int) {
@@ -114,12 +117,16 @@ timeloop:
 		case <-c:
 			score, numChecked, log2Pruned := progress.Get()
 			fmt.Printf("%v: Score: %f, Num. checked: %d, Log2 pruned: %f\n", time.Now().Format(time.RFC3339), score, numChecked, log2Pruned)
-			saveHighscoreList(outfile, highscore)
+			if err := saveHighscoreList(outfile, highscore); err != nil {
+				log.Print(err)
+			}
 		case <-searchFinished:
 			break timeloop
 		}
 	}
-	saveHighscoreList(outfile, highscore)
+	if err := saveHighscoreList(outfile, highscore); err != nil {
+		log.Fatal(err)
+	}
 	wg.Wait()
 	fmt.Printf("Selection finished\n")
 }
diff --git a/cmd/lasso.go b/cmd/lasso.go
index d4eabc1..54ad9c5 100644
--- a/cmd/lasso.go
+++ b/cmd/lasso.go
@@ -19,6 +19,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io/ioutil"
+	"log"
 	"os"
 
 	"github.com/davidkleiven/goselect/featselect"
@@ -118,6 +119,8 @@ func lassoFit(csvfile string, targetCol int, out string, lambMin float64, lambMa
 	file, _ := os.Create(out)
 	defer file.Close()
 
-	ioutil.WriteFile(out, js, 0644)
+	if err := ioutil.WriteFile(out, js, 0644); err != nil {
+		log.Fatal(err)
+	}
 	fmt.Printf("LASSO-LARS results written to %s\n", out)
 }
diff --git a/cmd/sasearch.go b/cmd/sasearch.go
index dd2549e..210bfe8 100644
--- a/cmd/sasearch.go
+++ b/cmd/sasearch.go
@@ -69,8 +69,13 @@ func saSearch(csvfile string, targetCol int, out string, sweeps int) {
 	file, _ := os.Open(out)
 	defer file.Close()
 
-	highscoreJSON, _ := json.Marshal(res.Scores)
-	ioutil.WriteFile(out, highscoreJSON, 0644)
+	highscoreJSON, err := json.Marshal(res.Scores)
+	if err != nil {
+		log.Fatal(err)
+	}
+	if err := ioutil.WriteFile(out, highscoreJSON, 0644); err != nil {
+		log.Fatal(err)
+	}
 
 	fmt.Printf("SA highscore list written to %s", out)
 }
diff --git a/cmdDepreciated/goselect-nestedlasso/main.go b/cmdDepreciated/goselect-nestedlasso/main.go
index 46df44b..38f785f 100644
--- a/cmdDepreciated/goselect-nestedlasso/main.go
+++ b/cmdDepreciated/goselect-nestedlasso/main.go
@@ -5,6 +5,7 @@ import (
 	"flag"
 	"fmt"
 	"io/ioutil"
+	"log"
 
 	"github.com/davidkleiven/goselect/featselect"
 )
@@ -20,7 +21,9 @@ func nestedLasso(csvfile string, targetCol int, out string, lambMin float64, kee
 		return
 	}
 
-	ioutil.WriteFile(out, js, 0644)
+	if err := ioutil.WriteFile(out, js, 0644); err != nil {
+		log.Fatal(err)
+	}
 	fmt.Printf("Nested LASSO-LARS results written to %s\n", out)
 }
 
diff --git a/cmdDepreciated/goselect-plotlasso/main.go b/cmdDepreciated/goselect-plotlasso/main.go
index fb570be..3dfb72a 100644
--- a/cmdDepreciated/goselect-plotlasso/main.go
+++ b/cmdDepreciated/goselect-plotlasso/main.go
@@ -3,6 +3,7 @@ package main
 import (
 	"flag"
 	"fmt"
+	"log"
 	"math"
 
 	"github.com/davidkleiven/goselect/featselect"
@@ -15,22 +16,30 @@ func analyseLasso(jsonfile string, prefix string, ext string, coeffRng *featsele
 	fname := prefix + "_entrance." + ext
 	w := 4 * vg.Inch
 	h := 4 * vg.Inch
-	entrance.Save(w, h, fname)
+	if err := entrance.Save(w, h, fname); err != nil {
+		log.Fatal(err)
+	}
 	fmt.Printf("Entrance times written to %s\n", fname)
 
 	quality := path.PlotQualityScores()
 	fname = prefix + "_quality." + ext
-	quality.Save(w, h, fname)
+	if err := quality.Save(w, h, fname); err != nil {
+		log.Fatal(err)
+	}
 	fmt.Printf("Quality score written to %s\n", fname)
 
 	dev := path.PlotDeviations()
 	fname = prefix + "_dev." + ext
-	dev.Save(w, h, fname)
+	if err := dev.Save(w, h, fname); err != nil {
+		log.Fatal(err)
+	}
 	fmt.Printf("Dev. score written to %s\n", fname)
 
 	coeff := path.PlotPath(coeffRng)
 	fname = prefix + "_path." + ext
-	coeff.Save(w, h, fname)
+	if err := coeff.Save(w, h, fname); err != nil {
+		log.Fatal(err)
+	}
 	fmt.Printf("LASSO-LARS path written to %s\n", fname)
 }
 
-- 
2.43.0


From bb1375ec2554a72dbfe88107ab9959745cdbfb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:40 +0000
Subject: [PATCH 35/43] fix: vectors whose lengths do not fit together are
 rejected

Gcv, PredictOne, FullCoeffVector, WeightedAveragedCoeff, NewNormalizedData and the
start vector of LassoCrdDesc were used as far as they reach, and SelectModel ended
the program from one of its goroutines.
---
 featselect/fit.go                | 7 +++++++
 featselect/lassoCrdDesc.go       | 2 ++
 featselect/normalized_dataset.go | 3 +++
 featselect/optimize.go           | 5 ++++-
 featselect/util.go               | 6 ++++++
 5 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/featselect/fit.go b/featselect/fit.go
index 721bfed..d24840f 100644
--- a/featselect/fit.go
+++ b/featselect/fit.go
@@ -50,6 +50,9 @@ func Fit(X mat.Matrix, y []float64) []float64 {
 
 // PredictOne predicts the value given a set of coefficients (coeff)
 func PredictOne(x []float64, coeff []float64) float64 {
+	if len(x) != len(coeff) {
+		panic("PredictOne: Inconsistent number of coefficients")
+	}
 	res := 0.0
 
 	for i := 0; i < len(x); i++ {
@@ -100,6 +103,10 @@ func DenumMatrixGcv(X mat.Matrix) *mat.Dense {
 
 // Gcv returns the generalized CV score
 func Gcv(denum mat.Matrix, data []float64, pred []float64) float64 {
+	nr, _ := denum.Dims()
+	if len(data) != nr || len(pred) != nr {
+		panic("Gcv: Inconsistent number of data points given")
+	}
 	gcv := 0.0
 	for i := 0; i < len(data); i++ {
 		gcv += math.Pow((data[i]-pred[i])/(1.0-denum.At(i, i)), 2.0)
diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index f2433ec..7262afa 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -21,6 +21,8 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 	nr, nFeat := dset.X.Dims()
 	if x0 == nil {
 		x0 = make([]float64, nFeat)
+	} else if len(x0) != nFeat {
+		panic("LassoCrdDesc: Inconsistent length of start vector")
 	}
 
 	covMat := cov.Get(dset.X)
diff --git a/featselect/normalized_dataset.go b/featselect/normalized_dataset.go
index 69de48c..4436f84 100644
--- a/featselect/normalized_dataset.go
+++ b/featselect/normalized_dataset.go
@@ -21,6 +21,9 @@ type NormalizedData struct {
 // NewNormalizedData initializes a new structure with normalised data
 // Note that both X and y will be altered by this method.
 func NewNormalizedData(X *mat.Dense, y []float64) *NormalizedData {
+	if nr, _ := X.Dims(); nr != len(y) {
+		panic("normdata: Inconsistent number of rows in design matrix")
+	}
 	var normD NormalizedData
 	normD.stdY = Std(y)
 	normD.muY = Mean(y)
diff --git a/featselect/optimize.go b/featselect/optimize.go
index df5adab..0abfac8 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -71,7 +71,10 @@ func NewSelectModelOptParams() *SelectModelOptParams {
 func SelectModel(X mat.Matrix, y []float64, highscore *Highscore, sp *SearchProgress, params *SelectModelOptParams) {
 	queue := list.New()
 
-	_, ncols := X.Dims()
+	nrows, ncols := X.Dims()
+	if nrows != len(y) {
+		panic("SelectModel: Inconsistent number of rows in design matrix")
+	}
 
 	if params == nil {
 		params = NewSelectModelOptParams()
diff --git a/featselect/util.go b/featselect/util.go
index 3bcbcfb..6498037 100644
--- a/featselect/util.go
+++ b/featselect/util.go
@@ -242,6 +242,9 @@ func EqualInt(a []int, b []int) bool {
 // FullCoeffVector creates a vector containing the coefficient for all features
 // features that are not selected will have a coefficient of zero
 func FullCoeffVector(numFeat int, selection []int, coeff []float64) []float64 {
+	if len(selection) != len(coeff) {
+		panic("FullCoeffVector: Inconsistent number of coefficients")
+	}
 	res := make([]float64, numFeat)
 	for i, v := range selection {
 		res[v] = coeff[i]
@@ -266,6 +269,9 @@ func WeightedAveragedCoeff(numFeat int, weights []float64, coeffs []SparseCoeff)
 	}
 
 	for i := range weights {
+		if len(coeffs[i].Selection) != len(coeffs[i].Coeff) {
+			panic("Inconsistent number of coefficients and selected features")
+		}
 		for j := range coeffs[i].Selection {
 			avg[coeffs[i].Selection[j]] += weights[i] * coeffs[i].Coeff[j]
 		}
-- 
2.43.0


From 773d8d56b8632c2ab1eeac11f61f4eb1137003ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:40 +0000
Subject: [PATCH 36/43] fix: LassoLarsPathFromBytes returned a path for data it
 could not decode

---
 featselect/lassoPlot.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/featselect/lassoPlot.go b/featselect/lassoPlot.go
index 34f12ad..9e5ccd5 100644
--- a/featselect/lassoPlot.go
+++ b/featselect/lassoPlot.go
@@ -38,7 +38,10 @@ func LassoLarsPathFromJSON(fname string) *LassoLarsPath {
 // LassoLarsPathFromBytes loads the lasso lars path from a bytes array
 func LassoLarsPathFromBytes(data []byte) *LassoLarsPath {
 	var lassoPath LassoLarsPath
-	json.Unmarshal(data, &lassoPath)
+	if err := json.Unmarshal(data, &lassoPath); err != nil {
+		fmt.Printf("%v\n", err)
+		panic("lassolarspathfrombytes: Error when decoding the path!")
+	}
 	return &lassoPath
 }
 
-- 
2.43.0


From 53999cee36562a8e695203454c4b6ae7ebc1ecbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:59 +0000
Subject: [PATCH 37/43] fix: nodes, lists and datasets were decoded from JSON
 whose values do not fit together

The object was changed before decoding panicked, a list took up an item without
content.
---
 featselect/csvIO.go     | 3 +++
 featselect/highscore.go | 6 ++++++
 featselect/node.go      | 9 +++++++++
 3 files changed, 18 insertions(+)

diff --git a/featselect/csvIO.go b/featselect/csvIO.go
index 748dc76..b7eda5a 100644
--- a/featselect/csvIO.go
+++ b/featselect/csvIO.go
@@ -240,6 +240,9 @@ func (dset *Dataset) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &jData); err != nil {
 		return err
 	}
+	if jData.Nr < 0 || jData.Nc < 0 || len(jData.X) != jData.Nr*jData.Nc || len(jData.Y) != jData.Nr {
+		return fmt.Errorf("dataset: Inconsistent number of values for %d rows and %d columns", jData.Nr, jData.Nc)
+	}
 
 	dset.Y = jData.Y
 	dset.Names = jData.Names
diff --git a/featselect/highscore.go b/featselect/highscore.go
index 33267c9..2111c06 100644
--- a/featselect/highscore.go
+++ b/featselect/highscore.go
@@ -3,6 +3,7 @@ package featselect
 import (
 	"container/list"
 	"encoding/json"
+	"errors"
 	"sync"
 )
 
@@ -121,6 +122,11 @@ func (h *Highscore) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &aux); err != nil {
 		return err
 	}
+	for _, n := range aux.Items {
+		if n == nil {
+			return errors.New("highscore: Item without content")
+		}
+	}
 	h.rwlock.Lock()
 	h.MaxItems = aux.MaxItems
 	h.Items = list.New()
diff --git a/featselect/node.go b/featselect/node.go
index 88cd17c..231c05c 100644
--- a/featselect/node.go
+++ b/featselect/node.go
@@ -2,6 +2,7 @@ package featselect
 
 import (
 	"encoding/json"
+	"fmt"
 	"math"
 
 	"gonum.org/v1/gonum/floats"
@@ -112,6 +113,14 @@ func (n *Node) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &aux); err != nil {
 		return err
 	}
+	if aux.TotNumFeatures < 0 {
+		return fmt.Errorf("node: Total number of features %d", aux.TotNumFeatures)
+	}
+	for _, v := range aux.Selected {
+		if v < 0 || v >= aux.TotNumFeatures {
+			return fmt.Errorf("node: Selected feature %d of %d", v, aux.TotNumFeatures)
+		}
+	}
 	n.Lower = aux.Lower
 	n.Upper = aux.Upper
 	n.Score = aux.Score
-- 
2.43.0


From 215eb7c45dfbbbeec75f58fcce63f701abe111d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:47 +0000
Subject: [PATCH 38/43] fix: SelectModel reported twice the number of pruned
 models

A pruned child has one undecided feature less than its parent, so the reported
number could exceed the number of models that exist.
---
 featselect/optimize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index 0abfac8..7112810 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -285,7 +285,7 @@ func CreateChildNodes(parentCh <-chan *Node, pruneCh chan<- int, nodeCh chan<- *
 			for _, flip := range []bool{false, true} {
 				n := CreateChild(parent, flip, X, y, cutoff, h)
 				if n == nil {
-					pruneCh <- parent.Level
+					pruneCh <- parent.Level + 1
 				} else {
 					nodeCh <- n
 				}
-- 
2.43.0


From df26c79fcf89ef3563b84b343058775249a27ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:07 +0000
Subject: [PATCH 39/43] fix: the lasso commands reported success when their
 result could not be encoded

---
 cmd/lasso.go                                | 3 +--
 cmdDepreciated/goselect-nestedlasso/main.go | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/cmd/lasso.go b/cmd/lasso.go
index 54ad9c5..653824e 100644
--- a/cmd/lasso.go
+++ b/cmd/lasso.go
@@ -112,8 +112,7 @@ func lassoFit(csvfile string, targetCol int, out string, lambMin float64, lambMa
 	js, err := json.Marshal(path)
 
 	if err != nil {
-		fmt.Printf("Error: %s", err)
-		return
+		log.Fatal(err)
 	}
 
 	file, _ := os.Create(out)
diff --git a/cmdDepreciated/goselect-nestedlasso/main.go b/cmdDepreciated/goselect-nestedlasso/main.go
index 38f785f..b43d47f 100644
--- a/cmdDepreciated/goselect-nestedlasso/main.go
+++ b/cmdDepreciated/goselect-nestedlasso/main.go
@@ -17,8 +17,7 @@ func nestedLasso(csvfile string, targetCol int, out string, lambMin float64, kee
 	js, err := json.Marshal(res)
 
 	if err != nil {
-		fmt.Printf("Error %s", err)
-		return
+		log.Fatal(err)
 	}
 
 	if err := ioutil.WriteFile(out, js, 0644); err != nil {
-- 
2.43.0


From 44f6f99e85d4323202a563dcf73a33a244d2a6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:07 +0000
Subject: [PATCH 40/43] fix: the lasso command wrote an empty path for an
 unknown algorithm

---
 cmd/lasso.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/lasso.go b/cmd/lasso.go
index 653824e..842fb46 100644
--- a/cmd/lasso.go
+++ b/cmd/lasso.go
@@ -94,6 +94,8 @@ func lassoFit(csvfile string, targetCol int, out string, lambMin float64, lambMa
 		}
 		lambs := featselect.Logspace(lambMin, lambMax, num)
 		larspath = featselect.LassoCrdDescPath(normDset, cov, lambs, 100000, tol, &corr)
+	} else {
+		log.Fatalf("Unknown algorithm %s\n", lassoType)
 	}
 
 	featselect.Path2Unnormalized(normDset, larspath)
-- 
2.43.0


From 814b8912d8f6c9f5f778bf72b60692f347259116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:07 +0000
Subject: [PATCH 41/43] fix: SelectModelSA never returned without sweeps or
 when the cost is not finite

---
 featselect/simmulatedAnnealing.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/featselect/simmulatedAnnealing.go b/featselect/simmulatedAnnealing.go
index 9e8b01d..511067f 100644
--- a/featselect/simmulatedAnnealing.go
+++ b/featselect/simmulatedAnnealing.go
@@ -17,6 +17,10 @@ type SARes struct {
 
 // SelectModelSA uses simmulated annealing to select the model
 func SelectModelSA(X mat.Matrix, y []float64, nSweeps int, cost crit) *SARes {
+	if nSweeps < 1 {
+		panic("sasearch: The number of sweeps must be positive")
+	}
+
 	var res SARes
 	res.Scores = NewSAScore(10)
 
@@ -69,6 +73,11 @@ func SelectModelSA(X mat.Matrix, y []float64, nSweeps int, cost crit) *SARes {
 			if !hasReached50 {
 				temp *= 2.0
 			}
+
+			// All moves between finite costs are accepted long before
+			if math.IsInf(temp, 1) {
+				panic("sasearch: The cost is not finite")
+			}
 		}
 
 		if numSteps >= nc*nSweeps {
-- 
2.43.0


From f455cfdf6068d6af6b451fce0545205fb1f63a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:07 +0000
Subject: [PATCH 42/43] fix: NestedLasso never returned when all features are
 kept

---
 featselect/nestedLasso.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/featselect/nestedLasso.go b/featselect/nestedLasso.go
index 161602c..bcf2bb5 100644
--- a/featselect/nestedLasso.go
+++ b/featselect/nestedLasso.go
@@ -24,6 +24,10 @@ type NestedLassoLars struct {
 // NestedLasso performs a sequence of LASSO calculations where the least important
 // features are removed on each iteration
 func NestedLasso(data *Dataset, lambMin float64, keep float64, estimator CDParam) NestedLassoLars {
+	if keep >= 1.0 {
+		panic("nestedlasso: The fraction to keep must be smaller than one")
+	}
+
 	var res NestedLassoLars
 
 	iter := 0
-- 
2.43.0


From f8ec15d6a57f375399d099817cc1ca77e2a238bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:24:57 +0000
Subject: [PATCH 43/43] fix: Highscore.Equal read the lists without
 synchronization

---
 featselect/highscore.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/featselect/highscore.go b/featselect/highscore.go
index 2111c06..8220514 100644
--- a/featselect/highscore.go
+++ b/featselect/highscore.go
@@ -138,13 +138,27 @@ func (h *Highscore) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
+// snapshot returns the capacity and the nodes the list holds at the moment
+func (h *Highscore) snapshot() (int, []*Node) {
+	h.rwlock.RLock()
+	defer h.rwlock.RUnlock()
+	nodes := make([]*Node, 0, h.Items.Len())
+	for item := h.Items.Front(); item != nil; item = item.Next() {
+		nodes = append(nodes, item.Value.(*Node))
+	}
+	return h.MaxItems, nodes
+}
+
+// Equal returns true if the two lists have the same capacity and equal nodes
 func (h *Highscore) Equal(h2 *Highscore) bool {
-	if h.MaxItems != h2.MaxItems || h.Len() != h2.Len() {
+	maxItems, nodes := h.snapshot()
+	maxItems2, nodes2 := h2.snapshot()
+	if maxItems != maxItems2 || len(nodes) != len(nodes2) {
 		return false
 	}
 
-	for e1, e2 := h.Items.Front(), h2.Items.Front(); e1 != nil; e1, e2 = e1.Next(), e2.Next() {
-		if !NodesEqual(e1.Value.(*Node), e2.Value.(*Node)) {
+	for i := range nodes {
+		if !NodesEqual(nodes[i], nodes2[i]) {
 			return false
 		}
 	}
-- 
2.43.0

