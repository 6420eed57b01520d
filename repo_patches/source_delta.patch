From 1024ff7040c2e16f19c52a670ffafb3677c27895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:30 +0000
Subject: [PATCH 01/38] fix: GatherAndMedian takes the median of the gathered
 values only

---
 internal/median/gather.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/median/gather.go b/internal/median/gather.go
index 5d68a89..04aaf7e 100644
--- a/internal/median/gather.go
+++ b/internal/median/gather.go
@@ -34,5 +34,5 @@ func GatherAndMedian(data []float32, index int32, mask []int32, buffer []float32
 		}
 	}
 
-	return MedianFloat32(buffer)
+	return MedianFloat32(buffer[:num])
 }
-- 
2.43.0


From 7b6bb88b3ed0ee8178ee240433e7483532f4c90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:14 +0000
Subject: [PATCH 02/38] fix: use the portable median filter for images narrower
 than one AVX2 block

---
 internal/median/median3x3_amd64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/median/median3x3_amd64.go b/internal/median/median3x3_amd64.go
index 5f9f3c1..7e0b219 100644
--- a/internal/median/median3x3_amd64.go
+++ b/internal/median/median3x3_amd64.go
@@ -25,7 +25,7 @@ import (
 // Applies 3x3 median filter to input data, assumed to be a 2D array with given line width, and stores results in output.
 // Copies over the outermost rows and columns unchanged.
 func MedianFilter3x3(output, data []float32, width int32) {
-    if cpuid.CPU.AVX2() {
+    if cpuid.CPU.AVX2() && width>=8 { // the AVX2 kernel works on blocks of eight pixels per line
       medianFilter3x3AVX2(output, data, width)
     } else {
       medianFilter3x3PureGo(output, data,width)
-- 
2.43.0


From d63bdb387f45765d96caea74078d1b2536dfa9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:36 +0000
Subject: [PATCH 03/38] fix: MedianFilter works on images with fewer pixels
 than processors

---
 internal/ops/pre/badpixels.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ops/pre/badpixels.go b/internal/ops/pre/badpixels.go
index 0ead5f4..87192e7 100644
--- a/internal/ops/pre/badpixels.go
+++ b/internal/ops/pre/badpixels.go
@@ -54,7 +54,7 @@ func BadPixelMap(data []float32, width int32, sigmaLow, sigmaHigh float32) (bpm
 // and stores the result in data
 func MedianFilter(output, data []float32, mask []int32) {
 	// Parallelize into as many goroutines as we have CPUs
-	stepSize := len(data) / runtime.NumCPU()
+	stepSize := (len(data) + runtime.NumCPU() - 1) / runtime.NumCPU()
 	var wg sync.WaitGroup
 	wg.Add((len(data) + stepSize - 1) / stepSize)
 
-- 
2.43.0


From a865919c61a8080c7b67a3c7c6158f3422ad33b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:35 +0000
Subject: [PATCH 04/38] fix: keep samples and weights paired in weighted sigma
 and winsorized stacking

---
 internal/ops/stack/stack.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index 699486b..0fdc8ff 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -442,6 +442,7 @@ func StackSigma(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh float32
 func StackSigmaWeighted(lightsData [][]float32, weights []float32, RefFrameLoc, sigmaLow, sigmaHigh float32, res []float32) (clipLow, clipHigh int32) {
 	gatheredFull:=make([]float32,len(lightsData))
 	weightsFull :=make([]float32,len(weights))
+	medianFull  :=make([]float32,len(lightsData))
 	numClippedLow, numClippedHigh:=int32(0), int32(0)
 
 	// for all pixels
@@ -484,7 +485,10 @@ func StackSigmaWeighted(lightsData [][]float32, weights []float32, RefFrameLoc,
 		for {
 
 			// calculate median, mean, standard deviation and variance across gathered data
-			median:=qsort.QSelectMedianFloat32(gatheredCur)
+			// QSelect reorders its input, so run it on a copy to keep values and weights aligned
+			medianCur:=medianFull[:len(gatheredCur)]
+			copy(medianCur, gatheredCur)
+			median:=qsort.QSelectMedianFloat32(medianCur)
 			_, stdDev:=stats.MeanStdDev(gatheredCur)
 
 			// remove out-of-bounds values
@@ -710,6 +714,7 @@ func StackWinsorSigma(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh f
 func StackWinsorSigmaWeighted(lightsData [][]float32, weights []float32, RefFrameLoc, sigmaLow, sigmaHigh float32, res []float32) (clipLow, clipHigh int32) {
 	gatheredFull  :=make([]float32,len(lightsData))
 	weightsFull   :=make([]float32,len(weights))
+	medianFull    :=make([]float32,len(lightsData))
 	winsorizedFull:=make([]float32,len(lightsData))
 	numClippedLow, numClippedHigh:=int32(0), int32(0)
 
@@ -753,7 +758,10 @@ func StackWinsorSigmaWeighted(lightsData [][]float32, weights []float32, RefFram
 		for {
 
 			// calculate median and standard deviation across all frames
-			median:=qsort.QSelectMedianFloat32(gatheredCur)
+			// QSelect reorders its input, so run it on a copy to keep values and weights aligned
+			medianCur:=medianFull[:len(gatheredCur)]
+			copy(medianCur, gatheredCur)
+			median:=qsort.QSelectMedianFloat32(medianCur)
 			_, stdDev:=stats.MeanStdDev(gatheredCur)
 
 			// calculate winsorized standard deviation (removes outliers/tighter)
-- 
2.43.0


From 9b7d28fffa8e4bef90e54c8a15d9f8c0930c7afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:54 +0000
Subject: [PATCH 05/38] fix: rejection stacking does not yield NaN when tight
 sigma bounds reject every sample of a pixel

---
 internal/ops/stack/stack.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index 0fdc8ff..844e99c 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -523,6 +523,7 @@ func StackSigmaWeighted(lightsData [][]float32, weights []float32, RefFrameLoc,
             		weightsSum +=weightsCur[i]
             	}
 				res[i]=weightedSum/weightsSum
+				if len(gatheredCur)==0 { res[i]=median } // all values rejected
             	break
             }
 		}
@@ -601,6 +602,7 @@ func StackMADSigma(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh floa
 		mean:=float32(0)
 		for _,g:=range(gatheredCur) { mean+=g }
 		mean/=float32(len(gatheredCur))
+		if len(gatheredCur)==0 { mean=median } // all values rejected
 		res[i]=mean		
 	}
 
@@ -824,6 +826,7 @@ func StackWinsorSigmaWeighted(lightsData [][]float32, weights []float32, RefFram
             		weightsSum +=weightsCur[i]
             	}
 				res[i]=weightedSum/weightsSum
+				if len(gatheredCur)==0 { res[i]=median } // all values rejected
             	break
             }
         }
@@ -911,7 +914,7 @@ func StackLinearFit(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh flo
 				}				
 			}
 
-			if left==0 || len(gatheredCur)<3{
+			if left==0 || left==len(gatheredCur) || len(gatheredCur)<3{
             	break
             }
 			gatheredCur=gatheredCur[left:]
-- 
2.43.0


From ab01cd1c03166369196b2ecf4a42cfb3ffc283d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:54 +0000
Subject: [PATCH 06/38] fix: noise and HFR weights are one, not NaN, when all
 frames have the same noise or HFR

---
 internal/ops/stack/stack.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index 844e99c..eadc7f4 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -249,6 +249,7 @@ func getWeights(f []*fits.Image, weighting StackWeighting) (weights []float32, e
 		weights =make([]float32, len(f))
 		for i:=0; i<len(f); i+=1 {
 			//f[i].Stats.Noise=nl.EstimateNoise(f[i].Data, f[i].Naxisn[0])
+			if maxNoise==minNoise { weights[i]=1; continue } // all frames equally good
 			weights[i]=1/(1+4*(f[i].Stats.Noise()-minNoise)/(maxNoise-minNoise))
 		}
 	} else if weighting==StWeightInverseHFR { // HFR weighted stacking, smaller HFR gets bigger weight
@@ -261,6 +262,7 @@ func getWeights(f []*fits.Image, weighting StackWeighting) (weights []float32, e
 		weights =make([]float32, len(f))
 		for i:=0; i<len(f); i+=1 {
 			//f[i].Stats.Noise=nl.EstimateNoise(f[i].Data, f[i].Naxisn[0])
+			if maxHFR==minHFR { weights[i]=1; continue } // all frames equally good
 			weights[i]=1/(1+4*(f[i].HFR-minHFR)/(maxHFR-minHFR))
 		}
 	} else {
-- 
2.43.0


From 4ec504b6ca659387e5bdc3ee1ab842b05cfaddb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:20 +0000
Subject: [PATCH 07/38] fix: linear regression slope is exact for points on a
 line, and zero for constant data

---
 internal/stats/stats.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 9724bf9..229e39b 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -576,10 +576,11 @@ func LinearRegression(xs, ys []float32) (slope, intercept, xmean, xstddev, ymean
 		diff := (xs[i] - xmean) * (ys[i] - ymean)
 		corr += diff
 	}
-	corr /= xstddev * ystddev * (float32(len(xs)) + 1)
-
 	// calculate the regression line
-	slope = corr * ystddev / xstddev
+	if xstddev > 0 && ystddev > 0 { // else the line is horizontal
+		corr /= xstddev * ystddev * float32(len(xs))
+		slope = corr * ystddev / xstddev
+	}
 	intercept = ymean - slope*xmean
 
 	return slope, intercept, xmean, xstddev, ymean, ystddev
-- 
2.43.0


From 763df787f112aa5a4e017b8db5bba59226d0b792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:22 +0000
Subject: [PATCH 08/38] fix: stacking in batches no longer drops frames when
 the batch size is reduced for multiple batches

---
 internal/ops/stack/stackbatches.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index 53c9570..7841480 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -175,6 +175,7 @@ func (op *OpStackBatches) partition(ins []ops.Promise, c *ops.Context) (insPerm
 		if batchSize < int64(maxThreads) {
 			continue
 		}
+		numBatches = (numFrames + batchSize - 1) / batchSize // with the corrected batch size
 		break
 	}
 	if maxThreads < 1 || batchSize < 2 {
-- 
2.43.0


From 3f154927f5a68cfdd78cd3eb826e546b241621b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 09/38] fix: statistics of images whose size is not a multiple
 of four read past the data

---
 internal/stats/stats_amd64.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/internal/stats/stats_amd64.go b/internal/stats/stats_amd64.go
index 4022bc7..40c0d3b 100644
--- a/internal/stats/stats_amd64.go
+++ b/internal/stats/stats_amd64.go
@@ -23,8 +23,16 @@ import (
 
 // Calculate minimum, mean and maximum of given data
 func calcMinMeanMax(data []float32) (min, mean, max float32) {
-    if cpuid.CPU.AVX2() {
-        return calcMinMeanMaxAVX2(data)
+    if cpuid.CPU.AVX2() && len(data)>=4 {
+        n:=len(data) - len(data)%4 // the AVX2 kernel processes groups of four
+        min, mean, max=calcMinMeanMaxAVX2(data[:n])
+        if n<len(data) {
+            tailMin, tailMean, tailMax:=calcMinMeanMaxPureGo(data[n:])
+            if tailMin<min { min=tailMin }
+            if tailMax>max { max=tailMax }
+            mean=float32((float64(mean)*float64(n) + float64(tailMean)*float64(len(data)-n)) / float64(len(data)))
+        }
+        return min, mean, max
     }
     return calcMinMeanMaxPureGo(data)
 }
@@ -35,8 +43,13 @@ func calcMinMeanMaxAVX2(data []float32) (min, mean, max float32)
 
 // Calculate variance of given data from provided mean. 
 func calcVariance(data []float32, mean float32) (result float64) {
-    if cpuid.CPU.AVX2() {
-		return calcVarianceAVX2(data, mean)
+    if cpuid.CPU.AVX2() && len(data)>=4 {
+        n:=len(data) - len(data)%4 // the AVX2 kernel processes groups of four
+        result=calcVarianceAVX2(data[:n], mean)
+        if n<len(data) {
+            result=(result*float64(n) + calcVariancePureGo(data[n:], mean)*float64(len(data)-n)) / float64(len(data))
+        }
+        return result
     }
 	return calcVariancePureGo(data, mean)
 }
-- 
2.43.0


From f2d186ef15b736d45c73a0e83132c4c5df71b03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 10/38] fix: noise estimate of images narrower than eight
 pixels read outside the image

---
 internal/stats/noise_amd64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/stats/noise_amd64.go b/internal/stats/noise_amd64.go
index 226d55c..1731385 100644
--- a/internal/stats/noise_amd64.go
+++ b/internal/stats/noise_amd64.go
@@ -25,7 +25,7 @@ import (
 // Estimate the level of gaussian noise on a natural image.
 // From J. Immerkær, “Fast Noise Variance Estimation”, Computer Vision and Image Understanding, Vol. 64, No. 2, pp. 300-302, Sep. 1996
 func EstimateNoise(data []float32, width int32) float32 {
-    if cpuid.CPU.AVX2() {
+    if cpuid.CPU.AVX2() && width>=8 { // the AVX2 kernel needs eight pixels per line
         return estimateNoiseAVX2(data, width)
     }
     return estimateNoisePureGo(data,width)
-- 
2.43.0


From 3cf67de963aacd32f60830c8f289d379e7c3111f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:10 +0000
Subject: [PATCH 11/38] fix: reading FITS data in short pieces no longer
 overruns the buffer or drops the last piece

---
 internal/fits/read.go | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index 043aea4..d2b996d 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -185,7 +185,7 @@ func (fits *Image) readInt8Data(r io.Reader) error {
 			bytesToRead = bufLen
 		}
 		bytesRead, err := r.Read(buf[:bytesToRead])
-		if err != nil {
+		if err != nil && (err != io.EOF || bytesRead == 0) {
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
 
@@ -221,11 +221,11 @@ func (fits *Image) readInt16Data(r io.Reader) error {
 	leftoverBytes := 0
 	for dataIndex < len(fits.Data) {
 		bytesToRead := (len(fits.Data)-dataIndex)*bytesPerValue - leftoverBytes
-		if bytesToRead > bufLen {
-			bytesToRead = bufLen
+		if bytesToRead > bufLen-leftoverBytes {
+			bytesToRead = bufLen - leftoverBytes
 		}
 		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
-		if err != nil {
+		if err != nil && (err != io.EOF || bytesRead == 0) {
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
 
@@ -267,11 +267,11 @@ func (fits *Image) readInt32Data(r io.Reader) error {
 	leftoverBytes := 0
 	for dataIndex < len(fits.Data) {
 		bytesToRead := (len(fits.Data)-dataIndex)*bytesPerValue - leftoverBytes
-		if bytesToRead > bufLen {
-			bytesToRead = bufLen
+		if bytesToRead > bufLen-leftoverBytes {
+			bytesToRead = bufLen - leftoverBytes
 		}
 		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
-		if err != nil {
+		if err != nil && (err != io.EOF || bytesRead == 0) {
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
 
@@ -313,11 +313,11 @@ func (fits *Image) readInt64Data(r io.Reader) error {
 	leftoverBytes := 0
 	for dataIndex < len(fits.Data) {
 		bytesToRead := (len(fits.Data)-dataIndex)*bytesPerValue - leftoverBytes
-		if bytesToRead > bufLen {
-			bytesToRead = bufLen
+		if bytesToRead > bufLen-leftoverBytes {
+			bytesToRead = bufLen - leftoverBytes
 		}
 		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
-		if err != nil {
+		if err != nil && (err != io.EOF || bytesRead == 0) {
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
 
@@ -360,11 +360,11 @@ func (fits *Image) readFloat32Data(r io.Reader) error {
 	leftoverBytes := 0
 	for dataIndex < len(fits.Data) {
 		bytesToRead := (len(fits.Data)-dataIndex)*bytesPerValue - leftoverBytes
-		if bytesToRead > bufLen {
-			bytesToRead = bufLen
+		if bytesToRead > bufLen-leftoverBytes {
+			bytesToRead = bufLen - leftoverBytes
 		}
 		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
-		if err != nil {
+		if err != nil && (err != io.EOF || bytesRead == 0) {
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
 
@@ -407,11 +407,11 @@ func (fits *Image) readFloat64Data(r io.Reader) error {
 	leftoverBytes := 0
 	for dataIndex < len(fits.Data) {
 		bytesToRead := (len(fits.Data)-dataIndex)*bytesPerValue - leftoverBytes
-		if bytesToRead > bufLen {
-			bytesToRead = bufLen
+		if bytesToRead > bufLen-leftoverBytes {
+			bytesToRead = bufLen - leftoverBytes
 		}
 		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
-		if err != nil {
+		if err != nil && (err != io.EOF || bytesRead == 0) {
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
 
-- 
2.43.0


From 21bdd668fda035afe9bf86bfe55159f2a19509fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:11 +0000
Subject: [PATCH 12/38] fix: comments of a FITS header are kept apart from its
 history

---
 internal/fits/read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index d2b996d..6f43e44 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -479,7 +479,7 @@ func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int,
 			case byte('H'): // history line
 				h.History = append(h.History, string(subValues[i]))
 			case byte('C'): // comment line
-				h.Comments = append(h.History, string(subValues[i]))
+				h.Comments = append(h.Comments, string(subValues[i]))
 			case byte('k'): // key
 				key = string(subValues[i])
 			case byte('b'): // boolean
-- 
2.43.0


From 11ce9630095dcd21d27c956e57cdb5f19aca1d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:13 +0000
Subject: [PATCH 13/38] fix: FITS headers with invalid axes or without image
 data are an error instead of a panic

---
 internal/fits/read.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index 6f43e44..87f1fb6 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -110,6 +110,9 @@ func (fits *Image) Read(f io.Reader, readData bool, logWriter io.Writer) (err er
 	if naxis, err = fits.PopHeaderInt32("NAXIS"); err != nil {
 		return err
 	}
+	if naxis < 0 || naxis > 999 {
+		return fmt.Errorf("%d: Invalid NAXIS value %d", fits.ID, naxis)
+	}
 	fits.Naxisn = make([]int32, naxis)
 	fits.Pixels = int32(1)
 	for i := int32(1); i <= naxis; i++ {
@@ -118,6 +121,9 @@ func (fits *Image) Read(f io.Reader, readData bool, logWriter io.Writer) (err er
 		if nai, err = fits.PopHeaderInt32(name); err != nil {
 			return err
 		}
+		if nai < 0 || int64(fits.Pixels)*int64(nai) > math.MaxInt32 {
+			return fmt.Errorf("%d: Invalid %s value %d", fits.ID, name, nai)
+		}
 		fits.Naxisn[i-1] = nai
 		fits.Pixels *= int32(nai)
 	}
@@ -138,6 +144,9 @@ func (fits *Image) Read(f io.Reader, readData bool, logWriter io.Writer) (err er
 	if !readData {
 		return nil
 	}
+	if naxis == 0 || fits.Pixels == 0 {
+		return fmt.Errorf("%d: FITS file contains no image data", fits.ID)
+	}
 	return fits.readData(f, logWriter)
 }
 
-- 
2.43.0


From 45fab9e50137c497688c2e2e5b8de234a655f50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:14 +0000
Subject: [PATCH 14/38] fix: FITS header integers beyond 32 bits and all forms
 of floating point exponents are understood

---
 internal/fits/read.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index 87f1fb6..40e1c18 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -498,11 +498,14 @@ func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int,
 				}
 			case byte('i'): // int
 				val, err := strconv.ParseInt(string(subValues[i]), 10, 64)
-				if err == nil {
+				if err == nil && val >= math.MinInt32 && val <= math.MaxInt32 {
 					h.Ints[key] = int32(val)
+				} else if fval, err := strconv.ParseFloat(string(subValues[i]), 64); err == nil {
+					h.Floats[key] = float32(fval) // outside the int32 range
 				}
 			case byte('f'): // float
-				val, err := strconv.ParseFloat(string(subValues[i]), 64)
+				str := strings.NewReplacer("D", "E", "d", "e").Replace(string(subValues[i])) // double precision exponent
+				val, err := strconv.ParseFloat(str, 64)
 				if err == nil {
 					h.Floats[key] = float32(val)
 				}
@@ -551,7 +554,7 @@ func compileRE() *regexp.Regexp {
 
 	boo := "(?P<b>[TF])"
 	inte := "(?P<i>[+-]?[0-9]+)"
-	floa := "(?P<f>[+-]?[0-9]*\\.[0-9]*(?:[ED][-+]?[0-9]+)?)"
+	floa := "(?P<f>[+-]?(?:[0-9]+\\.?[0-9]*|\\.[0-9]+)(?:[EDed][-+]?[0-9]+)?)"
 	stri := "'(?P<s>[^']*)'"
 	date := "(?P<d>[0-9]{1,4}-?[012][0-9]-?[0123][0-9]T[012][0-9]:?[0-5][0-9]:?[0-5][0-9].?[0-9]*)" // FIXME: other variants possible, see ISO8601
 	val := "(?:" + boo + "|" + inte + "|" + floa + "|" + stri + "|" + date + ")"
-- 
2.43.0


From ca8d8827dc22bb089293aa55c60cf5b5c07421d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:42 +0000
Subject: [PATCH 15/38] fix: overwriting a longer FITS file leaves none of its
 old content

---
 internal/fits/write.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fits/write.go b/internal/fits/write.go
index 9d73889..c613eb2 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -31,7 +31,7 @@ import (
 // Compresses with gzip if .gz or gzip suffix is present.
 func (fits *Image) WriteFile(fileName string) error {
 	//fmt.Println("Reading from " + fileName + "..." )
-	f, err:=os.OpenFile(fileName, os.O_WRONLY |os.O_CREATE, 0644)
+	f, err:=os.OpenFile(fileName, os.O_WRONLY |os.O_CREATE |os.O_TRUNC, 0644)
 	if err!=nil { return err }
 	defer f.Close()
 
-- 
2.43.0


From 9684d430190ee4f7e3cd7b1be27e189c08458103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:43 +0000
Subject: [PATCH 16/38] fix: errors finishing a FITS file are reported

---
 internal/fits/write.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/fits/write.go b/internal/fits/write.go
index c613eb2..afc7292 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -29,11 +29,11 @@ import (
 // Writes an in-memory FITS image to a file with given filename.
 // Creates/overwrites the file if necessary.
 // Compresses with gzip if .gz or gzip suffix is present.
-func (fits *Image) WriteFile(fileName string) error {
+func (fits *Image) WriteFile(fileName string) (err error) {
 	//fmt.Println("Reading from " + fileName + "..." )
 	f, err:=os.OpenFile(fileName, os.O_WRONLY |os.O_CREATE |os.O_TRUNC, 0644)
 	if err!=nil { return err }
-	defer f.Close()
+	defer func() { if cerr:=f.Close(); err==nil { err=cerr } }()
 
 	var w io.Writer=f
 
@@ -42,7 +42,7 @@ func (fits *Image) WriteFile(fileName string) error {
 	lExt:=strings.ToLower(ext)
 	if lExt==".gz" || lExt==".gzip" {
 		gw:=gzip.NewWriter(f)
-		defer gw.Close()
+		defer func() { if cerr:=gw.Close(); err==nil { err=cerr } }()
 		w=gw
 	} 
 
-- 
2.43.0


From b6ef166863c9489483232438f88c18096f9fe9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:44 +0000
Subject: [PATCH 17/38] fix: string values of a FITS header are written once

---
 internal/fits/write.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/internal/fits/write.go b/internal/fits/write.go
index afc7292..70a2096 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -94,7 +94,6 @@ func (h *Header) Write(w io.Writer) {
 	for k,v:=range(h.Ints   ) { writeInt32  (w, k, v, "") }
 	for k,v:=range(h.Floats ) { writeFloat32(w, k, v, "") }
 	for k,v:=range(h.Strings) { writeString (w, k, v, "") }
-	for k,v:=range(h.Strings) { writeString (w, k, v, "") }
 	for k,v:=range(h.Dates  ) { writeString (w, k, v, "") }
 	// FIXME: ignoring h.Comments and h.History for now
 }
-- 
2.43.0


From a4e468014ad0612862927a217bb922c515af27ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 18/38] fix: the last FITS data block is filled with zeros as
 the standard demands

---
 internal/fits/write.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/internal/fits/write.go b/internal/fits/write.go
index 70a2096..d3f367f 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -202,11 +202,7 @@ func writeFloat32Array(w io.Writer, data []float32, replaceNaNs bool) error {
 	bytesWritten:=len(data)<<2
 	lastPartialBlock:=bytesWritten % 2880
 	if lastPartialBlock!=0 {
-		sb:=strings.Builder{}
-		for i:=lastPartialBlock; i<2880; i++ {
-			sb.WriteRune(' ')
-		}
-		_, err:=w.Write([]byte(sb.String()))
+		_, err:=w.Write(make([]byte, 2880-lastPartialBlock)) // the standard fills data with zeros
 		if err!=nil { return err }
 	}
 	
-- 
2.43.0


From 32e8a7733e0b78e2ed6d24f41db62573084a90c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:46 +0000
Subject: [PATCH 19/38] fix: floating point values of a FITS header use upper
 case exponents

---
 internal/fits/write.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/fits/write.go b/internal/fits/write.go
index d3f367f..06dcb6c 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -136,7 +136,7 @@ func writeInt64(w io.Writer, key string, value int64, comment string) {
 func writeFloat32(w io.Writer, key string, value float32, comment string) {
 	if len(key)>8 { key=key[0:8] }
 	if len(comment)>47 { comment=comment[0:47] }
-	fmt.Fprintf(w, "%-8s= %20g / %-47s", key, value, comment)
+	fmt.Fprintf(w, "%-8s= %20G / %-47s", key, value, comment) // the standard demands upper case exponents
 }
 
 
@@ -144,7 +144,7 @@ func writeFloat32(w io.Writer, key string, value float32, comment string) {
 func writeFloat64(w io.Writer, key string, value float64, comment string) {
 	if len(key)>8 { key=key[0:8] }
 	if len(comment)>47 { comment=comment[0:47] }
-	fmt.Fprintf(w, "%-8s= %20g / %-47s", key, value, comment)
+	fmt.Fprintf(w, "%-8s= %20G / %-47s", key, value, comment) // the standard demands upper case exponents
 }
 
 
-- 
2.43.0


From 6db3216b9730666b284e8ed252776bc12ca9d3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:47 +0000
Subject: [PATCH 20/38] fix: long strings and strings with quotes survive
 writing and reading a FITS header

---
 internal/fits/fits.go  |  1 +
 internal/fits/read.go  | 20 ++++++++++++++++----
 internal/fits/write.go | 21 +++++++++++++++------
 3 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/internal/fits/fits.go b/internal/fits/fits.go
index a20b614..a1faf8a 100644
--- a/internal/fits/fits.go
+++ b/internal/fits/fits.go
@@ -126,6 +126,7 @@ type Header struct {
 	History  []string
 	End      bool
 	Length   int32
+	lastString string // key of the string on the previous header line, if any
 }
 
 // Creates a FITS header initialized with empty maps and arrays
diff --git a/internal/fits/read.go b/internal/fits/read.go
index 40e1c18..c14da44 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -479,6 +479,7 @@ func (h *Header) read(r io.Reader, id int, logWriter io.Writer) error {
 
 func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int, logWriter io.Writer) {
 	key := ""
+	isString := false
 	// ignore index 0 which is the whole line
 	for i := 1; i < len(subNames); i++ {
 		if subValues[i] != nil && len(subNames[i]) == 1 {
@@ -510,7 +511,13 @@ func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int,
 					h.Floats[key] = float32(val)
 				}
 			case byte('s'): // string
-				h.Strings[key] = string(subValues[i])
+				h.Strings[key] = strings.ReplaceAll(string(subValues[i]), "''", "'")
+				isString = true
+			case byte('S'): // continuation of a string ending in &
+				if prev, ok := h.Strings[h.lastString]; ok && strings.HasSuffix(prev, "&") {
+					h.Strings[h.lastString] = prev[:len(prev)-1] + strings.ReplaceAll(string(subValues[i]), "''", "'")
+					key, isString = h.lastString, true
+				}
 			case byte('d'): // date
 				h.Dates[key] = string(subValues[i])
 			case byte('c'): // comment
@@ -520,6 +527,10 @@ func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int,
 			}
 		}
 	}
+	h.lastString = ""
+	if isString {
+		h.lastString = key
+	}
 }
 
 func (h *Header) Print() {
@@ -555,17 +566,18 @@ func compileRE() *regexp.Regexp {
 	boo := "(?P<b>[TF])"
 	inte := "(?P<i>[+-]?[0-9]+)"
 	floa := "(?P<f>[+-]?(?:[0-9]+\\.?[0-9]*|\\.[0-9]+)(?:[EDed][-+]?[0-9]+)?)"
-	stri := "'(?P<s>[^']*)'"
+	stri := "'(?P<s>(?:[^']|'')*)'"
 	date := "(?P<d>[0-9]{1,4}-?[012][0-9]-?[0123][0-9]T[012][0-9]:?[0-5][0-9]:?[0-5][0-9].?[0-9]*)" // FIXME: other variants possible, see ISO8601
 	val := "(?:" + boo + "|" + inte + "|" + floa + "|" + stri + "|" + date + ")"
 
-	// missing: CONTINUE for strings
 	// missing: complex int: (nr, nr)
 	// missing: complex float: (nr, nr)
 
 	commOpt := "(?:/(?P<c>.*))?"
 	keyLine := key + whiteOpt + equals + whiteOpt + val + whiteOpt + commOpt
 
-	lineRe := "^(?:" + whiteLine + "|" + histLine + "|" + commLine + "|" + keyLine + "|" + endLine + ")$"
+	contLine := "CONTINUE" + white + "'(?P<S>(?:[^']|'')*)'" + whiteOpt + "(?:/.*)?"
+
+	lineRe := "^(?:" + whiteLine + "|" + contLine + "|" + histLine + "|" + commLine + "|" + keyLine + "|" + endLine + ")$"
 	return regexp.MustCompile(lineRe)
 }
diff --git a/internal/fits/write.go b/internal/fits/write.go
index 06dcb6c..b768775 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -155,22 +155,31 @@ func writeString(w io.Writer, key, value, comment string) {
 
 	// escape ' characters
 	value=strings.Join(strings.Split(value, "'"), "''")
-	// FIXME: Malformatted output ERROR if printing breaks the '' characters!
-
 	if len(value)<=18 {
 		fmt.Fprintf(w, "%-8s= '%s'%s / %-47s", key, value, strings.Repeat(" ", 18-len(value)), comment)
 	} else {
-		fmt.Fprintf(w, "%-8s= '%s&' / %-47s", key, value[0:17], comment)
-		value=value[17:]
+		n:=stringPrefix(value, 17)
+		fmt.Fprintf(w, "%-8s= '%s&'%s / %-47s", key, value[0:n], strings.Repeat(" ", 17-n), comment)
+		value=value[n:]
 		for ; len(value)>66 ; {
-			fmt.Fprintf(w, "CONTINUE  '%s&' ", value[0:66])
-			value=value[66:]
+			n=stringPrefix(value, 66)
+			fmt.Fprintf(w, "CONTINUE  '%s&'%s ", value[0:n], strings.Repeat(" ", 66-n))
+			value=value[n:]
 		}
 		fmt.Fprintf(w, "CONTINUE  '%s'%s", value, strings.Repeat(" ", 50+(18-len(value))))
 	}	
 }
 
 
+// Returns the length of the longest prefix of an escaped string with at most n
+// characters, which does not break a pair of ' characters
+func stringPrefix(value string, n int) int {
+	quotes:=0
+	for quotes<n && value[n-1-quotes]=='\'' { quotes++ }
+	return n-(quotes&1)
+}
+
+
 // Writes a FITS header end record 
 func writeEnd(w io.Writer) {
 	fmt.Fprintf(w, "END%s", strings.Repeat(" ", 80-3))
-- 
2.43.0


From bf94fc3937e2d44f61e589568cf75e2cbb55a87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:24 +0000
Subject: [PATCH 21/38] fix: reading color and 8-bit TIFF files no longer
 panics

---
 internal/fits/tiff16.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/internal/fits/tiff16.go b/internal/fits/tiff16.go
index 1c29b2c..35a1b72 100644
--- a/internal/fits/tiff16.go
+++ b/internal/fits/tiff16.go
@@ -17,6 +17,7 @@ package fits
 
 import (
 	"bufio"
+	"fmt"
 	"image"
 	"image/color"
 	"io"
@@ -153,6 +154,13 @@ func (f *Image) ReadTIFF(fileName string) error {
 	// determine width, height, color depth and number of color channels
 	width, height := t.Bounds().Dx(), t.Bounds().Dy()
 	bitpix, channels := colorModelToBitpixAndChannels(t.ColorModel())
+	if channels == 0 || width*height == 0 {
+		return fmt.Errorf("%d: Unsupported TIFF image", f.ID)
+	}
+	shift := 0 // color conversion yields 16 bits
+	if bitpix == 8 {
+		shift = 8
+	}
 
 	// set FITS metadata
 	f.Bitpix = bitpix
@@ -169,7 +177,7 @@ func (f *Image) ReadTIFF(fileName string) error {
 	// allocate FITS image bitmap
 	f.Data = make([]float32, f.Pixels)
 	sizeThird := int(f.Pixels / 3)
-	sizeTwoThirds := int(f.Pixels * 2)
+	sizeTwoThirds := 2 * sizeThird
 
 	// keep running stats
 	min, max, sum := float32(math.MaxFloat32), float32(-math.MaxFloat32), float64(0)
@@ -180,8 +188,8 @@ func (f *Image) ReadTIFF(fileName string) error {
 		for y := 0; y < height; y++ {
 			for x := 0; x < width; x++ {
 				// convert pixel
-				c := t.At(x, y).(color.Gray16)
-				gray := float32(c.Y)
+				c := color.Gray16Model.Convert(t.At(x, y)).(color.Gray16)
+				gray := float32(c.Y >> shift)
 				f.Data[y*width+x] = gray
 
 				// update stats
@@ -199,8 +207,8 @@ func (f *Image) ReadTIFF(fileName string) error {
 		for y := 0; y < height; y++ {
 			for x := 0; x < width; x++ {
 				// convert pixel
-				c := t.At(x, y).(color.RGBA64)
-				r, g, b := float32(c.R), float32(c.G), float32(c.B)
+				c := color.RGBA64Model.Convert(t.At(x, y)).(color.RGBA64)
+				r, g, b := float32(c.R>>shift), float32(c.G>>shift), float32(c.B>>shift)
 				f.Data[y*width+x] = r
 				f.Data[y*width+x+sizeThird] = g
 				f.Data[y*width+x+sizeTwoThirds] = b
-- 
2.43.0


From 74c64eb94ebb07be7fc1a81aba1ed80fc25db9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:25 +0000
Subject: [PATCH 22/38] fix: errors finishing a TIFF or JPG file are reported

---
 internal/fits/tiff16.go   | 28 ++++++++++++++++++++++------
 internal/fits/writejpg.go | 28 ++++++++++++++++++++++------
 2 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/internal/fits/tiff16.go b/internal/fits/tiff16.go
index 35a1b72..7a5c76b 100644
--- a/internal/fits/tiff16.go
+++ b/internal/fits/tiff16.go
@@ -29,15 +29,23 @@ import (
 )
 
 // Write a FITS image to 16-bit TIFF, using the given min, max and gamma.
-func (f *Image) WriteTIFF16ToFile(fileName string, min, max, gamma float32) error {
+func (f *Image) WriteTIFF16ToFile(fileName string, min, max, gamma float32) (err error) {
 	file, err := os.Create(fileName)
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	defer func() {
+		if cerr := file.Close(); err == nil {
+			err = cerr
+		}
+	}()
 
 	writer := bufio.NewWriter(file)
-	defer writer.Flush()
+	defer func() {
+		if ferr := writer.Flush(); err == nil {
+			err = ferr
+		}
+	}()
 
 	return f.WriteTIFF16(writer, min, max, gamma)
 }
@@ -92,15 +100,23 @@ func (f *Image) WriteTIFF16(writer io.Writer, min, max, gamma float32) error {
 }
 
 // Write a grayscale FITS image to 16-bit TIFF, using the given min, max and gamma.
-func (f *Image) WriteMonoTIFF16ToFile(fileName string, min, max, gamma float32) error {
+func (f *Image) WriteMonoTIFF16ToFile(fileName string, min, max, gamma float32) (err error) {
 	file, err := os.Create(fileName)
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	defer func() {
+		if cerr := file.Close(); err == nil {
+			err = cerr
+		}
+	}()
 
 	writer := bufio.NewWriter(file)
-	defer writer.Flush()
+	defer func() {
+		if ferr := writer.Flush(); err == nil {
+			err = ferr
+		}
+	}()
 
 	return f.WriteMonoTIFF16(writer, min, max, gamma)
 }
diff --git a/internal/fits/writejpg.go b/internal/fits/writejpg.go
index 8581bb9..8c4a67b 100644
--- a/internal/fits/writejpg.go
+++ b/internal/fits/writejpg.go
@@ -26,15 +26,23 @@ import (
 )
 
 // Write a FITS image to JPG, using the given min, max and gamma.
-func (f *Image) WriteJPGToFile(fileName string, min, max, gamma float32, quality int) error {
+func (f *Image) WriteJPGToFile(fileName string, min, max, gamma float32, quality int) (err error) {
 	file, err := os.Create(fileName)
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	defer func() {
+		if cerr := file.Close(); err == nil {
+			err = cerr
+		}
+	}()
 
 	writer := bufio.NewWriter(file)
-	defer writer.Flush()
+	defer func() {
+		if ferr := writer.Flush(); err == nil {
+			err = ferr
+		}
+	}()
 
 	return f.WriteJPG(writer, min, max, gamma, quality)
 }
@@ -89,15 +97,23 @@ func (f *Image) WriteJPG(writer io.Writer, min, max, gamma float32, quality int)
 }
 
 // Write a grayscale FITS image to JPG, using the given min, max and gamma.
-func (f *Image) WriteMonoJPGToFile(fileName string, min, max, gamma float32, quality int) error {
+func (f *Image) WriteMonoJPGToFile(fileName string, min, max, gamma float32, quality int) (err error) {
 	file, err := os.Create(fileName)
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	defer func() {
+		if cerr := file.Close(); err == nil {
+			err = cerr
+		}
+	}()
 
 	writer := bufio.NewWriter(file)
-	defer writer.Flush()
+	defer func() {
+		if ferr := writer.Flush(); err == nil {
+			err = ferr
+		}
+	}()
 
 	return f.WriteMonoJPG(writer, min, max, gamma, quality)
 }
-- 
2.43.0


From 1d7b273129964af5648c550acce79fb68666c597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 23/38] fix: debayering refreshes the statistics and refuses
 images too small for it

---
 internal/ops/pre/preprocess.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 2a2cfbf..ef3eda2 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -24,6 +24,7 @@ import (
 	"github.com/mlnoga/nightlight/internal/fits"
 	"github.com/mlnoga/nightlight/internal/ops"
 	"github.com/mlnoga/nightlight/internal/star"
+	"github.com/mlnoga/nightlight/internal/stats"
 )
 
 type OpCalibrate struct {
@@ -237,12 +238,17 @@ func (op *OpDebayer) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, e
 	if op.Channel == "" || op.ColorFilterArray == "" {
 		return f, nil
 	}
-	f.Data, f.Naxisn[0], err = DebayerBilinear(f.Data, f.Naxisn[0], op.Channel, op.ColorFilterArray)
+	data, adjWidth, err := DebayerBilinear(f.Data, f.Naxisn[0], op.Channel, op.ColorFilterArray)
 	if err != nil {
 		return nil, err
 	}
+	if len(data) == 0 {
+		return nil, fmt.Errorf("%d: Image dimensions %v too small for debayering", f.ID, f.Naxisn)
+	}
+	f.Data, f.Naxisn[0] = data, adjWidth
 	f.Pixels = int32(len(f.Data))
 	f.Naxisn[1] = f.Pixels / f.Naxisn[0]
+	f.Stats = stats.NewStats(f.Data, f.Naxisn[0]) // the former stats belong to the data before debayering
 	fmt.Fprintf(c.Log, "%d: Debayered channel %s from cfa %s, new size %dx%d\n", f.ID, op.Channel, op.ColorFilterArray, f.Naxisn[0], f.Naxisn[1])
 
 	return f, nil
-- 
2.43.0


From b1e5cbbc618a2609203499e6ebf87d03679e5a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 24/38] fix: removing bad pixels refreshes the statistics

---
 internal/ops/pre/preprocess.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index ef3eda2..d78addd 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -198,6 +198,7 @@ func (op *OpBadPixel) Apply(f *fits.Image, c *ops.Context) (result *fits.Image,
 		fmt.Fprintf(c.Log, "%d: Removed %d bad bayer pixels (%.2f%%) with sigma low=%.2f high=%.2f\n",
 			f.ID, numRemoved, 100.0*float32(numRemoved)/float32(f.Pixels), op.SigmaLow, op.SigmaHigh)
 	}
+	f.Stats.Clear()
 	return f, nil
 }
 
-- 
2.43.0


From 3148d710cb9c40168181ff547132240138bac91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 25/38] fix: bad pixels in the first row and column were
 skipped for some color filter arrays

---
 internal/ops/pre/badpixels_bayer.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/internal/ops/pre/badpixels_bayer.go b/internal/ops/pre/badpixels_bayer.go
index 10279aa..9044e42 100644
--- a/internal/ops/pre/badpixels_bayer.go
+++ b/internal/ops/pre/badpixels_bayer.go
@@ -39,7 +39,7 @@ func CosmeticCorrectionBayer(data []float32, width int32, debayer, cfa string, s
 	case "G", "g":
 		return CosmeticCorrectionBayerGreen(median, data, width, xOffset, yOffset, sigmaLow, sigmaHigh), nil
 	case "B", "b":
-		return CosmeticCorrectionBayerRedOrBlue(median, data, width, xOffset+1, yOffset+1, sigmaLow, sigmaHigh), nil
+		return CosmeticCorrectionBayerRedOrBlue(median, data, width, 1-xOffset, 1-yOffset, sigmaLow, sigmaHigh), nil
 	default:
 		return 0, errors.New("Unknown debayering value " + debayer)
 	}
@@ -148,10 +148,10 @@ func MedianFilterBayerGreen(res, data []float32, width, xOffset, yOffset int32)
 	}*/
 
 	// for all RGGB boxes
-	colorOffsetX := int32(0)
-	for y := yOffset; y < height; y += 1 {
+	colorOffsetX := (xOffset + yOffset) & 1
+	for y := int32(0); y < height; y += 1 {
 		colorOffsetX = 1 - colorOffsetX
-		for x := xOffset + colorOffsetX; x < width; x += 2 {
+		for x := colorOffsetX; x < width; x += 2 {
 			numGathered := 0
 			// for the local neighborhood
 			for _, nOffsets := range gOffsets {
@@ -245,14 +245,14 @@ func DeltaStatsBayerGreen(median, data []float32, width, xOffset, yOffset int32)
 	// for all rows
 	deltaSum := float32(0)
 	deltaNum := int32(0)
-	colorOffsetX := int32(0)
-	for y := yOffset; y < height; y += 1 {
+	colorOffsetX := (xOffset + yOffset) & 1
+	for y := int32(0); y < height; y += 1 {
 		colorOffsetX = 1 - colorOffsetX
 
 		// for all pixels in the row
 		deltaRowSum := float32(0)
 		deltaRowNum := int32(0)
-		for x := xOffset + colorOffsetX; x < width; x += 2 {
+		for x := colorOffsetX; x < width; x += 2 {
 			index := y*width + x
 			delta := data[index] - median[index]
 			deltaRowSum += delta
@@ -267,14 +267,14 @@ func DeltaStatsBayerGreen(median, data []float32, width, xOffset, yOffset int32)
 	// for all rows
 	deltaSum = float32(0)
 	deltaNum = int32(0)
-	colorOffsetX = int32(0)
-	for y := yOffset; y < height; y += 1 {
+	colorOffsetX = (xOffset + yOffset) & 1
+	for y := int32(0); y < height; y += 1 {
 		colorOffsetX = 1 - colorOffsetX
 
 		// for all pixels in the row
 		deltaRowSum := float32(0)
 		deltaRowNum := int32(0)
-		for x := xOffset + colorOffsetX; x < width; x += 2 {
+		for x := colorOffsetX; x < width; x += 2 {
 			index := y*width + x
 			delta := data[index] - median[index]
 			deltaSq := (delta - mean) * (delta - mean)
@@ -333,12 +333,12 @@ func ReplaceOutliersBayerGreen(median, data []float32, width, xOffset, yOffset i
 	numRemoved = 0
 
 	// for all rows
-	colorOffsetX := int32(0)
-	for y := yOffset; y < height; y += 1 {
+	colorOffsetX := (xOffset + yOffset) & 1
+	for y := int32(0); y < height; y += 1 {
 		colorOffsetX = 1 - colorOffsetX
 
 		// for all pixels in the row
-		for x := xOffset + colorOffsetX; x < width; x += 2 {
+		for x := colorOffsetX; x < width; x += 2 {
 			index := y*width + x
 			delta := data[index] - median[index]
 			if delta < threshLow || delta > threshHigh {
-- 
2.43.0


From fc2de1963adf00f2a4b0ba16927f8a1b91a265fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:07 +0000
Subject: [PATCH 26/38] fix: neutralizing the background uses the upper
 luminance limit

---
 internal/fits/pixelops.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index 9896fb4..8b9f1a4 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -470,7 +470,7 @@ type pf3ChanNeutralizeBackgroundArgs struct {
 // RGB pixel function to adjust CIE HCL chroma by multiplying with 0 for values below low, with 1 above high, and interpolating linearly in between. 
 // Data must be HCL. 2nd parameter must be a pf3ChanNeutralizeBackgroundArgs. Operates in-place. 
 func pf3ChanNeutralizeBackground(hs,cs,ls []float32, params interface{}) {
-	low, high:=params.(pf3ChanNeutralizeBackgroundArgs).Low, params.(pf3ChanNeutralizeBackgroundArgs).Low
+	low, high:=params.(pf3ChanNeutralizeBackgroundArgs).Low, params.(pf3ChanNeutralizeBackgroundArgs).High
 	scaler:=float32(0)
 	if high>low { scaler=1.0/(high-low) }
 	for i, l:=range ls {
-- 
2.43.0


From 0663e2f2ae8bbbc1ac8fce1041f199c80a5eac4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:09 +0000
Subject: [PATCH 27/38] fix: midtones correction maps values below the black
 point to zero

---
 internal/fits/pixelops.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index 8b9f1a4..440db28 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -219,7 +219,7 @@ func pfMidtones(data []float32, params interface{}) {
 	for i, d:=range data {
 		value:=d*(mid-1.0) / ((2.0*mid -1.0)*d - mid)
 		if value<clipLow { 
-			value=0 
+			value=clipLow
 	    } else if value>clipHigh {
 	    	value=1
 	    }
-- 
2.43.0


From 9bbcc682658970b6053a93a093a37f555311248d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:11 +0000
Subject: [PATCH 28/38] fix: black and white point search all of the histogram
 and accept constant images

---
 internal/fits/pixelops.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index 440db28..1402a7f 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -702,12 +702,13 @@ func (f* Image) SetBlackWhite(blackPerc, whitePerc float32, logWriter io.Writer)
 		if d<min { min=d }
 		if d>max { max=d }
 	}	
+	if !(min<max) { return } // constant image, nothing to clip
 	hist:=make([]int32,65536)
 	stats.Histogram(data, min, max, hist)
 
 	// calculate black level
 	blackPixels, blackIndex:=int32(0), int32(0)
-	for i:=0; i<l; i++ {
+	for i:=0; i<len(hist); i++ {
 		h:=hist[i]
 		if (blackPixels+h)>int32(blackPerc*0.01*float32(l)) {
 			blackIndex=int32(i)
-- 
2.43.0


From 2b5e06056fca231b821327ac6bd7681262a7f5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:13 +0000
Subject: [PATCH 29/38] fix: scaling cached statistics with a negative factor
 keeps min below max and spreads positive

---
 internal/stats/stats.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 229e39b..2c53652 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -91,6 +91,10 @@ func (s *Stats) Clear() {
 func (s *Stats) UpdateCachedWith(multiplier, offset float32) {
 	s.min = s.min*multiplier + offset
 	s.max = s.max*multiplier + offset
+	if multiplier < 0 { // the order of values is reversed, and spreads stay positive
+		s.min, s.max = s.max, s.min
+		s.stdDev, s.scale, s.noise = -s.stdDev, -s.scale, -s.noise
+	}
 	s.mean = s.mean*multiplier + offset
 	s.stdDev = s.stdDev * multiplier
 	s.location = s.location*multiplier + offset
-- 
2.43.0


From 52780a55caa322c596a4e6e1ef130b5b20c49cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:15 +0000
Subject: [PATCH 30/38] fix: histogram peak may lie in the last bin

---
 internal/stats/histogram.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/stats/histogram.go b/internal/stats/histogram.go
index 1f058f5..a1503ef 100644
--- a/internal/stats/histogram.go
+++ b/internal/stats/histogram.go
@@ -51,7 +51,11 @@ func GetPeak(bins []int32, min, max float32) (x, y float32) {
 	}
 
 	x = min + (float32(maxIndex)+0.5)*(max-min)/float32(len(bins)-1)
-	y = 0.5 * float32(bins[maxIndex]+bins[maxIndex+1])
+	next := maxIndex
+	if next+1 < len(bins) {
+		next++
+	}
+	y = 0.5 * float32(bins[maxIndex]+bins[next])
 	return x, y
 }
 
@@ -132,7 +136,11 @@ func GetPerceptualHistogramPeak(bins []int32, min, max float32) (x, y float32) {
 	x = fromPerceptualBins(float32(maxIndex)+0.5, min, max, len(bins))
 	//scale:=float32(math.Log(float64(max-min+1)))/float32(len(bins))
 	//x=min + float32(math.Exp(float64((float32(maxIndex)+0.5)*scale)))
-	y = 0.5 * float32(bins[maxIndex]+bins[maxIndex+1])
+	next := maxIndex
+	if next+1 < len(bins) {
+		next++
+	}
+	y = 0.5 * float32(bins[maxIndex]+bins[next])
 	return x, y
 }
 
-- 
2.43.0


From fa7f101a986ce5b88fe2439b293fa2728c2c2a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:56 +0000
Subject: [PATCH 31/38] fix: gaussian kernels narrower than a pixel

---
 internal/ops/stretch/usm.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/ops/stretch/usm.go b/internal/ops/stretch/usm.go
index 91ad6b0..8446e2a 100644
--- a/internal/ops/stretch/usm.go
+++ b/internal/ops/stretch/usm.go
@@ -47,7 +47,9 @@ func GaussianKernel1D(sigma float32) (kernel []float32) {
 	for {
 		val := GaussianDefiniteIntegral(mu, sigma, float32(-0.5)-float32(radius))
 		if val < acceptOut {
-			radius--
+			if radius > 0 {
+				radius--
+			}
 			break
 		}
 		radius++
-- 
2.43.0


From 4db7347e5787ac34f473fac32fa02bc42f97019d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 32/38] fix: gaussian filters larger than the image

---
 internal/ops/stretch/usm.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/ops/stretch/usm.go b/internal/ops/stretch/usm.go
index 8446e2a..dd674ea 100644
--- a/internal/ops/stretch/usm.go
+++ b/internal/ops/stretch/usm.go
@@ -23,11 +23,12 @@ const sqrt2 float32 = float32(math.Sqrt2)
 
 // Check if coordinate is within [0, size-1], and if not, reflect out of bounds coordinates back into the value range
 func reflect(size, x int) int {
-	if x < 0 {
-		return -x - 1
-	}
-	if x >= size {
-		return 2*size - x - 1
+	for x < 0 || x >= size { // reflects more than once for kernels larger than the image
+		if x < 0 {
+			x = -x - 1
+		} else {
+			x = 2*size - x - 1
+		}
 	}
 	return x
 }
-- 
2.43.0


From 56057d3d555af2f21fb00035adb338dc6da63415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:58 +0000
Subject: [PATCH 33/38] fix: blur and unsharp mask keep color channels apart
 and the statistics current

---
 internal/ops/stretch/stretch.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/ops/stretch/stretch.go b/internal/ops/stretch/stretch.go
index fdace99..ea3c606 100644
--- a/internal/ops/stretch/stretch.go
+++ b/internal/ops/stretch/stretch.go
@@ -371,7 +371,11 @@ func (op *OpGaussianBlur) Apply(f *fits.Image, c *ops.Context) (result *fits.Ima
 	kernel:=GaussianKernel1D(op.Sigma)
 	fmt.Fprintf(c.Log, "%d: Gaussian blur kernel sigma %.2f size %d: %v\n", 
 		        f.ID, op.Sigma, len(kernel), kernel)
-	f.Data=GaussianBlur(f.Data, int(f.Naxisn[0]), op.Sigma)
+	plane:=int(f.Naxisn[0])*int(f.Naxisn[1])
+	for start:=0; start+plane<=len(f.Data); start+=plane { // color channels do not blur into each other
+		GaussianBlur(f.Data[start:start+plane], int(f.Naxisn[0]), op.Sigma)
+	}
+	f.Stats.Clear()
 	return f, nil
 }
 
@@ -419,6 +423,11 @@ func (op *OpUnsharpMask) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	kernel:=GaussianKernel1D(op.Sigma)
 	fmt.Fprintf(c.Log, "%d: Unsharp masking kernel sigma %.2f size %d: %v\n", 
 		        f.ID, op.Sigma, len(kernel), kernel)
-	f.Data=UnsharpMask(f.Data, int(f.Naxisn[0]), op.Sigma, op.Gain, f.Stats.Min(), f.Stats.Max(), absThresh)
+	plane:=int(f.Naxisn[0])*int(f.Naxisn[1])
+	for start:=0; start+plane<=len(f.Data); start+=plane { // color channels do not blur into each other
+		channel:=f.Data[start:start+plane]
+		copy(channel, UnsharpMask(channel, int(f.Naxisn[0]), op.Sigma, op.Gain, f.Stats.Min(), f.Stats.Max(), absThresh))
+	}
+	f.Stats.Clear()
 	return f, nil
 }
-- 
2.43.0


From 7f9d5a66233ee1ff5e26521b7b9bc01055c5deb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:59 +0000
Subject: [PATCH 34/38] fix: statistics follow when the luminance channel is
 sharpened or replaced

---
 internal/fits/rgb.go    | 1 +
 internal/ops/hsl/hsl.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/internal/fits/rgb.go b/internal/fits/rgb.go
index ecf52ea..a4c5779 100644
--- a/internal/fits/rgb.go
+++ b/internal/fits/rgb.go
@@ -84,6 +84,7 @@ func (hsl *Image) ApplyLuminanceToCIExyY(lum *Image) {
 	l:=len(hsl.Data)/3
 	dest:=hsl.Data[2*l:]
 	copy(dest, lum.Data)
+	hsl.Stats.Clear()
 	hsl.Exposure+=lum.Exposure
 }
 
diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index 22bb3f0..79a78da 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -552,6 +552,7 @@ func (op *OpHSLUnsharpMask) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Ima
 	for i := range sharpened {
 		f.Data[2*f.Pixels/3+int32(i)] = sharpened[i]
 	}
+	f.Stats.Clear()
 	return f, nil
 }
 
-- 
2.43.0


From 6fad05eb9d5a17c9d3848202039c056c4ceca799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:28 +0000
Subject: [PATCH 35/38] fix: RGB to HSLuv conversion keeps the hue of colors
 with equal or zero u and v

---
 internal/fits/pixelops.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index 1402a7f..1224cf9 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -382,7 +382,7 @@ func pf3ChanRGBToHSLuv(rs,gs,bs []float32, params interface{}) {
 		r, g, b:=rs[i], gs[i], bs[i]
 
 		col:=colorful.LinearRgb(float64(r),float64(g),float64(b))
-		h,s,l:=col.HSLuv()
+		h,s,l:=colorToHSLuv(col)
 
 		rs[i], gs[i], bs[i]=float32(h), float32(s), float32(l) 
 	}
@@ -413,6 +413,17 @@ func pf3ChanHSLuvToRGB(rs,gs,bs []float32, params interface{}) {
 // default white, unfortunately defined as private in package colorful
 var hSLuvD65 = [3]float64{0.95045592705167, 1.0, 1.089057750759878}
 
+// convert color to HSLuv. Unlike col.HSLuv(), this keeps the hue of all colors which are not gray. 
+// The library returns hue zero, i.e. red, for any color with equal u and v, or with zero u
+func colorToHSLuv(col colorful.Color) (h, s, l float64) {
+	ll, u, v := col.LuvWhiteRef(hSLuvD65)
+	c:=math.Hypot(u, v)
+	if c>1e-6 {
+		h=math.Mod(math.Atan2(v, u)*180/math.Pi+360, 360)
+	}
+	return colorful.LuvLChToHSLuv(ll, c, h)
+}
+
 // convert HSLuv to linear RGB; faster; with color-preserving clamping
 func HSLuvToLinearRGB(h, s, l float32) (r, g, b float32) {
 	// HSLuv -> LuvLCh -> CIELUV -> CIEXYZ -> Linear RGB -> sRGB
@@ -565,7 +576,7 @@ func pf3ChanSCNR(hs,ss,ls []float32, params interface{}) {
 
 		// reassemble with luminance protection
 		col     =colorful.LinearRgb(float64(r),float64(weightedG),float64(b))
-		hnew,snew,_:=col.HSLuv()
+		hnew,snew,_:=colorToHSLuv(col)
 		hs[i], ss[i]=float32(hnew), float32(snew)        
 	}
 }
-- 
2.43.0


From 1458d67dabeea40dc09b1da98f11b7aea58b7556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:33 +0000
Subject: [PATCH 36/38] fix: IKSS estimator terminates when half of the pixels
 are equal

---
 internal/stats/stats.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 2c53652..8fb7c64 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -510,6 +510,9 @@ func bwmv(xs []float32, median float32, tmp []float32) float32 {
 	}
 	mad := qsort.QSelectMedianFloat32(mads)
 	mads = nil
+	if mad == 0 { // at least half of the values are equal
+		return 0
+	}
 
 	ys := tmp[:len(xs)]
 	for i, x := range xs {
-- 
2.43.0


From 24ee4cf616dbf0c32431c061fc5993f3490b62bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:23 +0000
Subject: [PATCH 37/38] fix: projection fills all color channels of an image,
 not only the first

---
 internal/fits/project.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/internal/fits/project.go b/internal/fits/project.go
index 785bc5b..de08112 100644
--- a/internal/fits/project.go
+++ b/internal/fits/project.go
@@ -31,13 +31,22 @@ func (img *Image) Project(destNaxisn []int32, trans star.Transform2D, outOfBound
 	}
 
 	// Create new FITS image for the result
-	destWidth := destNaxisn[0]
-	res = NewImageFromNaxisn(destNaxisn, nil)
+	resNaxisn := append([]int32{destNaxisn[0], destNaxisn[1]}, img.Naxisn[2:]...)
+	res = NewImageFromNaxisn(resNaxisn, nil)
 	res.ID, res.Exposure = img.ID, img.Exposure
 
-	// Resample image from the target coordinate system PoV
-	d := img.Data
-	origWidth := img.Naxisn[0]
+	// Project every color channel
+	l, resL := int(img.Naxisn[0]*img.Naxisn[1]), int(destNaxisn[0]*destNaxisn[1])
+	for lower, resLower := 0, 0; resLower < len(res.Data); lower, resLower = lower+l, resLower+resL {
+		projectPlane(res.Data[resLower:resLower+resL], destNaxisn, img.Data[lower:lower+l], img.Naxisn, invTrans, outOfBounds)
+	}
+	return res, nil
+}
+
+// Resamples a single channel of an image from the target coordinate system PoV
+func projectPlane(res []float32, destNaxisn []int32, d []float32, naxisn []int32, invTrans star.Transform2D, outOfBounds float32) {
+	destWidth := destNaxisn[0]
+	origWidth := naxisn[0]
 
 	for row := int32(0); row < destNaxisn[1]; row++ {
 		for col := int32(0); col < destWidth; col++ {
@@ -49,14 +58,14 @@ func (img *Image) Project(destNaxisn []int32, trans star.Transform2D, outOfBound
 			xh, yh := xl+1, yl+1
 			xr, yr := proj.X-float32(xl), proj.Y-float32(yl)
 
-			if xl < 0 || xh >= origWidth || yl < 0 || yh >= img.Naxisn[1] {
+			if xl < 0 || xh >= origWidth || yl < 0 || yh >= naxisn[1] {
 				// Replace out of bounds values with not a number.
 				// Stacking will exclude NaNs. Note, however, that
 				// other operations will fail miserably. Including
 				// all partitioning and sorting-based operations
 				// like median, because IEEE NaN does not compare
 				// equal to itself.
-				res.Data[col+row*destWidth] = outOfBounds
+				res[col+row*destWidth] = outOfBounds
 				continue
 			}
 
@@ -69,8 +78,7 @@ func (img *Image) Project(destNaxisn []int32, trans star.Transform2D, outOfBound
 			vyh := d[xlyh]*(1-xr) + d[xhyh]*xr
 			v := vyl*(1-yr) + vyh*yr
 
-			res.Data[col+row*destWidth] = v
+			res[col+row*destWidth] = v
 		}
 	}
-	return res, nil
 }
-- 
2.43.0


From 750aef792c6e5b77a060a428dee310eca6345033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:23 +0000
Subject: [PATCH 38/38] fix: binning bins every color channel instead of the
 number of channels

---
 internal/fits/fits.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/internal/fits/fits.go b/internal/fits/fits.go
index a1faf8a..a343dc2 100644
--- a/internal/fits/fits.go
+++ b/internal/fits/fits.go
@@ -166,7 +166,8 @@ func NewImageBinNxN(src *Image, n int32) *Image {
 	binnedPixels:=int32(1)
 	binnedNaxisn:=make([]int32, len(src.Naxisn))
 	for i,originalN:=range(src.Naxisn) {
-		binnedN:=originalN/n
+		binnedN:=originalN
+		if i<2 { binnedN/=n } // color channels are binned separately
 		binnedNaxisn[i]=binnedN
 		binnedPixels*=binnedN
 	}
@@ -174,6 +175,16 @@ func NewImageBinNxN(src *Image, n int32) *Image {
 	binned:=NewImageFromNaxisn(binnedNaxisn, nil)
 	binned.ID, binned.FileName, binned.Exposure = src.ID, src.FileName, src.Exposure
 
+	// bin every color channel
+	l, binnedL:=int(src.Naxisn[0]*src.Naxisn[1]), int(binnedNaxisn[0]*binnedNaxisn[1])
+	for lower, binnedLower:=0, 0; binnedLower<len(binned.Data); lower, binnedLower=lower+l, binnedLower+binnedL {
+		binPlaneNxN(binned.Data[binnedLower:binnedLower+binnedL], binnedNaxisn, src.Data[lower:lower+l], src.Naxisn[0], n)
+	}
+	return binned
+}
+
+// Apply NxN binning to a single channel of an image
+func binPlaneNxN(binned []float32, binnedNaxisn []int32, data []float32, width, n int32) {
 	// calculate binned image pixel values
 	// FIXME: pretty inefficient?
 	normalizer:=1.0/float32(n*n)
@@ -182,17 +193,15 @@ func NewImageBinNxN(src *Image, n int32) *Image {
 			sum:=float32(0)
 			for yoff:=int32(0); yoff<n; yoff++ {
 				for xoff:=int32(0); xoff<n; xoff++ {
-					origPos:=(y*n+yoff)*src.Naxisn[0] + (x*n+xoff)
-					sum+=src.Data[origPos]
+					origPos:=(y*n+yoff)*width + (x*n+xoff)
+					sum+=data[origPos]
 				}
 			}
 			avg:=sum*normalizer
-			binnedPos:=y*binned.Naxisn[0] + x
-			binned.Data[binnedPos]=avg
+			binnedPos:=y*binnedNaxisn[0] + x
+			binned[binnedPos]=avg
 		}		
 	}
-
-	return binned
 }
 
 
-- 
2.43.0

