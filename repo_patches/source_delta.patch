From fac798cf47a7927f0a30796e7825203d4400088b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:18 +0000
Subject: [PATCH 001/100] fix: invalidate statistics after applying luminance

---
 internal/fits/rgb.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/fits/rgb.go b/internal/fits/rgb.go
index ecf52ea..2a965a9 100644
--- a/internal/fits/rgb.go
+++ b/internal/fits/rgb.go
@@ -85,6 +85,7 @@ func (hsl *Image) ApplyLuminanceToCIExyY(lum *Image) {
 	dest:=hsl.Data[2*l:]
 	copy(dest, lum.Data)
 	hsl.Exposure+=lum.Exposure
+	hsl.Stats.Clear()
 }
 
 
-- 
2.43.0


From aba1112311e935c7b678327b5c447a84dac9496a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:18 +0000
Subject: [PATCH 002/100] fix: invalidate statistics after luminance unsharp
 masking

---
 internal/ops/hsl/hsl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index 22bb3f0..79a78da 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -552,6 +552,7 @@ func (op *OpHSLUnsharpMask) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Ima
 	for i := range sharpened {
 		f.Data[2*f.Pixels/3+int32(i)] = sharpened[i]
 	}
+	f.Stats.Clear()
 	return f, nil
 }
 
-- 
2.43.0


From 14de80c2e4e9f9354da446e3d647fe6e5c56dcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:18 +0000
Subject: [PATCH 003/100] fix: invalidate statistics after bad pixel removal

---
 internal/ops/pre/preprocess.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 2a2cfbf..e274add 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -197,6 +197,7 @@ func (op *OpBadPixel) Apply(f *fits.Image, c *ops.Context) (result *fits.Image,
 		fmt.Fprintf(c.Log, "%d: Removed %d bad bayer pixels (%.2f%%) with sigma low=%.2f high=%.2f\n",
 			f.ID, numRemoved, 100.0*float32(numRemoved)/float32(f.Pixels), op.SigmaLow, op.SigmaHigh)
 	}
+	f.Stats.Clear()
 	return f, nil
 }
 
-- 
2.43.0


From 1dea18a8c4b0f65fd6fe922687c0fa0900f95c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:18 +0000
Subject: [PATCH 004/100] fix: create new statistics for the debayered image

---
 internal/ops/pre/preprocess.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index e274add..49abfa8 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -24,6 +24,7 @@ import (
 	"github.com/mlnoga/nightlight/internal/fits"
 	"github.com/mlnoga/nightlight/internal/ops"
 	"github.com/mlnoga/nightlight/internal/star"
+	"github.com/mlnoga/nightlight/internal/stats"
 )
 
 type OpCalibrate struct {
@@ -244,6 +245,7 @@ func (op *OpDebayer) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, e
 	}
 	f.Pixels = int32(len(f.Data))
 	f.Naxisn[1] = f.Pixels / f.Naxisn[0]
+	f.Stats = stats.NewStats(f.Data, f.Naxisn[0])
 	fmt.Fprintf(c.Log, "%d: Debayered channel %s from cfa %s, new size %dx%d\n", f.ID, op.Channel, op.ColorFilterArray, f.Naxisn[0], f.Naxisn[1])
 
 	return f, nil
-- 
2.43.0


From ff8476817e5b85917d8bbc011df4f4d5ecacc8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:19 +0000
Subject: [PATCH 005/100] fix: point statistics to the blurred pixels

---
 internal/ops/stretch/stretch.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ops/stretch/stretch.go b/internal/ops/stretch/stretch.go
index fdace99..cb8df38 100644
--- a/internal/ops/stretch/stretch.go
+++ b/internal/ops/stretch/stretch.go
@@ -372,6 +372,7 @@ func (op *OpGaussianBlur) Apply(f *fits.Image, c *ops.Context) (result *fits.Ima
 	fmt.Fprintf(c.Log, "%d: Gaussian blur kernel sigma %.2f size %d: %v\n", 
 		        f.ID, op.Sigma, len(kernel), kernel)
 	f.Data=GaussianBlur(f.Data, int(f.Naxisn[0]), op.Sigma)
+	f.Stats.SetData(f.Data)
 	return f, nil
 }
 
-- 
2.43.0


From 5aafff4dbd728f95aed6fddb99f030808b309b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:19 +0000
Subject: [PATCH 006/100] fix: point statistics to the sharpened pixels

---
 internal/ops/stretch/stretch.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ops/stretch/stretch.go b/internal/ops/stretch/stretch.go
index cb8df38..195229c 100644
--- a/internal/ops/stretch/stretch.go
+++ b/internal/ops/stretch/stretch.go
@@ -421,5 +421,6 @@ func (op *OpUnsharpMask) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	fmt.Fprintf(c.Log, "%d: Unsharp masking kernel sigma %.2f size %d: %v\n", 
 		        f.ID, op.Sigma, len(kernel), kernel)
 	f.Data=UnsharpMask(f.Data, int(f.Naxisn[0]), op.Sigma, op.Gain, f.Stats.Min(), f.Stats.Max(), absThresh)
+	f.Stats.SetData(f.Data)
 	return f, nil
 }
-- 
2.43.0


From 3fb98b1baeda9ae13ebc6bf5e774f79b4a79a87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:19 +0000
Subject: [PATCH 007/100] fix: update cached statistics correctly for negative
 multipliers

---
 internal/stats/stats.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 9724bf9..8e5fb5b 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -89,13 +89,17 @@ func (s *Stats) Clear() {
 }
 
 func (s *Stats) UpdateCachedWith(multiplier, offset float32) {
+	absMultiplier := float32(math.Abs(float64(multiplier)))
+	if multiplier < 0 { // order reversed
+		s.min, s.max = s.max, s.min
+	}
 	s.min = s.min*multiplier + offset
 	s.max = s.max*multiplier + offset
 	s.mean = s.mean*multiplier + offset
-	s.stdDev = s.stdDev * multiplier
+	s.stdDev = s.stdDev * absMultiplier
 	s.location = s.location*multiplier + offset
-	s.scale = s.scale * multiplier
-	s.noise = s.noise * multiplier
+	s.scale = s.scale * absMultiplier
+	s.noise = s.noise * absMultiplier
 }
 
 func (s *Stats) Min() float32 {
-- 
2.43.0


From 02a1a3bca75f9cf9f5d4ed184c8cf6b1229cd49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:44 +0000
Subject: [PATCH 008/100] fix: store the blue channel of colour TIFF files
 within the image

---
 internal/fits/tiff16.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fits/tiff16.go b/internal/fits/tiff16.go
index 1c29b2c..439a726 100644
--- a/internal/fits/tiff16.go
+++ b/internal/fits/tiff16.go
@@ -169,7 +169,7 @@ func (f *Image) ReadTIFF(fileName string) error {
 	// allocate FITS image bitmap
 	f.Data = make([]float32, f.Pixels)
 	sizeThird := int(f.Pixels / 3)
-	sizeTwoThirds := int(f.Pixels * 2)
+	sizeTwoThirds := 2 * sizeThird
 
 	// keep running stats
 	min, max, sum := float32(math.MaxFloat32), float32(-math.MaxFloat32), float64(0)
-- 
2.43.0


From 7af91252a1bd2f2dcd19f744958e4e2dc35e5dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:45 +0000
Subject: [PATCH 009/100] fix: convert pixels of all TIFF color models, reject
 unsupported ones

---
 internal/fits/tiff16.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/fits/tiff16.go b/internal/fits/tiff16.go
index 439a726..b94a33b 100644
--- a/internal/fits/tiff16.go
+++ b/internal/fits/tiff16.go
@@ -17,6 +17,7 @@ package fits
 
 import (
 	"bufio"
+	"fmt"
 	"image"
 	"image/color"
 	"io"
@@ -154,6 +155,10 @@ func (f *Image) ReadTIFF(fileName string) error {
 	width, height := t.Bounds().Dx(), t.Bounds().Dy()
 	bitpix, channels := colorModelToBitpixAndChannels(t.ColorModel())
 
+	if channels == 0 {
+		return fmt.Errorf("%d: unsupported TIFF color model in %s", f.ID, fileName)
+	}
+
 	// set FITS metadata
 	f.Bitpix = bitpix
 	f.Naxisn = make([]int32, 3)
@@ -180,7 +185,7 @@ func (f *Image) ReadTIFF(fileName string) error {
 		for y := 0; y < height; y++ {
 			for x := 0; x < width; x++ {
 				// convert pixel
-				c := t.At(x, y).(color.Gray16)
+				c := color.Gray16Model.Convert(t.At(x, y)).(color.Gray16)
 				gray := float32(c.Y)
 				f.Data[y*width+x] = gray
 
@@ -199,7 +204,7 @@ func (f *Image) ReadTIFF(fileName string) error {
 		for y := 0; y < height; y++ {
 			for x := 0; x < width; x++ {
 				// convert pixel
-				c := t.At(x, y).(color.RGBA64)
+				c := color.RGBA64Model.Convert(t.At(x, y)).(color.RGBA64)
 				r, g, b := float32(c.R), float32(c.G), float32(c.B)
 				f.Data[y*width+x] = r
 				f.Data[y*width+x+sizeThird] = g
-- 
2.43.0


From 919d02494bf026ecc20f81062d0df0a3dc2c8b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:45 +0000
Subject: [PATCH 010/100] fix: calculate statistics of colour TIFF files from
 their pixels

---
 internal/fits/tiff16.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/internal/fits/tiff16.go b/internal/fits/tiff16.go
index b94a33b..13c8b27 100644
--- a/internal/fits/tiff16.go
+++ b/internal/fits/tiff16.go
@@ -210,23 +210,22 @@ func (f *Image) ReadTIFF(fileName string) error {
 				f.Data[y*width+x+sizeThird] = g
 				f.Data[y*width+x+sizeTwoThirds] = b
 
-				// convert r, g, b to greyscale value
-				gray := 0.2126*r + 0.7152*g + 0.0722*b
-
 				// update stats
-				if gray < min {
-					min = gray
+				for _, v := range []float32{r, g, b} {
+					if v < min {
+						min = v
+					}
+					if v > max {
+						max = v
+					}
+					sum += float64(v)
 				}
-				if gray > max {
-					max = gray
-				}
-				sum += float64(gray)
 			}
 		}
 	}
 
 	// finalize stats
-	mean := float32(sum / float64(width) / float64(height))
+	mean := float32(sum / float64(len(f.Data)))
 	f.Stats = stats.NewStatsWithMMM(f.Data, f.Naxisn[0], min, max, mean)
 
 	return nil
-- 
2.43.0


From f7de355c8d2ef7232793362d9b674c05107f3caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 011/100] fix: truncate existing FITS files when overwriting
 them

---
 internal/fits/write.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fits/write.go b/internal/fits/write.go
index 9d73889..c613eb2 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -31,7 +31,7 @@ import (
 // Compresses with gzip if .gz or gzip suffix is present.
 func (fits *Image) WriteFile(fileName string) error {
 	//fmt.Println("Reading from " + fileName + "..." )
-	f, err:=os.OpenFile(fileName, os.O_WRONLY |os.O_CREATE, 0644)
+	f, err:=os.OpenFile(fileName, os.O_WRONLY |os.O_CREATE |os.O_TRUNC, 0644)
 	if err!=nil { return err }
 	defer f.Close()
 
-- 
2.43.0


From 2edf71b84074f4843925c28d63f514f5527e3f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:51 +0000
Subject: [PATCH 012/100] fix: report errors on closing FITS files

---
 internal/fits/write.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/fits/write.go b/internal/fits/write.go
index c613eb2..f5bb98f 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -35,18 +35,18 @@ func (fits *Image) WriteFile(fileName string) error {
 	if err!=nil { return err }
 	defer f.Close()
 
-	var w io.Writer=f
-
 	// Compress gzip if .gz or .gzip suffix is present
 	ext:=path.Ext(fileName)
 	lExt:=strings.ToLower(ext)
 	if lExt==".gz" || lExt==".gzip" {
 		gw:=gzip.NewWriter(f)
-		defer gw.Close()
-		w=gw
-	} 
+		if err:=fits.Write(gw); err!=nil { return err }
+		if err:=gw.Close(); err!=nil { return err }
+	} else {
+		if err:=fits.Write(f); err!=nil { return err }
+	}
 
-	return fits.Write(w)
+	return f.Close()
 }
 
 
-- 
2.43.0


From f5b3a31232a4fcb8df0ad2b684a3bfbf209aa4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:52 +0000
Subject: [PATCH 013/100] fix: report errors on flushing and closing JPEG and
 TIFF files

---
 internal/fits/tiff16.go   | 20 ++++++++++++++------
 internal/fits/writejpg.go | 20 ++++++++++++++------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/internal/fits/tiff16.go b/internal/fits/tiff16.go
index 13c8b27..930c195 100644
--- a/internal/fits/tiff16.go
+++ b/internal/fits/tiff16.go
@@ -37,9 +37,13 @@ func (f *Image) WriteTIFF16ToFile(fileName string, min, max, gamma float32) erro
 	defer file.Close()
 
 	writer := bufio.NewWriter(file)
-	defer writer.Flush()
-
-	return f.WriteTIFF16(writer, min, max, gamma)
+	if err := f.WriteTIFF16(writer, min, max, gamma); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
+	return file.Close()
 }
 
 // Write a FITS image to 16-bit TIFF, using the given min, max and gamma.
@@ -100,9 +104,13 @@ func (f *Image) WriteMonoTIFF16ToFile(fileName string, min, max, gamma float32)
 	defer file.Close()
 
 	writer := bufio.NewWriter(file)
-	defer writer.Flush()
-
-	return f.WriteMonoTIFF16(writer, min, max, gamma)
+	if err := f.WriteMonoTIFF16(writer, min, max, gamma); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
+	return file.Close()
 }
 
 // Write a grayscale FITS image to 16-bit TIFF, using the given min, max and gamma.
diff --git a/internal/fits/writejpg.go b/internal/fits/writejpg.go
index 8581bb9..d522fa7 100644
--- a/internal/fits/writejpg.go
+++ b/internal/fits/writejpg.go
@@ -34,9 +34,13 @@ func (f *Image) WriteJPGToFile(fileName string, min, max, gamma float32, quality
 	defer file.Close()
 
 	writer := bufio.NewWriter(file)
-	defer writer.Flush()
-
-	return f.WriteJPG(writer, min, max, gamma, quality)
+	if err := f.WriteJPG(writer, min, max, gamma, quality); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
+	return file.Close()
 }
 
 // Write a FITS image to JPG, using the given min, max and gamma.
@@ -97,9 +101,13 @@ func (f *Image) WriteMonoJPGToFile(fileName string, min, max, gamma float32, qua
 	defer file.Close()
 
 	writer := bufio.NewWriter(file)
-	defer writer.Flush()
-
-	return f.WriteMonoJPG(writer, min, max, gamma, quality)
+	if err := f.WriteMonoJPG(writer, min, max, gamma, quality); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
+	return file.Close()
 }
 
 // Write a grayscale FITS image to JPG, using the given min, max and gamma.
-- 
2.43.0


From a385886df9e9112b79d78eca4555cccbc1f437dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:52 +0000
Subject: [PATCH 014/100] fix: report errors on saving JPEG and TIFF files

---
 internal/ops/operator.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index ff41e01..1a7ffcc 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -432,11 +432,11 @@ func (op *OpSave) Apply(f *fits.Image, c *Context) (result *fits.Image, err erro
 		if len(f.Naxisn) == 2 {
 			fmt.Fprintf(c.Log, "%d: Writing %s pixel mono 16-bit TIFF to %s with min=%g max=%g...\n",
 				f.ID, f.DimensionsToString(), fileName, min, max)
-			f.WriteMonoTIFF16ToFile(fileName, min, max, op.Gamma)
+			err = f.WriteMonoTIFF16ToFile(fileName, min, max, op.Gamma)
 		} else if len(f.Naxisn) == 3 && f.Naxisn[2] == 3 {
 			fmt.Fprintf(c.Log, "%d: Writing %s pixel color 16-bit TIFF to %s with min=%g max=%g...\n",
 				f.ID, f.DimensionsToString(), fileName, min, max)
-			f.WriteTIFF16ToFile(fileName, min, max, op.Gamma)
+			err = f.WriteTIFF16ToFile(fileName, min, max, op.Gamma)
 		} else {
 			return nil, fmt.Errorf("%d: unable to write %s pixel image as 16-bit TIFF to %s", f.ID, f.DimensionsToString(), fileName)
 		}
@@ -444,11 +444,11 @@ func (op *OpSave) Apply(f *fits.Image, c *Context) (result *fits.Image, err erro
 		if len(f.Naxisn) == 2 {
 			fmt.Fprintf(c.Log, "%d: Writing %s pixel mono JPEG to %s with min=%g max=%g gamma=%g...\n",
 				f.ID, f.DimensionsToString(), fileName, min, max, op.Gamma)
-			f.WriteMonoJPGToFile(fileName, min, max, op.Gamma, 95)
+			err = f.WriteMonoJPGToFile(fileName, min, max, op.Gamma, 95)
 		} else if len(f.Naxisn) == 3 && f.Naxisn[2] == 3 {
 			fmt.Fprintf(c.Log, "%d: Writing %s pixel color JPEG to %s with min=%g max=%g gamma=%g...\n",
 				f.ID, f.DimensionsToString(), fileName, min, max, op.Gamma)
-			f.WriteJPGToFile(fileName, min, max, op.Gamma, 95)
+			err = f.WriteJPGToFile(fileName, min, max, op.Gamma, 95)
 		} else {
 			return nil, fmt.Errorf("%d: unable to write %s pixel image as JPEG to %s", f.ID, f.DimensionsToString(), fileName)
 		}
-- 
2.43.0


From 49b7dcd2d712fc441880f22d111249eb98a00f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:32 +0000
Subject: [PATCH 015/100] fix: report errors on writing the statistics file

---
 internal/ops/ref/exportstats.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/internal/ops/ref/exportstats.go b/internal/ops/ref/exportstats.go
index 6516ef0..a0cf5df 100644
--- a/internal/ops/ref/exportstats.go
+++ b/internal/ops/ref/exportstats.go
@@ -79,7 +79,10 @@ func (op *OpExportStats) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	op.writeStats(f, c)
 	c.StatsProcessed++
 	if c.StatsProcessed == c.StatsTotal {
-		op.writeFooter(c)
+		err = op.writeFooter(c)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	return f, nil
@@ -106,14 +109,21 @@ func (op *OpExportStats) writeStats(f *fits.Image, c *ops.Context) {
 		f.ID, s.Min(), s.Mean(), s.Max(), s.Location(), s.Scale(), len(f.Stars), f.HFR)
 }
 
-func (op *OpExportStats) writeFooter(c *ops.Context) {
+func (op *OpExportStats) writeFooter(c *ops.Context) (err error) {
 	fmt.Fprintf(c.Log, "Writing statistics footer to file %s ...\n", op.FileName)
 	fmt.Fprintf(c.StatsBufWriter, "]")
 	c.StatsBufWriter.WriteString(sessionStatsTrailer)
-	c.StatsBufWriter.Flush()
+	err = c.StatsBufWriter.Flush()
 	c.StatsBufWriter = nil
-	c.StatsFile.Close()
+	errClose := c.StatsFile.Close()
 	c.StatsFile = nil
+	if err == nil {
+		err = errClose
+	}
+	if err != nil {
+		return fmt.Errorf("error writing file %s: %s", op.FileName, err.Error())
+	}
+	return nil
 }
 
 const sessionStatsHeader = `<html>
-- 
2.43.0


From 973d5309a916ff506475105affc32fab93a8263c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 016/100] fix: complete the statistics file when not stacking
 in batches

---
 internal/ops/operator.go           |  7 +---
 internal/ops/ref/exportstats.go    | 64 ++++++++++++++++++++++--------
 internal/ops/stack/stackbatches.go |  1 -
 3 files changed, 49 insertions(+), 23 deletions(-)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index 1a7ffcc..fb152b4 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -16,13 +16,11 @@
 package ops
 
 import (
-	"bufio"
 	"bytes"
 	"encoding/json"
 	"errors"
 	"fmt"
 	"io"
-	"os"
 	"path/filepath"
 	"runtime"
 	"strings"
@@ -49,10 +47,7 @@ type Context struct {
 	RefFrameError   error
 	LumFrame        *fits.Image
 
-	StatsTotal     int
-	StatsProcessed int
-	StatsFile      *os.File      `json:"-"` // the output file being written to. do not use directly
-	StatsBufWriter *bufio.Writer `json:"-"` // buffered writer for the output file. use this
+	StatsTotal int // total number of frames over all batches
 }
 
 func NewContext(log io.Writer, stMemory int, lsEstimatorMode stats.LSEstimatorMode) *Context {
diff --git a/internal/ops/ref/exportstats.go b/internal/ops/ref/exportstats.go
index a0cf5df..b35d9bf 100644
--- a/internal/ops/ref/exportstats.go
+++ b/internal/ops/ref/exportstats.go
@@ -32,6 +32,10 @@ type OpExportStats struct {
 	mutex        sync.Mutex    `json:"-"`
 	materialized []*fits.Image `json:"-"`
 	opError      error         `json:"-"`
+	total        int           // number of frames to export
+	processed    int           // number of frames processed so far
+	file         *os.File      // the output file being written to. do not use directly
+	bufWriter    *bufio.Writer // buffered writer for the output file. use this
 }
 
 func init() { ops.SetOperatorFactory(func() ops.Operator { return NewOpExportStatsDefault() }) } // register the operator for JSON decoding
@@ -60,9 +64,35 @@ func (op *OpExportStats) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
+// Exports statistics for each of the inputs. Frames dropped by earlier steps count as processed,
+// so the output file is always completed once all frames have been seen
+func (op *OpExportStats) MakePromises(ins []ops.Promise, c *ops.Context) (outs []ops.Promise, err error) {
+	if len(ins) == 0 {
+		return nil, fmt.Errorf("%s operator with %d inputs", op.Type, len(ins))
+	}
+	op.mutex.Lock()
+	defer op.mutex.Unlock()
+	if op.processed == op.total { // start a new file unless called for a further batch
+		op.total = len(ins)
+		if c.StatsTotal > op.total {
+			op.total = c.StatsTotal
+		}
+		op.processed = 0
+	}
+	for _, in := range ins {
+		in := in
+		outs = append(outs, func() (f *fits.Image, err error) {
+			if f, err = in(); err != nil {
+				return nil, err
+			}
+			return op.Apply(f, c)
+		})
+	}
+	return outs, nil
+}
+
 func (op *OpExportStats) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err error) {
 	if op.FileName == "" {
-		fmt.Fprintf(c.Log, "%d: exportStats empty fileName\n", f.ID)
 		return f, nil
 	}
 
@@ -70,15 +100,17 @@ func (op *OpExportStats) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	defer op.mutex.Unlock() // always release lock on exit
 
 	// write stats
-	if c.StatsProcessed == 0 {
+	if op.processed == 0 {
 		err = op.writeHeader(c)
 		if err != nil {
 			return nil, err
 		}
 	}
-	op.writeStats(f, c)
-	c.StatsProcessed++
-	if c.StatsProcessed == c.StatsTotal {
+	if f != nil {
+		op.writeStats(f, c)
+	}
+	op.processed++
+	if op.processed == op.total {
 		err = op.writeFooter(c)
 		if err != nil {
 			return nil, err
@@ -90,14 +122,14 @@ func (op *OpExportStats) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 
 func (op *OpExportStats) writeHeader(c *ops.Context) (err error) {
 	fmt.Fprintf(c.Log, "Writing statistics header to file %s ...\n", op.FileName)
-	c.StatsFile, err = os.Create(op.FileName)
+	op.file, err = os.Create(op.FileName)
 	if err != nil {
 		return fmt.Errorf("error creating file %s: %s", op.FileName, err.Error())
 	}
-	c.StatsBufWriter = bufio.NewWriter(c.StatsFile)
+	op.bufWriter = bufio.NewWriter(op.file)
 
-	c.StatsBufWriter.WriteString(sessionStatsHeader)
-	fmt.Fprintf(c.StatsBufWriter, "[  ['ID','Min','Mean','Max','Location','Scale','Stars','HFR']\n")
+	op.bufWriter.WriteString(sessionStatsHeader)
+	fmt.Fprintf(op.bufWriter, "[  ['ID','Min','Mean','Max','Location','Scale','Stars','HFR']\n")
 
 	return nil
 }
@@ -105,18 +137,18 @@ func (op *OpExportStats) writeHeader(c *ops.Context) (err error) {
 func (op *OpExportStats) writeStats(f *fits.Image, c *ops.Context) {
 	fmt.Fprintf(c.Log, "%d: writing statistics to file %s ...\n", f.ID, op.FileName)
 	s := f.Stats
-	fmt.Fprintf(c.StatsBufWriter, "  ,[%d,%f,%f,%f,%f,%f,%d,%f]\n",
+	fmt.Fprintf(op.bufWriter, "  ,[%d,%f,%f,%f,%f,%f,%d,%f]\n",
 		f.ID, s.Min(), s.Mean(), s.Max(), s.Location(), s.Scale(), len(f.Stars), f.HFR)
 }
 
 func (op *OpExportStats) writeFooter(c *ops.Context) (err error) {
 	fmt.Fprintf(c.Log, "Writing statistics footer to file %s ...\n", op.FileName)
-	fmt.Fprintf(c.StatsBufWriter, "]")
-	c.StatsBufWriter.WriteString(sessionStatsTrailer)
-	err = c.StatsBufWriter.Flush()
-	c.StatsBufWriter = nil
-	errClose := c.StatsFile.Close()
-	c.StatsFile = nil
+	fmt.Fprintf(op.bufWriter, "]")
+	op.bufWriter.WriteString(sessionStatsTrailer)
+	err = op.bufWriter.Flush()
+	op.bufWriter = nil
+	errClose := op.file.Close()
+	op.file = nil
 	if err == nil {
 		err = errClose
 	}
diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index 53c9570..83faef7 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -61,7 +61,6 @@ func (op *OpStackBatches) Apply(ins []ops.Promise, c *ops.Context) (fOut *fits.I
 	}
 	c.MaxThreads = int(maxThreads)
 	c.StatsTotal = len(insPerm)
-	c.StatsProcessed = 0
 
 	// Process each batch. The first batch sets the reference image
 	stack := (*fits.Image)(nil)
-- 
2.43.0


From 624d4293e52fbc0230646b1b3bd4062dfef3184c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 017/100] fix: report errors on starting the server

---
 internal/rest/serve.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/rest/serve.go b/internal/rest/serve.go
index 0228cd5..5f207cb 100755
--- a/internal/rest/serve.go
+++ b/internal/rest/serve.go
@@ -20,6 +20,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"log"
 	"net/http"
 	"runtime/debug"
 
@@ -58,7 +59,8 @@ func Serve(port, theStMemory int) {
 			v1.StaticFS("/files", http.Dir("."))
 		}
 	}
-	r.Run(fmt.Sprintf(":%d", port)) // listen and serve on 0.0.0.0:port
+	err := r.Run(fmt.Sprintf(":%d", port)) // listen and serve on 0.0.0.0:port
+	log.Fatalf("Error serving on port %d: %s\n", port, err.Error())
 }
 
 func CORSMiddleware() gin.HandlerFunc {
-- 
2.43.0


From 44a5e80ef6b6b10e611a749bf4adf50f4859b307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 018/100] fix: report errors on writing profile files

---
 cmd/nightlight/main.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cmd/nightlight/main.go b/cmd/nightlight/main.go
index d04d5fe..c87a0c6 100644
--- a/cmd/nightlight/main.go
+++ b/cmd/nightlight/main.go
@@ -214,12 +214,17 @@ Flags:
 			fmt.Fprintf(logWriter, "Could not create CPU profile: %s\n", err)
 			os.Exit(-1)
 		}
-		defer f.Close()
 		if err := pprof.StartCPUProfile(f); err != nil {
 			fmt.Fprintf(logWriter, "Could not start CPU profile: %s\n", err)
 			os.Exit(-1)
 		}
-		defer pprof.StopCPUProfile()
+		defer func() {
+			pprof.StopCPUProfile()
+			if err := f.Close(); err != nil {
+				fmt.Fprintf(logWriter, "Could not write CPU profile: %s\n", err)
+				os.Exit(-1)
+			}
+		}()
 	}
 
 	args := flag.Args()
@@ -435,12 +440,15 @@ Flags:
 			fmt.Fprintf(logWriter, "Could not create memory profile: %s\n", err)
 			os.Exit(-1)
 		}
-		defer f.Close()
 		runtime.GC() // get up-to-date statistics
 		if err := pprof.Lookup("allocs").WriteTo(f, 0); err != nil {
 			fmt.Fprintf(logWriter, "Could not write allocation profile: %s\n", err)
 			os.Exit(-1)
 		}
+		if err := f.Close(); err != nil {
+			fmt.Fprintf(logWriter, "Could not write allocation profile: %s\n", err)
+			os.Exit(-1)
+		}
 	}
 }
 
-- 
2.43.0


From 2a944680b59c1b8459caddcc77097958cedccce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:36 +0000
Subject: [PATCH 019/100] fix: read FITS data completely from streams with
 short reads

---
 internal/fits/read.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index 043aea4..a3c0408 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -184,7 +184,7 @@ func (fits *Image) readInt8Data(r io.Reader) error {
 		if bytesToRead > bufLen {
 			bytesToRead = bufLen
 		}
-		bytesRead, err := r.Read(buf[:bytesToRead])
+		bytesRead, err := io.ReadFull(r, buf[:bytesToRead])
 		if err != nil {
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
@@ -224,7 +224,7 @@ func (fits *Image) readInt16Data(r io.Reader) error {
 		if bytesToRead > bufLen {
 			bytesToRead = bufLen
 		}
-		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
+		bytesRead, err := io.ReadFull(r, buf[leftoverBytes:leftoverBytes+bytesToRead])
 		if err != nil {
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
@@ -270,7 +270,7 @@ func (fits *Image) readInt32Data(r io.Reader) error {
 		if bytesToRead > bufLen {
 			bytesToRead = bufLen
 		}
-		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
+		bytesRead, err := io.ReadFull(r, buf[leftoverBytes:leftoverBytes+bytesToRead])
 		if err != nil {
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
@@ -316,7 +316,7 @@ func (fits *Image) readInt64Data(r io.Reader) error {
 		if bytesToRead > bufLen {
 			bytesToRead = bufLen
 		}
-		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
+		bytesRead, err := io.ReadFull(r, buf[leftoverBytes:leftoverBytes+bytesToRead])
 		if err != nil {
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
@@ -363,7 +363,7 @@ func (fits *Image) readFloat32Data(r io.Reader) error {
 		if bytesToRead > bufLen {
 			bytesToRead = bufLen
 		}
-		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
+		bytesRead, err := io.ReadFull(r, buf[leftoverBytes:leftoverBytes+bytesToRead])
 		if err != nil {
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
@@ -410,7 +410,7 @@ func (fits *Image) readFloat64Data(r io.Reader) error {
 		if bytesToRead > bufLen {
 			bytesToRead = bufLen
 		}
-		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
+		bytesRead, err := io.ReadFull(r, buf[leftoverBytes:leftoverBytes+bytesToRead])
 		if err != nil {
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
-- 
2.43.0


From e9f670a79d437c419bc27cde6ec3ebfa6529cd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:37 +0000
Subject: [PATCH 020/100] fix: reject FITS files with invalid dimensions

---
 internal/fits/read.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index a3c0408..67be904 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -110,6 +110,9 @@ func (fits *Image) Read(f io.Reader, readData bool, logWriter io.Writer) (err er
 	if naxis, err = fits.PopHeaderInt32("NAXIS"); err != nil {
 		return err
 	}
+	if naxis < 1 || naxis > 999 {
+		return fmt.Errorf("%d: Unsupported number of axes NAXIS=%d", fits.ID, naxis)
+	}
 	fits.Naxisn = make([]int32, naxis)
 	fits.Pixels = int32(1)
 	for i := int32(1); i <= naxis; i++ {
@@ -118,6 +121,9 @@ func (fits *Image) Read(f io.Reader, readData bool, logWriter io.Writer) (err er
 		if nai, err = fits.PopHeaderInt32(name); err != nil {
 			return err
 		}
+		if nai < 1 || int64(fits.Pixels)*int64(nai) > math.MaxInt32 {
+			return fmt.Errorf("%d: Unsupported image dimension %s=%d", fits.ID, name, nai)
+		}
 		fits.Naxisn[i-1] = nai
 		fits.Pixels *= int32(nai)
 	}
-- 
2.43.0


From 60e3ef0ffc906a7ec08afbe5700c6a6d356f2705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:37 +0000
Subject: [PATCH 021/100] fix: append comments to the comments of a FITS header

---
 internal/fits/read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index 67be904..0c31c78 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -485,7 +485,7 @@ func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int,
 			case byte('H'): // history line
 				h.History = append(h.History, string(subValues[i]))
 			case byte('C'): // comment line
-				h.Comments = append(h.History, string(subValues[i]))
+				h.Comments = append(h.Comments, string(subValues[i]))
 			case byte('k'): // key
 				key = string(subValues[i])
 			case byte('b'): // boolean
-- 
2.43.0


From b2d89ac4a1f1e7af58503d7139177cda13569f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:38 +0000
Subject: [PATCH 022/100] fix: avoid wrapping large integers in FITS headers

---
 internal/fits/read.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index 0c31c78..f608f38 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -495,8 +495,10 @@ func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int,
 				}
 			case byte('i'): // int
 				val, err := strconv.ParseInt(string(subValues[i]), 10, 64)
-				if err == nil {
+				if err == nil && val >= math.MinInt32 && val <= math.MaxInt32 {
 					h.Ints[key] = int32(val)
+				} else if err == nil {
+					h.Floats[key] = float32(val)
 				}
 			case byte('f'): // float
 				val, err := strconv.ParseFloat(string(subValues[i]), 64)
-- 
2.43.0


From 84dd3abd379649e641bed748e86d29d16c4ec9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:38 +0000
Subject: [PATCH 023/100] fix: parse all forms of floating point numbers in
 FITS headers

---
 internal/fits/read.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index f608f38..2aa58c4 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -501,7 +501,7 @@ func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int,
 					h.Floats[key] = float32(val)
 				}
 			case byte('f'): // float
-				val, err := strconv.ParseFloat(string(subValues[i]), 64)
+				val, err := strconv.ParseFloat(strings.NewReplacer("D", "E", "d", "e").Replace(string(subValues[i])), 64)
 				if err == nil {
 					h.Floats[key] = float32(val)
 				}
@@ -550,7 +550,7 @@ func compileRE() *regexp.Regexp {
 
 	boo := "(?P<b>[TF])"
 	inte := "(?P<i>[+-]?[0-9]+)"
-	floa := "(?P<f>[+-]?[0-9]*\\.[0-9]*(?:[ED][-+]?[0-9]+)?)"
+	floa := "(?P<f>[+-]?(?:[0-9]+\\.?[0-9]*|\\.[0-9]+)(?:[EDed][-+]?[0-9]+)?)"
 	stri := "'(?P<s>[^']*)'"
 	date := "(?P<d>[0-9]{1,4}-?[012][0-9]-?[0123][0-9]T[012][0-9]:?[0-5][0-9]:?[0-5][0-9].?[0-9]*)" // FIXME: other variants possible, see ISO8601
 	val := "(?:" + boo + "|" + inte + "|" + floa + "|" + stri + "|" + date + ")"
-- 
2.43.0


From 588865b27281a14371c03f2e570b0cb65d766809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:39 +0000
Subject: [PATCH 024/100] fix: write string keywords of FITS headers only once

---
 internal/fits/write.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/internal/fits/write.go b/internal/fits/write.go
index f5bb98f..f73b17e 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -94,7 +94,6 @@ func (h *Header) Write(w io.Writer) {
 	for k,v:=range(h.Ints   ) { writeInt32  (w, k, v, "") }
 	for k,v:=range(h.Floats ) { writeFloat32(w, k, v, "") }
 	for k,v:=range(h.Strings) { writeString (w, k, v, "") }
-	for k,v:=range(h.Strings) { writeString (w, k, v, "") }
 	for k,v:=range(h.Dates  ) { writeString (w, k, v, "") }
 	// FIXME: ignoring h.Comments and h.History for now
 }
-- 
2.43.0


From 8d39dbeee10d26778bc53ce9b1c4d95c9bd82dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:00 +0000
Subject: [PATCH 025/100] fix: write FITS header keywords in reproducible order

---
 internal/fits/write.go | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/internal/fits/write.go b/internal/fits/write.go
index f73b17e..3f91a77 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -23,6 +23,7 @@ import (
 	"math"
 	"os"
 	"path"
+	"sort"
 	"strings"
 )
 
@@ -90,11 +91,31 @@ func (fits *Image) Write(f io.Writer) error {
 
 // Write additional header key/value pairs, if any
 func (h *Header) Write(w io.Writer) {
-	for k,v:=range(h.Bools  ) { writeBool   (w, k, v, "") }
-	for k,v:=range(h.Ints   ) { writeInt32  (w, k, v, "") }
-	for k,v:=range(h.Floats ) { writeFloat32(w, k, v, "") }
-	for k,v:=range(h.Strings) { writeString (w, k, v, "") }
-	for k,v:=range(h.Dates  ) { writeString (w, k, v, "") }
+	keys:=[]string{} // ascending order of keys, for reproducible output
+	for k:=range(h.Bools) { keys=append(keys, k) }
+	sort.Strings(keys)
+	for _,k:=range(keys) { writeBool(w, k, h.Bools[k], "") }
+
+	keys=keys[:0]
+	for k:=range(h.Ints) { keys=append(keys, k) }
+	sort.Strings(keys)
+	for _,k:=range(keys) { writeInt32(w, k, h.Ints[k], "") }
+
+	keys=keys[:0]
+	for k:=range(h.Floats) { keys=append(keys, k) }
+	sort.Strings(keys)
+	for _,k:=range(keys) { writeFloat32(w, k, h.Floats[k], "") }
+
+	keys=keys[:0]
+	for k:=range(h.Strings) { keys=append(keys, k) }
+	sort.Strings(keys)
+	for _,k:=range(keys) { writeString(w, k, h.Strings[k], "") }
+
+	keys=keys[:0]
+	for k:=range(h.Dates) { keys=append(keys, k) }
+	sort.Strings(keys)
+	for _,k:=range(keys) { writeString(w, k, h.Dates[k], "") }
+
 	// FIXME: ignoring h.Comments and h.History for now
 }
 
-- 
2.43.0


From 2d1de958703cecdc94aadcf15dbbb3abbb974693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:37 +0000
Subject: [PATCH 026/100] fix: save the extracted background image when asked
 to

---
 internal/ops/pre/preprocess.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 49abfa8..4f62769 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -390,7 +390,11 @@ func (op *OpBackExtract) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 		bgData := bg.Render()
 		bgFits := fits.NewImageFromNaxisn(f.Naxisn, bgData)
 		promise := func() (f *fits.Image, err error) { return bgFits, nil }
-		_, err := op.Save.MakePromises([]ops.Promise{promise}, c)
+		promises, err := op.Save.MakePromises([]ops.Promise{promise}, c)
+		if err != nil {
+			return nil, err
+		}
+		_, err = ops.MaterializeAll(promises, c.MaxThreads, true)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From bac8e7cbae0d72327fa98e36e2581d5221018a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:37 +0000
Subject: [PATCH 027/100] fix: evaluate the first frame only once when stacking
 in batches

---
 internal/ops/stack/stackbatches.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index 83faef7..733ebe4 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -130,8 +130,17 @@ func (op *OpStackBatches) partition(ins []ops.Promise, c *ops.Context) (insPerm
 		if err != nil {
 			return nil, 0, 0, 0, err
 		}
+		if first == nil || len(first.Naxisn) < 2 {
+			return nil, 0, 0, 0, errors.New("First input frame is missing, unable to estimate memory needs")
+		}
 		fmt.Fprintf(c.Log, "\nEstimating memory needs for %d images from %s:\n", numFrames, first.FileName)
 		width, height = int64(first.Naxisn[0]), int64(first.Naxisn[1])
+		// hand on the frame already evaluated instead of evaluating it again
+		evaluated := func() (f *fits.Image, err error) {
+			f, first = first, nil // free memory once handed on
+			return f, nil
+		}
+		ins = append([]ops.Promise{evaluated}, ins[1:]...)
 	} else {
 		return nil, 0, 0, 0, errors.New("No input files to prepare batches")
 	}
-- 
2.43.0


From 068f60675cd4e96d0cc56279c365389cd89b3cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:37 +0000
Subject: [PATCH 028/100] fix: do not drop frames when stacking in batches

---
 internal/ops/stack/stackbatches.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index 733ebe4..6133041 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -188,6 +188,8 @@ func (op *OpStackBatches) partition(ins []ops.Promise, c *ops.Context) (insPerm
 	if maxThreads < 1 || batchSize < 2 {
 		return nil, 0, 0, 0, errors.New("Cannot find a stacking execution path within the given memory constraints.")
 	}
+	// the number of batches follows from the final batch size
+	numBatches = (numFrames + batchSize - 1) / batchSize
 	// even out size of the last frame
 	for ; (batchSize-1)*numBatches >= numFrames; batchSize-- {
 	}
-- 
2.43.0


From 732572477de400a73120fa06930cde39a56689dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:38 +0000
Subject: [PATCH 029/100] fix: skip frames dropped by an earlier step in all
 unary operators

---
 internal/ops/operator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index fb152b4..a6c8244 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -194,6 +194,9 @@ func (op *OpUnaryBase) MakePromise(in Promise, c *Context) (out Promise) {
 		if f, err = in(); err != nil {
 			return nil, err
 		} // materialize input promise
+		if f == nil {
+			return nil, nil
+		} // frame was dropped by an earlier step, nothing to do
 		if f, err = op.Apply(f, c); err != nil {
 			return nil, err
 		} // apply unary operator
-- 
2.43.0


From a9c34cbd9a929a608a0d4605a7bc15cab15321ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:20 +0000
Subject: [PATCH 030/100] fix: hand each selected frame to its own promise and
 evaluate inputs once

---
 internal/ops/ref/refframe.go | 61 +++++++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 18 deletions(-)

diff --git a/internal/ops/ref/refframe.go b/internal/ops/ref/refframe.go
index 71e021c..0a4f4a5 100644
--- a/internal/ops/ref/refframe.go
+++ b/internal/ops/ref/refframe.go
@@ -44,7 +44,13 @@ type OpSelectReference struct {
 	Mode         string            `json:"mode"`
 	StarDetect   *pre.OpStarDetect `json:"starDetect"`
 	mutex        sync.Mutex        `json:"-"`
-	materialized []*fits.Image     `json:"-"`
+}
+
+// Input frames materialized while selecting a reference, in the order of the input promises.
+// Shared by the output promises created together
+type selection struct {
+	done         bool          // true if the input promises have been evaluated
+	materialized []*fits.Image // nil for dropped frames, and once handed on
 }
 
 func init() { ops.SetOperatorFactory(func() ops.Operator { return NewOpSelectReferenceDefault() }) } // register the operator for JSON decoding
@@ -85,29 +91,30 @@ func (op *OpSelectReference) MakePromises(ins []ops.Promise, c *ops.Context) (ou
 	}
 
 	outs = make([]ops.Promise, len(ins))
+	sel := &selection{}
 	for i, _ := range ins {
-		outs[i] = op.applySingle(i, ins, c)
+		outs[i] = op.applySingle(i, ins, sel, c)
 	}
 	return outs, nil
 }
 
-func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, c *ops.Context) ops.Promise {
+func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, sel *selection, c *ops.Context) ops.Promise {
 	return func() (f *fits.Image, err error) {
 		op.mutex.Lock()             // lock so a single thread accesses the reference frame
 		if c.RefFrameError != nil { // if reference frame detection failed in a prior thread
 			op.mutex.Unlock() // return immediately with the same error
 			return nil, errors.New("same error")
 		}
+		if sel.done { // if the input has already been materialized
+			defer op.mutex.Unlock()
+			mat := sel.materialized[i]
+			sel.materialized[i] = nil // remove reference to free memory
+			return mat, nil
+		}
 		if (op.Target == SRAlign && c.AlignStars != nil) ||
 			(op.Target == SRHisto && c.MatchHisto != nil) { // if a reference frame already exists
 			op.mutex.Unlock() // unlock immediately to allow ...
-			if op.materialized == nil || op.materialized[i] == nil {
-				return ins[i]() // ... materializations to be parallelized by the caller
-			} else {
-				mat := op.materialized[i]
-				op.materialized[i] = nil // remove reference to free memory
-				return mat, nil
-			}
+			return ins[i]()   // ... materializations to be parallelized by the caller
 		}
 		defer op.mutex.Unlock() // else release lock later when reference frame is computed
 
@@ -151,14 +158,15 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, c *ops.Contex
 		}
 
 		// otherwise, materialize the input promises
-		op.materialized, c.RefFrameError = ops.MaterializeAll(ins, c.MaxThreads, false)
+		sel.materialized, c.RefFrameError = materializeInPlace(ins, c)
 		if c.RefFrameError != nil {
 			return nil, c.RefFrameError
 		}
+		sel.done = true
 
 		// Auto-select mode for (L)RGB
 		if mode == "%rgb" {
-			if len(op.materialized) > 3 {
+			if len(sel.materialized) > 3 {
 				mode, fileID, atoiErr = "3", 3, nil
 			} else {
 				mode = "%starsHFR"
@@ -169,15 +177,15 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, c *ops.Contex
 		var refScore float32
 		var refFrame *fits.Image
 		if mode == "%starsHFR" {
-			refFrame, refScore, c.RefFrameError = selectReferenceStarsOverHFR(op.materialized)
+			refFrame, refScore, c.RefFrameError = selectReferenceStarsOverHFR(sel.materialized)
 		} else if mode == "%location" {
-			refFrame, refScore, c.RefFrameError = selectReferenceMedianLoc(op.materialized, c)
+			refFrame, refScore, c.RefFrameError = selectReferenceMedianLoc(sel.materialized, c)
 		} else if atoiErr == nil {
-			if fileID < 0 || fileID >= len(op.materialized) {
+			if fileID < 0 || fileID >= len(sel.materialized) {
 				c.RefFrameError = errors.New(fmt.Sprintf("invalid reference file ID %d", fileID))
 				return nil, c.RefFrameError
 			}
-			refFrame = op.materialized[fileID]
+			refFrame = sel.materialized[fileID]
 		} else {
 			c.RefFrameError = errors.New(fmt.Sprintf("Unknown refrence selection mode '%s'", op.Mode))
 		}
@@ -191,12 +199,29 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, c *ops.Contex
 		op.assignResults(c, refFrame)
 
 		// return promise for the materialized image of this instance
-		mat := op.materialized[i]
-		op.materialized[i] = nil // remove reference
+		mat := sel.materialized[i]
+		sel.materialized[i] = nil // remove reference
 		return mat, nil
 	}
 }
 
+// Materializes all input promises, keeping each frame at the position of its promise.
+// Dropped frames leave a nil entry
+func materializeInPlace(ins []ops.Promise, c *ops.Context) (outs []*fits.Image, err error) {
+	outs = make([]*fits.Image, len(ins))
+	slots := make([]ops.Promise, len(ins))
+	for i, in := range ins {
+		i, in := i, in
+		slots[i] = func() (f *fits.Image, err error) {
+			f, err = in()
+			outs[i] = f
+			return f, err
+		}
+	}
+	_, err = ops.MaterializeAll(slots, c.MaxThreads, true)
+	return outs, err
+}
+
 func (op *OpSelectReference) assignResults(c *ops.Context, refFrame *fits.Image) {
 	if op.Target == SRAlign {
 		c.AlignNaxisn = refFrame.Naxisn
-- 
2.43.0


From 6d94be81706a336943657cecaa4428c2fc1c8914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:21 +0000
Subject: [PATCH 031/100] fix: reject missing reference frames and invalid
 reference targets

---
 internal/ops/ref/refframe.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/internal/ops/ref/refframe.go b/internal/ops/ref/refframe.go
index 0a4f4a5..4a22963 100644
--- a/internal/ops/ref/refframe.go
+++ b/internal/ops/ref/refframe.go
@@ -151,7 +151,13 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, sel *selectio
 			if c.RefFrameError != nil {
 				return nil, c.RefFrameError
 			}
-			op.assignResults(c, refFrame)
+			if refFrame == nil {
+				c.RefFrameError = errors.New("reference frame " + refFileName + " is missing")
+				return nil, c.RefFrameError
+			}
+			if c.RefFrameError = op.assignResults(c, refFrame); c.RefFrameError != nil {
+				return nil, c.RefFrameError
+			}
 
 			fmt.Fprintf(c.Log, "using loaded image %d as %s reference\n", refFrame.ID, srTargetStrings[op.Target])
 			return ins[i]()
@@ -195,8 +201,10 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, sel *selectio
 		if c.RefFrameError != nil {
 			return nil, c.RefFrameError
 		}
+		if c.RefFrameError = op.assignResults(c, refFrame); c.RefFrameError != nil {
+			return nil, c.RefFrameError
+		}
 		fmt.Fprintf(c.Log, "Using image %d with score %.4g as %s reference.\n", refFrame.ID, refScore, srTargetStrings[op.Target])
-		op.assignResults(c, refFrame)
 
 		// return promise for the materialized image of this instance
 		mat := sel.materialized[i]
@@ -222,7 +230,7 @@ func materializeInPlace(ins []ops.Promise, c *ops.Context) (outs []*fits.Image,
 	return outs, err
 }
 
-func (op *OpSelectReference) assignResults(c *ops.Context, refFrame *fits.Image) {
+func (op *OpSelectReference) assignResults(c *ops.Context, refFrame *fits.Image) error {
 	if op.Target == SRAlign {
 		c.AlignNaxisn = refFrame.Naxisn
 		c.AlignStars = refFrame.Stars
@@ -230,8 +238,9 @@ func (op *OpSelectReference) assignResults(c *ops.Context, refFrame *fits.Image)
 	} else if op.Target == SRHisto {
 		c.MatchHisto = refFrame.Stats
 	} else {
-		fmt.Fprintf(c.Log, "Invalid reference selection target %d, skipping.\n", op.Target)
+		return fmt.Errorf("invalid reference selection target %d", op.Target)
 	}
+	return nil
 }
 
 func selectReferenceStarsOverHFR(lights []*fits.Image) (refFrame *fits.Image, refScore float32, err error) {
-- 
2.43.0


From e7e87d66d78e85bc35eab06cb75e70d848bf1c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:09 +0000
Subject: [PATCH 032/100] fix: leave the shared luminance frame unmodified when
 applying it

---
 internal/ops/hsl/hsl.go | 8 ++++----
 internal/ops/rgb/rgb.go | 1 +
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index 79a78da..62bdefd 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -61,12 +61,12 @@ func (op *OpHSLApplyLum) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image,
 		return f, nil
 	}
 	fmt.Fprintf(c.Log, "Converting mono luminance image to HSLuv as well...\n")
-	c.LumFrame.MonoToHSLuvLum()
+	lum := fits.NewImageFromImage(c.LumFrame) // convert a copy, the original is shared between frames
+	copy(lum.Data, c.LumFrame.Data)
+	lum.MonoToHSLuvLum()
 
 	fmt.Fprintf(c.Log, "Applying luminance image to luminance channel...\n")
-	f.ApplyLuminanceToCIExyY(c.LumFrame)
-
-	c.LumFrame = nil // free memory
+	f.ApplyLuminanceToCIExyY(lum)
 	return f, nil
 }
 
diff --git a/internal/ops/rgb/rgb.go b/internal/ops/rgb/rgb.go
index f530d65..9c370e0 100644
--- a/internal/ops/rgb/rgb.go
+++ b/internal/ops/rgb/rgb.go
@@ -71,6 +71,7 @@ func (op *OpRGBCombine) Apply(fs []*fits.Image, c *ops.Context) (fOut *fits.Imag
 	if len(fs) < 3 || len(fs) > 4 {
 		return nil, fmt.Errorf("invalid number of channels for color combination: %d", len(fs))
 	}
+	c.LumFrame = nil
 	if len(fs) == 4 {
 		c.LumFrame = fs[3]
 	}
-- 
2.43.0


From ad0fe022ec7cb332c54192634ab72db39ceeb3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:10 +0000
Subject: [PATCH 033/100] fix: load each calibration master once, under a lock
 shared by all users

---
 internal/ops/operator.go       |  19 +++---
 internal/ops/pre/preprocess.go | 111 +++++++++++++++++++--------------
 2 files changed, 75 insertions(+), 55 deletions(-)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index a6c8244..60f5d66 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -24,6 +24,7 @@ import (
 	"path/filepath"
 	"runtime"
 	"strings"
+	"sync"
 
 	"github.com/mlnoga/nightlight/internal/fits"
 	"github.com/mlnoga/nightlight/internal/star"
@@ -38,14 +39,16 @@ type Context struct {
 	MemoryMB        int // memory.TotalMemory()/1024/1024
 	StackMemoryMB   int // MemoryMB*7/10
 	MaxThreads      int `json:"maxThreads"`
-	DarkFrame       *fits.Image
-	FlatFrame       *fits.Image
-	AlignNaxisn     []int32
-	AlignStars      []star.Star
-	AlignHFR        float32
-	MatchHisto      *stats.Stats
-	RefFrameError   error
-	LumFrame        *fits.Image
+
+	Mutex         sync.Mutex // guards the masters and reference data shared by concurrently processed frames
+	DarkFrame     *fits.Image
+	FlatFrame     *fits.Image
+	AlignNaxisn   []int32
+	AlignStars    []star.Star
+	AlignHFR      float32
+	MatchHisto    *stats.Stats
+	RefFrameError error
+	LumFrame      *fits.Image
 
 	StatsTotal int // total number of frames over all batches
 }
diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 4f62769..65b9621 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -67,80 +67,97 @@ func (op *OpCalibrate) UnmarshalJSON(data []byte) error {
 }
 
 func (op *OpCalibrate) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err error) {
-	if err = op.init(c); err != nil {
+	if f == nil {
+		return nil, nil
+	}
+	dark, flat, flatMax, err := op.init(c) // lazy init of dark and flat frames
+	if err != nil {
 		return nil, err
-	} // lazy init of dark and flat frames
+	}
 
-	if c.DarkFrame != nil {
-		if !fits.EqualInt32Slice(f.Naxisn, c.DarkFrame.Naxisn) {
-			if f.Pixels!=c.DarkFrame.Pixels {
+	if dark != nil {
+		if !fits.EqualInt32Slice(f.Naxisn, dark.Naxisn) {
+			if f.Pixels!=dark.Pixels {
 				return nil, fmt.Errorf("%d: Light dimensions %v differ from dark dimensions %v",
-					f.ID, f.Naxisn, c.DarkFrame.Naxisn)
+					f.ID, f.Naxisn, dark.Naxisn)
 			}
 			fmt.Printf("%d: Warning: light dimensions %v differ from dark dimensions %v but same product, ignoring for Seestar",
-					f.ID, f.Naxisn, c.DarkFrame.Naxisn)
+					f.ID, f.Naxisn, dark.Naxisn)
 		}
-		Subtract(f.Data, f.Data, c.DarkFrame.Data)
+		Subtract(f.Data, f.Data, dark.Data)
 		f.Stats.Clear()
 	}
 
-	if c.FlatFrame != nil {
-		if !fits.EqualInt32Slice(f.Naxisn, c.FlatFrame.Naxisn) {
-			if f.Pixels!=c.FlatFrame.Pixels {
+	if flat != nil {
+		if !fits.EqualInt32Slice(f.Naxisn, flat.Naxisn) {
+			if f.Pixels!=flat.Pixels {
 				return nil, fmt.Errorf("%d: Light dimensions %v differ from flat dimensions %v",
-					f.ID, f.Naxisn, c.FlatFrame.Naxisn)
+					f.ID, f.Naxisn, flat.Naxisn)
 			}
 			fmt.Printf("%d: Warning: light dimensions %v differ from flat dimensions %v but same product, ignoring for Seestar",
-					f.ID, f.Naxisn, c.FlatFrame.Naxisn)
+					f.ID, f.Naxisn, flat.Naxisn)
 		}
-		Divide(f.Data, f.Data, c.FlatFrame.Data, c.FlatFrame.Stats.Max())
+		Divide(f.Data, f.Data, flat.Data, flatMax)
 		f.Stats.Clear()
 	}
 	return f, nil
 }
 
-// Load dark and flat frames if applicable
-func (op *OpCalibrate) init(c *ops.Context) error {
-	op.mutex.Lock()
+// Load dark and flat frames if applicable. Returns the frames to use and the maximum of the flat
+func (op *OpCalibrate) init(c *ops.Context) (dark, flat *fits.Image, flatMax float32, err error) {
+	op.mutex.Lock() // lock so a single thread loads the frames
 	defer op.mutex.Unlock()
-	if !((op.Dark != "" && c.DarkFrame == nil) ||
-		(op.Flat != "" && c.FlatFrame == nil)) {
-		return nil
+	c.Mutex.Lock()
+	needDark := op.Dark != "" && c.DarkFrame == nil
+	needFlat := op.Flat != "" && c.FlatFrame == nil
+	c.Mutex.Unlock()
+
+	if needDark {
+		if dark, err = loadMaster(-1, op.Dark, c); err != nil {
+			return nil, nil, 0, err
+		}
 	}
-
-	var promises []ops.Promise
-	for i, name := range []string{op.Dark, op.Flat} {
-		if name != "" {
-			promise, err := ops.NewOpLoad(-(i+1), name).MakePromises(nil, c)
-			if err != nil {
-				return err
-			}
-			if len(promise) != 1 {
-				return errors.New("load operator did not create exactly one promise")
-			}
-			promises = append(promises, promise[0])
+	if needFlat {
+		if flat, err = loadMaster(-2, op.Flat, c); err != nil {
+			return nil, nil, 0, err
 		}
 	}
 
-	images, err := ops.MaterializeAll(promises, c.MaxThreads, false)
-	if err != nil {
-		return err
+	c.Mutex.Lock()
+	defer c.Mutex.Unlock()
+	if needDark {
+		c.DarkFrame = dark
 	}
-
-	if op.Dark != "" {
-		c.DarkFrame = images[0]
-		if op.Flat != "" {
-			c.FlatFrame = images[1]
-		}
-	} else if op.Flat != "" {
-		c.FlatFrame = images[0]
+	if needFlat {
+		c.FlatFrame = flat
 	}
+	dark, flat = c.DarkFrame, c.FlatFrame
+	if dark != nil && flat != nil && !fits.EqualInt32Slice(dark.Naxisn, flat.Naxisn) {
+		return nil, nil, 0, fmt.Errorf("dark dimensions %v differ from flat dimensions %v",
+			dark.Naxisn, flat.Naxisn)
+	}
+	if flat != nil {
+		flatMax = flat.Stats.Max()
+	}
+	return dark, flat, flatMax, nil
+}
 
-	if c.DarkFrame != nil && c.FlatFrame != nil && !fits.EqualInt32Slice(c.DarkFrame.Naxisn, c.FlatFrame.Naxisn) {
-		return fmt.Errorf("dark dimensions %v differ from flat dimensions %v",
-			c.DarkFrame.Naxisn, c.FlatFrame.Naxisn)
+// Loads a single calibration master frame
+func loadMaster(id int, fileName string, c *ops.Context) (f *fits.Image, err error) {
+	promises, err := ops.NewOpLoad(id, fileName).MakePromises(nil, c)
+	if err != nil {
+		return nil, err
 	}
-	return nil
+	if len(promises) != 1 {
+		return nil, errors.New("load operator did not create exactly one promise")
+	}
+	if f, err = promises[0](); err != nil {
+		return nil, err
+	}
+	if f == nil {
+		return nil, fmt.Errorf("calibration frame %s is missing", fileName)
+	}
+	return f, nil
 }
 
 type OpBadPixel struct {
-- 
2.43.0


From 1ecc05db85370cd5154efb3dcbabab4d78575371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:00 +0000
Subject: [PATCH 034/100] fix: share an unchanging copy of the reference data
 between frames

---
 internal/ops/post/postprocess.go |  23 +++-
 internal/ops/ref/refframe.go     | 197 +++++++++++++++++--------------
 internal/stats/stats.go          |  17 +++
 3 files changed, 141 insertions(+), 96 deletions(-)

diff --git a/internal/ops/post/postprocess.go b/internal/ops/post/postprocess.go
index a31d57c..749cac8 100644
--- a/internal/ops/post/postprocess.go
+++ b/internal/ops/post/postprocess.go
@@ -78,18 +78,21 @@ func (op *OpMatchHistogram) Apply(f *fits.Image, c *ops.Context) (result *fits.I
 	if op.Mode == HNMNone {
 		return f, nil
 	}
-	if c.MatchHisto == nil {
+	c.Mutex.Lock()
+	histo := c.MatchHisto
+	c.Mutex.Unlock()
+	if histo == nil {
 		return nil, errors.New("missing histogram reference")
 	}
 	switch op.Mode {
 	case HNMLocation:
-		f.MatchLocation(c.MatchHisto.Location())
+		f.MatchLocation(histo.Location())
 	case HNMLocScale:
-		f.MatchHistogram(c.MatchHisto)
+		f.MatchHistogram(histo)
 	case HNMLocBlack:
-		f.ShiftBlackToMove(f.Stats.Location(), c.MatchHisto.Location())
+		f.ShiftBlackToMove(f.Stats.Location(), histo.Location())
 	}
-	fmt.Fprintf(c.Log, "%d: %s after matching reference histogram %v\n", f.ID, f.Stats, c.MatchHisto)
+	fmt.Fprintf(c.Log, "%d: %s after matching reference histogram %v\n", f.ID, f.Stats, histo)
 	return f, nil
 }
 
@@ -167,7 +170,13 @@ func (op *OpAlign) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err
 		case OOBModeNaN:
 			outOfBounds = float32(math.NaN())
 		case OOBModeRefLocation:
-			outOfBounds = c.MatchHisto.Location()
+			c.Mutex.Lock()
+			histo := c.MatchHisto
+			c.Mutex.Unlock()
+			if histo == nil {
+				return nil, errors.New("missing histogram reference")
+			}
+			outOfBounds = histo.Location()
 		case OOBModeOwnLocation:
 			outOfBounds = f.Stats.Location()
 		}
@@ -197,6 +206,8 @@ func (op *OpAlign) init(c *ops.Context) error {
 		return nil
 	}
 
+	c.Mutex.Lock()
+	defer c.Mutex.Unlock()
 	if c.AlignNaxisn == nil || c.AlignStars == nil {
 		return errors.New("Unable to align without reference frame")
 	} else if len(c.AlignStars) == 0 {
diff --git a/internal/ops/ref/refframe.go b/internal/ops/ref/refframe.go
index 4a22963..11d7f84 100644
--- a/internal/ops/ref/refframe.go
+++ b/internal/ops/ref/refframe.go
@@ -100,117 +100,126 @@ func (op *OpSelectReference) MakePromises(ins []ops.Promise, c *ops.Context) (ou
 
 func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, sel *selection, c *ops.Context) ops.Promise {
 	return func() (f *fits.Image, err error) {
-		op.mutex.Lock()             // lock so a single thread accesses the reference frame
-		if c.RefFrameError != nil { // if reference frame detection failed in a prior thread
+		op.mutex.Lock() // lock so a single thread accesses the reference frame
+		have, err := op.haveReference(c)
+		if err != nil { // if reference frame detection failed in a prior thread
 			op.mutex.Unlock() // return immediately with the same error
 			return nil, errors.New("same error")
 		}
+		if !have && !sel.done { // if the reference frame still needs to be found
+			if err = op.findReference(ins, sel, c); err != nil {
+				c.Mutex.Lock()
+				c.RefFrameError = err
+				c.Mutex.Unlock()
+				op.mutex.Unlock()
+				return nil, err
+			}
+		}
 		if sel.done { // if the input has already been materialized
-			defer op.mutex.Unlock()
 			mat := sel.materialized[i]
 			sel.materialized[i] = nil // remove reference to free memory
+			op.mutex.Unlock()
 			return mat, nil
 		}
-		if (op.Target == SRAlign && c.AlignStars != nil) ||
-			(op.Target == SRHisto && c.MatchHisto != nil) { // if a reference frame already exists
-			op.mutex.Unlock() // unlock immediately to allow ...
-			return ins[i]()   // ... materializations to be parallelized by the caller
-		}
-		defer op.mutex.Unlock() // else release lock later when reference frame is computed
-
-		mode := op.Mode
-		fileID, atoiErr := strconv.Atoi(op.Mode) // reference frame ID, if given
-
-		// if reference image is given in a file, load it and detect stars w/o materializing all input promises
-		if mode != "%starsHFR" && mode != "%location" && mode != "%rgb" && atoiErr != nil {
-			refFileName := op.Mode
-			if refFileName == "" {
-				return ins[i]()
-			}
-
-			var promises []ops.Promise
-			promises, c.RefFrameError = ops.NewOpLoad(-3, refFileName).MakePromises(nil, c)
-			if c.RefFrameError != nil {
-				return nil, c.RefFrameError
-			}
-			if len(promises) != 1 {
-				c.RefFrameError = errors.New("load operator did not create exactly one promise")
-				return nil, c.RefFrameError
-			}
+		op.mutex.Unlock() // unlock immediately to allow ...
+		return ins[i]()   // ... materializations to be parallelized by the caller
+	}
+}
 
-			promises, c.RefFrameError = op.StarDetect.MakePromises([]ops.Promise{promises[0]}, c)
-			if c.RefFrameError != nil {
-				return nil, c.RefFrameError
-			}
-			if len(promises) != 1 {
-				c.RefFrameError = errors.New("star detect did not return exactly one promise")
-				return nil, c.RefFrameError
-			}
-			var refFrame *fits.Image
-			refFrame, c.RefFrameError = promises[0]()
-			if c.RefFrameError != nil {
-				return nil, c.RefFrameError
-			}
-			if refFrame == nil {
-				c.RefFrameError = errors.New("reference frame " + refFileName + " is missing")
-				return nil, c.RefFrameError
-			}
-			if c.RefFrameError = op.assignResults(c, refFrame); c.RefFrameError != nil {
-				return nil, c.RefFrameError
-			}
+// Returns true if the reference for the operator's target is already known, or the error of a prior attempt to find it
+func (op *OpSelectReference) haveReference(c *ops.Context) (bool, error) {
+	c.Mutex.Lock()
+	defer c.Mutex.Unlock()
+	have := (op.Target == SRAlign && c.AlignStars != nil) || (op.Target == SRHisto && c.MatchHisto != nil)
+	return have, c.RefFrameError
+}
 
-			fmt.Fprintf(c.Log, "using loaded image %d as %s reference\n", refFrame.ID, srTargetStrings[op.Target])
-			return ins[i]()
+// Finds the reference frame and publishes its data in the context. Materializes all inputs, unless the reference is
+// given by file name. Must be called with the operator's lock held
+func (op *OpSelectReference) findReference(ins []ops.Promise, sel *selection, c *ops.Context) (err error) {
+	mode := op.Mode
+	fileID, atoiErr := strconv.Atoi(op.Mode) // reference frame ID, if given
+
+	// if reference image is given in a file, load it and detect stars w/o materializing all input promises
+	if mode != "%starsHFR" && mode != "%location" && mode != "%rgb" && atoiErr != nil {
+		refFileName := op.Mode
+		if refFileName == "" {
+			return nil
 		}
 
-		// otherwise, materialize the input promises
-		sel.materialized, c.RefFrameError = materializeInPlace(ins, c)
-		if c.RefFrameError != nil {
-			return nil, c.RefFrameError
+		promises, err := ops.NewOpLoad(-3, refFileName).MakePromises(nil, c)
+		if err != nil {
+			return err
 		}
-		sel.done = true
-
-		// Auto-select mode for (L)RGB
-		if mode == "%rgb" {
-			if len(sel.materialized) > 3 {
-				mode, fileID, atoiErr = "3", 3, nil
-			} else {
-				mode = "%starsHFR"
-			}
+		if len(promises) != 1 {
+			return errors.New("load operator did not create exactly one promise")
 		}
 
-		// select reference with given mode
-		var refScore float32
-		var refFrame *fits.Image
-		if mode == "%starsHFR" {
-			refFrame, refScore, c.RefFrameError = selectReferenceStarsOverHFR(sel.materialized)
-		} else if mode == "%location" {
-			refFrame, refScore, c.RefFrameError = selectReferenceMedianLoc(sel.materialized, c)
-		} else if atoiErr == nil {
-			if fileID < 0 || fileID >= len(sel.materialized) {
-				c.RefFrameError = errors.New(fmt.Sprintf("invalid reference file ID %d", fileID))
-				return nil, c.RefFrameError
+		if op.StarDetect != nil {
+			promises, err = op.StarDetect.MakePromises(promises, c)
+			if err != nil {
+				return err
 			}
-			refFrame = sel.materialized[fileID]
-		} else {
-			c.RefFrameError = errors.New(fmt.Sprintf("Unknown refrence selection mode '%s'", op.Mode))
+			if len(promises) != 1 {
+				return errors.New("star detect did not return exactly one promise")
+			}
+		}
+		refFrame, err := promises[0]()
+		if err != nil {
+			return err
 		}
 		if refFrame == nil {
-			c.RefFrameError = errors.New("Unable to select reference image.")
+			return fmt.Errorf("reference frame %s is missing", refFileName)
 		}
-		if c.RefFrameError != nil {
-			return nil, c.RefFrameError
+		if err = op.assignResults(c, refFrame); err != nil {
+			return err
 		}
-		if c.RefFrameError = op.assignResults(c, refFrame); c.RefFrameError != nil {
-			return nil, c.RefFrameError
+		fmt.Fprintf(c.Log, "using loaded image %d as %s reference\n", refFrame.ID, srTargetStrings[op.Target])
+		return nil
+	}
+
+	// otherwise, materialize the input promises
+	sel.materialized, err = materializeInPlace(ins, c)
+	if err != nil {
+		return err
+	}
+	sel.done = true
+
+	// Auto-select mode for (L)RGB
+	if mode == "%rgb" {
+		if len(sel.materialized) > 3 {
+			mode, fileID, atoiErr = "3", 3, nil
+		} else {
+			mode = "%starsHFR"
 		}
-		fmt.Fprintf(c.Log, "Using image %d with score %.4g as %s reference.\n", refFrame.ID, refScore, srTargetStrings[op.Target])
+	}
 
-		// return promise for the materialized image of this instance
-		mat := sel.materialized[i]
-		sel.materialized[i] = nil // remove reference
-		return mat, nil
+	// select reference with given mode
+	var refScore float32
+	var refFrame *fits.Image
+	if mode == "%starsHFR" {
+		refFrame, refScore, err = selectReferenceStarsOverHFR(sel.materialized)
+	} else if mode == "%location" {
+		refFrame, refScore, err = selectReferenceMedianLoc(sel.materialized, c)
+	} else if atoiErr == nil {
+		if fileID < 0 || fileID >= len(sel.materialized) {
+			return fmt.Errorf("invalid reference file ID %d", fileID)
+		}
+		refFrame = sel.materialized[fileID]
+	} else {
+		return fmt.Errorf("Unknown refrence selection mode '%s'", op.Mode)
+	}
+	if err != nil {
+		return err
 	}
+	if refFrame == nil {
+		return errors.New("Unable to select reference image.")
+	}
+	if err = op.assignResults(c, refFrame); err != nil {
+		return err
+	}
+	fmt.Fprintf(c.Log, "Using image %d with score %.4g as %s reference.\n", refFrame.ID, refScore, srTargetStrings[op.Target])
+	return nil
 }
 
 // Materializes all input promises, keeping each frame at the position of its promise.
@@ -232,11 +241,19 @@ func materializeInPlace(ins []ops.Promise, c *ops.Context) (outs []*fits.Image,
 
 func (op *OpSelectReference) assignResults(c *ops.Context, refFrame *fits.Image) error {
 	if op.Target == SRAlign {
-		c.AlignNaxisn = refFrame.Naxisn
+		c.Mutex.Lock()
+		defer c.Mutex.Unlock()
+		c.AlignNaxisn = append([]int32(nil), refFrame.Naxisn...) // clone, the frame is still processed further
 		c.AlignStars = refFrame.Stars
 		c.AlignHFR = refFrame.HFR
 	} else if op.Target == SRHisto {
-		c.MatchHisto = refFrame.Stats
+		if refFrame.Stats == nil {
+			return errors.New("missing stats")
+		}
+		snapshot := refFrame.Stats.Snapshot() // the frame is still processed further
+		c.Mutex.Lock()
+		defer c.Mutex.Unlock()
+		c.MatchHisto = snapshot
 	} else {
 		return fmt.Errorf("invalid reference selection target %d", op.Target)
 	}
diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 8e5fb5b..f25edbe 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -88,6 +88,23 @@ func (s *Stats) Clear() {
 	s.haveMMM, s.haveStdDev, s.haveLocScale, s.haveNoise = false, false, false, false
 }
 
+// Returns the current values as an independent copy, which does not follow later changes of the data.
+// Does not include the noise estimate, which is expensive to calculate
+func (s *Stats) Snapshot() *Stats {
+	return &Stats{
+		width:        s.width,
+		min:          s.Min(),
+		max:          s.Max(),
+		mean:         s.Mean(),
+		stdDev:       s.StdDev(),
+		location:     s.Location(),
+		scale:        s.Scale(),
+		haveMMM:      true,
+		haveStdDev:   true,
+		haveLocScale: true,
+	}
+}
+
 func (s *Stats) UpdateCachedWith(multiplier, offset float32) {
 	absMultiplier := float32(math.Abs(float64(multiplier)))
 	if multiplier < 0 { // order reversed
-- 
2.43.0


From 76fba612c8aa180d9c82ce02bcf105116be45af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:27 +0000
Subject: [PATCH 035/100] fix: read the shared aligner under its lock

---
 internal/ops/post/postprocess.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/internal/ops/post/postprocess.go b/internal/ops/post/postprocess.go
index 749cac8..6a784f6 100644
--- a/internal/ops/post/postprocess.go
+++ b/internal/ops/post/postprocess.go
@@ -147,15 +147,16 @@ func (op *OpAlign) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err
 		return nil, nil
 	}
 
-	if err = op.init(c); err != nil {
+	aligner, err := op.init(c) // initialize the aligner
+	if err != nil {
 		return nil, err
-	} // initialize the aligner
+	}
 
 	// Is alignment to the reference frame required?
-	if op.K <= 0 || op.Aligner == nil || len(op.Aligner.RefStars) == 0 {
+	if op.K <= 0 || aligner == nil || len(aligner.RefStars) == 0 {
 		// Generally not required
 		f.Trans = star.IdentityTransform2D()
-	} else if len(op.Aligner.RefStars) == len(f.Stars) && (&op.Aligner.RefStars[0] == &f.Stars[0]) {
+	} else if len(aligner.RefStars) == len(f.Stars) && (&aligner.RefStars[0] == &f.Stars[0]) {
 		// Not required for reference frame itself
 		f.Trans = star.IdentityTransform2D()
 	} else if len(f.Stars) == 0 {
@@ -182,7 +183,7 @@ func (op *OpAlign) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err
 		}
 
 		// Determine alignment of the image to the reference frame
-		trans, residual := op.Aligner.Align(f.Naxisn, f.Stars, f.ID)
+		trans, residual := aligner.Align(f.Naxisn, f.Stars, f.ID)
 		if residual > op.Threshold {
 			fmt.Fprintf(c.Log, "%d: Alignment residual %g is above threshold %g, skipping frame\n", f.ID, residual, op.Threshold)
 			return nil, nil
@@ -191,7 +192,7 @@ func (op *OpAlign) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err
 		fmt.Fprintf(c.Log, "%d: Transform %v; residual %.3g oob %.3g\n", f.ID, f.Trans, f.Residual, outOfBounds)
 
 		// Project image into reference frame
-		f, err = f.Project(op.Aligner.Naxisn, trans, outOfBounds)
+		f, err = f.Project(aligner.Naxisn, trans, outOfBounds)
 		if err != nil {
 			return nil, err
 		}
@@ -199,20 +200,21 @@ func (op *OpAlign) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err
 	return f, nil
 }
 
-func (op *OpAlign) init(c *ops.Context) error {
+// Creates the aligner on first use, and returns it
+func (op *OpAlign) init(c *ops.Context) (*star.Aligner, error) {
 	op.mutex.Lock()
 	defer op.mutex.Unlock()
 	if op.K <= 0 || op.Aligner != nil {
-		return nil
+		return op.Aligner, nil
 	}
 
 	c.Mutex.Lock()
 	defer c.Mutex.Unlock()
 	if c.AlignNaxisn == nil || c.AlignStars == nil {
-		return errors.New("Unable to align without reference frame")
+		return nil, errors.New("Unable to align without reference frame")
 	} else if len(c.AlignStars) == 0 {
-		return errors.New("Unable to align without star detections in reference frame")
+		return nil, errors.New("Unable to align without star detections in reference frame")
 	}
 	op.Aligner = star.NewAligner(c.AlignNaxisn, c.AlignStars, op.K)
-	return nil
+	return op.Aligner, nil
 }
-- 
2.43.0


From 3a7141f42b2194ffd97edca882559ec48d4efb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:32 +0000
Subject: [PATCH 036/100] fix: reject missing frames when stacking and
 combining channels

---
 internal/ops/rgb/rgb.go            | 3 +++
 internal/ops/stack/stack.go        | 2 ++
 internal/ops/stack/stackbatches.go | 7 ++++++-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/ops/rgb/rgb.go b/internal/ops/rgb/rgb.go
index 9c370e0..e5d8ebf 100644
--- a/internal/ops/rgb/rgb.go
+++ b/internal/ops/rgb/rgb.go
@@ -62,6 +62,9 @@ func (op *OpRGBCombine) MakePromises(ins []ops.Promise, c *ops.Context) (outs []
 		if err != nil {
 			return nil, err
 		}
+		if len(fs) != len(ins) { // channels would be misassigned
+			return nil, fmt.Errorf("%s operator with missing input frames", op.Type)
+		}
 		return op.Apply(fs, c)
 	}
 	return []ops.Promise{out}, nil
diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index 699486b..cbbc36b 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -113,6 +113,8 @@ func (op *OpStack) MakePromises(ins []ops.Promise, c *ops.Context) (outs []ops.P
 
 // Stack a set of light frames. Limits parallelism to the number of available cores
 func (op *OpStack) Apply(f []*fits.Image, c *ops.Context) (result *fits.Image, err error) {
+	if len(f)==0 { return nil, errors.New("no frames to stack") }
+
 	// validate stacking modes and perform automatic mode selection if necesssary
 	mode:=op.Mode
 	if mode<StMedian || mode>StAuto {
diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index 6133041..0510f65 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -93,7 +93,9 @@ func (op *OpStackBatches) Apply(ins []ops.Promise, c *ops.Context) (fOut *fits.I
 		}
 
 		// Update stack of stacks
-		if numBatches > 1 {
+		if batch == nil {
+			fmt.Fprintf(c.Log, "Batch %d did not produce a frame, skipping\n", b+1)
+		} else if numBatches > 1 {
 			stack = StackIncremental(stack, batch, float32(batchFrames))
 			stackFrames += batchFrames
 		} else {
@@ -109,6 +111,9 @@ func (op *OpStackBatches) Apply(ins []ops.Promise, c *ops.Context) (fOut *fits.I
 	c.DarkFrame, c.FlatFrame = nil, nil
 	debug.FreeOSMemory()
 
+	if stack == nil {
+		return nil, errors.New("no batch produced a frame")
+	}
 	if numBatches > 1 {
 		// Finalize stack of stacks
 		StackIncrementalFinalize(stack, float32(stackFrames))
-- 
2.43.0


From 31a910a8d8a9d0794064d3f986b8cc27d0eb6432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:33 +0000
Subject: [PATCH 037/100] fix: keep weights with their samples in weighted
 sigma clipping

---
 internal/ops/stack/stack.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index cbbc36b..872f041 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -444,6 +444,7 @@ func StackSigma(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh float32
 func StackSigmaWeighted(lightsData [][]float32, weights []float32, RefFrameLoc, sigmaLow, sigmaHigh float32, res []float32) (clipLow, clipHigh int32) {
 	gatheredFull:=make([]float32,len(lightsData))
 	weightsFull :=make([]float32,len(weights))
+	medianFull  :=make([]float32,len(lightsData))
 	numClippedLow, numClippedHigh:=int32(0), int32(0)
 
 	// for all pixels
@@ -486,7 +487,10 @@ func StackSigmaWeighted(lightsData [][]float32, weights []float32, RefFrameLoc,
 		for {
 
 			// calculate median, mean, standard deviation and variance across gathered data
-			median:=qsort.QSelectMedianFloat32(gatheredCur)
+			// selecting the median reorders samples, so work on a copy to keep them together with their weights
+			medianCur:=medianFull[:len(gatheredCur)]
+			copy(medianCur, gatheredCur)
+			median:=qsort.QSelectMedianFloat32(medianCur)
 			_, stdDev:=stats.MeanStdDev(gatheredCur)
 
 			// remove out-of-bounds values
@@ -755,12 +759,13 @@ func StackWinsorSigmaWeighted(lightsData [][]float32, weights []float32, RefFram
 		for {
 
 			// calculate median and standard deviation across all frames
-			median:=qsort.QSelectMedianFloat32(gatheredCur)
+			// selecting the median reorders samples, so work on a copy to keep them together with their weights
+			winsorized:=winsorizedFull[0:len(gatheredCur)]
+			copy(winsorized, gatheredCur)
+			median:=qsort.QSelectMedianFloat32(winsorized)
 			_, stdDev:=stats.MeanStdDev(gatheredCur)
 
 			// calculate winsorized standard deviation (removes outliers/tighter)
-			winsorized:=winsorizedFull[0:len(gatheredCur)]
-			copy(winsorized, gatheredCur)
 			for {
 				// replace outliers with low/high bound
 				lowBound :=median - 1.5*stdDev
-- 
2.43.0


From 199476a1dde062211bf41d3ab0f3ff20a489e78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:33 +0000
Subject: [PATCH 038/100] fix: reject weights for stacking modes that do not
 support them

---
 internal/ops/stack/stack.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index 872f041..4fdcab2 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -122,6 +122,9 @@ func (op *OpStack) Apply(f []*fits.Image, c *ops.Context) (result *fits.Image, e
 	}
 	if mode==StAuto { 
 		mode=autoSelectStackingMode(len(f))
+		if mode==StLinearFit && op.Weighting!=StWeightNone {
+			mode=StWinsorSigma // linear fit does not support weights
+		}
 	}
 	fmt.Fprintf(c.Log, "Stacking %d frames with stacking mode %d and sigma low %g high %g:\n", 
 				len(f), mode, op.SigmaLow, op.SigmaHigh)
@@ -129,6 +132,9 @@ func (op *OpStack) Apply(f []*fits.Image, c *ops.Context) (result *fits.Image, e
 	// select weights if applicable
 	weights, err:=getWeights(f, op.Weighting)
 	if err!=nil { return nil, err }
+	if weights!=nil && (mode==StMedian || mode==StMADSigma || mode==StLinearFit) {
+		return nil, fmt.Errorf("stacking mode %d does not support weights", mode)
+	}
 
 	// create return value array
 	data:=make([]float32,len(f[0].Data))
@@ -181,11 +187,7 @@ func (op *OpStack) Apply(f []*fits.Image, c *ops.Context) (result *fits.Image, e
 				}
 
 			case StMADSigma:
-				if weights==nil {
-					clipLow, clipHigh=StackMADSigma(ldBatch, op.RefFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
-				} else {
-					panic("MADSigma stacking with weights is still unimplemented")
-				}
+				clipLow, clipHigh=StackMADSigma(ldBatch, op.RefFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
 
 			case StLinearFit:
 				clipLow, clipHigh=StackLinearFit(ldBatch, op.RefFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
-- 
2.43.0


From d4d294a78cac606ec9872cf69e6386e8bdd5d31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:33 +0000
Subject: [PATCH 039/100] fix: equal weights for frames with equal noise or HFR
 instead of NaN

---
 internal/ops/stack/stack.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index 4fdcab2..cdb07ab 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -253,7 +253,8 @@ func getWeights(f []*fits.Image, weighting StackWeighting) (weights []float32, e
 		weights =make([]float32, len(f))
 		for i:=0; i<len(f); i+=1 {
 			//f[i].Stats.Noise=nl.EstimateNoise(f[i].Data, f[i].Naxisn[0])
-			weights[i]=1/(1+4*(f[i].Stats.Noise()-minNoise)/(maxNoise-minNoise))
+			weights[i]=1
+			if maxNoise>minNoise { weights[i]=1/(1+4*(f[i].Stats.Noise()-minNoise)/(maxNoise-minNoise)) }
 		}
 	} else if weighting==StWeightInverseHFR { // HFR weighted stacking, smaller HFR gets bigger weight
 		minHFR, maxHFR:=float32(math.MaxFloat32), float32(-math.MaxFloat32)
@@ -265,7 +266,8 @@ func getWeights(f []*fits.Image, weighting StackWeighting) (weights []float32, e
 		weights =make([]float32, len(f))
 		for i:=0; i<len(f); i+=1 {
 			//f[i].Stats.Noise=nl.EstimateNoise(f[i].Data, f[i].Naxisn[0])
-			weights[i]=1/(1+4*(f[i].HFR-minHFR)/(maxHFR-minHFR))
+			weights[i]=1
+			if maxHFR>minHFR { weights[i]=1/(1+4*(f[i].HFR-minHFR)/(maxHFR-minHFR)) }
 		}
 	} else {
 		return nil, errors.New(fmt.Sprintf("Invalid weighting mode %d\n", weighting))
-- 
2.43.0


From 8011e1fda781b6d5d79ddca17d4297c9056d26eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:33 +0000
Subject: [PATCH 040/100] fix: no NaN for pixels whose samples are all clipped

---
 internal/ops/stack/stack.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index cdb07ab..aebfce7 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -528,7 +528,11 @@ func StackSigmaWeighted(lightsData [][]float32, weights []float32, RefFrameLoc,
             		weightedSum+=gatheredCur[i] * weightsCur[i]
             		weightsSum +=weightsCur[i]
             	}
-				res[i]=weightedSum/weightsSum
+            	if len(gatheredCur)>0 {
+					res[i]=weightedSum/weightsSum
+            	} else {
+            		res[i]=median // all samples were clipped
+            	}
             	break
             }
 		}
@@ -607,7 +611,8 @@ func StackMADSigma(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh floa
 		mean:=float32(0)
 		for _,g:=range(gatheredCur) { mean+=g }
 		mean/=float32(len(gatheredCur))
-		res[i]=mean		
+		if len(gatheredCur)==0 { mean=median } // all samples were clipped
+		res[i]=mean
 	}
 
 	gatheredFull=nil
@@ -826,7 +831,11 @@ func StackWinsorSigmaWeighted(lightsData [][]float32, weights []float32, RefFram
             		weightedSum+=gatheredCur[i] * weightsCur[i]
             		weightsSum +=weightsCur[i]
             	}
-				res[i]=weightedSum/weightsSum
+            	if len(gatheredCur)>0 {
+					res[i]=weightedSum/weightsSum
+            	} else {
+            		res[i]=median // all samples were clipped
+            	}
             	break
             }
         }
@@ -914,7 +923,7 @@ func StackLinearFit(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh flo
 				}				
 			}
 
-			if left==0 || len(gatheredCur)<3{
+			if left==0 || left==len(gatheredCur) || len(gatheredCur)<3{
             	break
             }
 			gatheredCur=gatheredCur[left:]
-- 
2.43.0


From f09aee718f0dd63cb726c012deb65fe629ffc44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:44 +0000
Subject: [PATCH 041/100] fix: move into the new root directory after changing
 it

---
 internal/rest/sandbox_unix.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/rest/sandbox_unix.go b/internal/rest/sandbox_unix.go
index ac72f50..f35c129 100644
--- a/internal/rest/sandbox_unix.go
+++ b/internal/rest/sandbox_unix.go
@@ -34,8 +34,8 @@ func MakeSandbox(chroot string, setuid int) {
 		if err:=syscall.Chroot(chroot); err!=nil {
 			panic(fmt.Sprintf("error chroot(%s): %s\n", chroot, err.Error()))
 		}
-		if err:=os.Chdir(chroot); err!=nil {
-			panic(fmt.Sprintf("error chdir(%s): %s\n", chroot, err.Error()))
+		if err:=os.Chdir("/"); err!=nil { // relative to the new root
+			panic(fmt.Sprintf("error chdir(/): %s\n", err.Error()))
 		}
 	}
 	if setuid>=0 {
-- 
2.43.0


From 1191bb4d2572afe8e61fa80ddaae630a60a55117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:40 +0000
Subject: [PATCH 042/100] fix: reject an export gamma that would push samples
 out of range

---
 internal/fits/tiff16.go   | 6 ++++++
 internal/fits/writejpg.go | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/internal/fits/tiff16.go b/internal/fits/tiff16.go
index 930c195..2fa3ac3 100644
--- a/internal/fits/tiff16.go
+++ b/internal/fits/tiff16.go
@@ -48,6 +48,9 @@ func (f *Image) WriteTIFF16ToFile(fileName string, min, max, gamma float32) erro
 
 // Write a FITS image to 16-bit TIFF, using the given min, max and gamma.
 func (f *Image) WriteTIFF16(writer io.Writer, min, max, gamma float32) error {
+	if !(gamma > 0) {
+		return fmt.Errorf("%d: invalid gamma %g for export", f.ID, gamma)
+	}
 	// convert pixels into Golang Image
 	width, height := int(f.Naxisn[0]), int(f.Naxisn[1])
 	size := width * height
@@ -115,6 +118,9 @@ func (f *Image) WriteMonoTIFF16ToFile(fileName string, min, max, gamma float32)
 
 // Write a grayscale FITS image to 16-bit TIFF, using the given min, max and gamma.
 func (f *Image) WriteMonoTIFF16(writer io.Writer, min, max, gamma float32) error {
+	if !(gamma > 0) {
+		return fmt.Errorf("%d: invalid gamma %g for export", f.ID, gamma)
+	}
 	// convert pixels into Golang Image
 	width, height := int(f.Naxisn[0]), int(f.Naxisn[1])
 	img := image.NewGray16(image.Rectangle{image.Point{0, 0}, image.Point{width, height}})
diff --git a/internal/fits/writejpg.go b/internal/fits/writejpg.go
index d522fa7..1aae27b 100644
--- a/internal/fits/writejpg.go
+++ b/internal/fits/writejpg.go
@@ -17,6 +17,7 @@ package fits
 
 import (
 	"bufio"
+	"fmt"
 	"image"
 	"image/color"
 	"image/jpeg"
@@ -45,6 +46,9 @@ func (f *Image) WriteJPGToFile(fileName string, min, max, gamma float32, quality
 
 // Write a FITS image to JPG, using the given min, max and gamma.
 func (f *Image) WriteJPG(writer io.Writer, min, max, gamma float32, quality int) error {
+	if !(gamma > 0) {
+		return fmt.Errorf("%d: invalid gamma %g for export", f.ID, gamma)
+	}
 	// convert pixels into Golang Image
 	width, height := int(f.Naxisn[0]), int(f.Naxisn[1])
 	size := width * height
@@ -112,6 +116,9 @@ func (f *Image) WriteMonoJPGToFile(fileName string, min, max, gamma float32, qua
 
 // Write a grayscale FITS image to JPG, using the given min, max and gamma.
 func (f *Image) WriteMonoJPG(writer io.Writer, min, max, gamma float32, quality int) error {
+	if !(gamma > 0) {
+		return fmt.Errorf("%d: invalid gamma %g for export", f.ID, gamma)
+	}
 	// convert pixels into Golang Image
 	width, height := int(f.Naxisn[0]), int(f.Naxisn[1])
 	img := image.NewGray(image.Rectangle{image.Point{0, 0}, image.Point{width, height}})
-- 
2.43.0


From aa1b0d23aac4d82588832a4ca502ec6515819abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:15 +0000
Subject: [PATCH 043/100] fix: parallel median filter divided by zero for less
 data points than CPUs

---
 internal/ops/pre/badpixels.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ops/pre/badpixels.go b/internal/ops/pre/badpixels.go
index 0ead5f4..b6e1e86 100644
--- a/internal/ops/pre/badpixels.go
+++ b/internal/ops/pre/badpixels.go
@@ -54,7 +54,10 @@ func BadPixelMap(data []float32, width int32, sigmaLow, sigmaHigh float32) (bpm
 // and stores the result in data
 func MedianFilter(output, data []float32, mask []int32) {
 	// Parallelize into as many goroutines as we have CPUs
-	stepSize := len(data) / runtime.NumCPU()
+	if len(data) == 0 {
+		return
+	}
+	stepSize := (len(data) + runtime.NumCPU() - 1) / runtime.NumCPU() // at least one
 	var wg sync.WaitGroup
 	wg.Add((len(data) + stepSize - 1) / stepSize)
 
-- 
2.43.0


From fc9f3122e23e1087247b233a9531e1048f35f3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:51 +0000
Subject: [PATCH 044/100] fix: background neutralization ignored the upper
 threshold

---
 internal/fits/pixelops.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index 9896fb4..8b9f1a4 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -470,7 +470,7 @@ type pf3ChanNeutralizeBackgroundArgs struct {
 // RGB pixel function to adjust CIE HCL chroma by multiplying with 0 for values below low, with 1 above high, and interpolating linearly in between. 
 // Data must be HCL. 2nd parameter must be a pf3ChanNeutralizeBackgroundArgs. Operates in-place. 
 func pf3ChanNeutralizeBackground(hs,cs,ls []float32, params interface{}) {
-	low, high:=params.(pf3ChanNeutralizeBackgroundArgs).Low, params.(pf3ChanNeutralizeBackgroundArgs).Low
+	low, high:=params.(pf3ChanNeutralizeBackgroundArgs).Low, params.(pf3ChanNeutralizeBackgroundArgs).High
 	scaler:=float32(0)
 	if high>low { scaler=1.0/(high-low) }
 	for i, l:=range ls {
-- 
2.43.0


From 51a05675b0ea20b3a3a44cbda9fd5c56ea75e0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 045/100] fix: calibrate only applies the masters it asks for

A calibrate operator without dark (or flat) frame applied the dark (flat) frame an earlier calibrate operator of the same job had loaded into the context.
---
 internal/ops/pre/preprocess.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 65b9621..7bcba52 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -131,7 +131,13 @@ func (op *OpCalibrate) init(c *ops.Context) (dark, flat *fits.Image, flatMax flo
 	if needFlat {
 		c.FlatFrame = flat
 	}
-	dark, flat = c.DarkFrame, c.FlatFrame
+	dark, flat = nil, nil // apply only what this operator asks for, even if others loaded more
+	if op.Dark != "" {
+		dark = c.DarkFrame
+	}
+	if op.Flat != "" {
+		flat = c.FlatFrame
+	}
 	if dark != nil && flat != nil && !fits.EqualInt32Slice(dark.Naxisn, flat.Naxisn) {
 		return nil, nil, 0, fmt.Errorf("dark dimensions %v differ from flat dimensions %v",
 			dark.Naxisn, flat.Naxisn)
-- 
2.43.0


From 3fe570c7a470a774c23997bb87c68558bdb75618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:07 +0000
Subject: [PATCH 046/100] fix: vertical debanding with window 0 is off as
 documented

---
 internal/ops/pre/banding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ops/pre/banding.go b/internal/ops/pre/banding.go
index c2a3eae..0acd8bf 100644
--- a/internal/ops/pre/banding.go
+++ b/internal/ops/pre/banding.go
@@ -195,7 +195,7 @@ func (op *OpDebandVert) UnmarshalJSON(data []byte) error {
 }
 
 func (op *OpDebandVert) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err error) {
-	if op.Percentile<=0 || op.Percentile>=100 { return f, nil }
+	if op.Percentile<=0 || op.Percentile>=100 || op.Window<=0 { return f, nil }
 
 	// obtain dimensions
 	numCols, numRows   :=f.Naxisn[0], f.Naxisn[1]
-- 
2.43.0


From a7332d79bf6d98b65a3a0f78ac86cfbd709d7365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:07 +0000
Subject: [PATCH 047/100] fix: HSL unsharp masking with sigma 0 is off as
 documented

---
 internal/ops/hsl/hsl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index 62bdefd..a90a10b 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -536,7 +536,7 @@ func (op *OpHSLUnsharpMask) UnmarshalJSON(data []byte) error {
 }
 
 func (op *OpHSLUnsharpMask) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image, err error) {
-	if op.Gain == 0.0 {
+	if op.Sigma == 0 || op.Gain == 0.0 {
 		return f, nil
 	}
 
-- 
2.43.0


From bfb4c2361b2c66def1bcd11fa1c4390b261f3dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 048/100] fix: reject unknown out of bounds modes of the align
 operator

---
 internal/ops/post/postprocess.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/ops/post/postprocess.go b/internal/ops/post/postprocess.go
index 6a784f6..e49b9c7 100644
--- a/internal/ops/post/postprocess.go
+++ b/internal/ops/post/postprocess.go
@@ -180,6 +180,8 @@ func (op *OpAlign) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err
 			outOfBounds = histo.Location()
 		case OOBModeOwnLocation:
 			outOfBounds = f.Stats.Location()
+		default:
+			return nil, fmt.Errorf("%d: invalid out of bounds mode %d", f.ID, op.OobMode)
 		}
 
 		// Determine alignment of the image to the reference frame
-- 
2.43.0


From 52fbc67d2d3345932ab0acb79aa63b5a768991a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 049/100] fix: reject unknown export modes instead of writing
 images of the empty range

---
 internal/ops/operator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index 60f5d66..5e5955c 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -422,6 +422,8 @@ func (op *OpSave) Apply(f *fits.Image, c *Context) (result *fits.Image, err erro
 	case EM0_65535:
 		min = 0
 		max = 65535
+	default:
+		return nil, fmt.Errorf("%d: invalid export mode %d", f.ID, op.ExportMode)
 	}
 
 	if strings.HasSuffix(fnLower, ".fits") || strings.HasSuffix(fnLower, ".fit") || strings.HasSuffix(fnLower, ".fts") ||
-- 
2.43.0


From 92bc6b90e5305c50ea492f1d5935e9c3b51257e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 050/100] fix: reject unknown location and scale estimators,
 which left all locations and scales at zero

---
 cmd/nightlight/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/nightlight/main.go b/cmd/nightlight/main.go
index c87a0c6..cd0c98c 100644
--- a/cmd/nightlight/main.go
+++ b/cmd/nightlight/main.go
@@ -233,6 +233,10 @@ Flags:
 		return
 	}
 	if args[0] == "stats" || args[0] == "stack" || args[0] == "stretch" || args[0] == "rgb" || args[0] == "lrgb" {
+		if *lsEst < int64(stats.LSEMeanStdDev) || *lsEst > int64(stats.LSEHistogram) {
+			fmt.Fprintf(logWriter, "Error: unknown location and scale estimator %d\n", *lsEst)
+			os.Exit(-1)
+		}
 		fmt.Fprintf(logWriter, "Using location and scale estimator %d\n", *lsEst)
 		stats.LSEstimator = stats.LSEstimatorMode(*lsEst)
 	}
-- 
2.43.0


From de87db99e7f9544c88f128255eec76e7cd51a255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 051/100] fix: reject unknown histogram matching modes instead
 of skipping the match

---
 internal/ops/post/postprocess.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/ops/post/postprocess.go b/internal/ops/post/postprocess.go
index e49b9c7..bb905f9 100644
--- a/internal/ops/post/postprocess.go
+++ b/internal/ops/post/postprocess.go
@@ -91,6 +91,8 @@ func (op *OpMatchHistogram) Apply(f *fits.Image, c *ops.Context) (result *fits.I
 		f.MatchHistogram(histo)
 	case HNMLocBlack:
 		f.ShiftBlackToMove(f.Stats.Location(), histo.Location())
+	default:
+		return nil, fmt.Errorf("%d: invalid histogram matching mode %d", f.ID, op.Mode)
 	}
 	fmt.Fprintf(c.Log, "%d: %s after matching reference histogram %v\n", f.ID, f.Stats, histo)
 	return f, nil
-- 
2.43.0


From 1e8c97bc7f75390fc6c1dede705b73dceaf0f4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 052/100] fix: serialise the log output of concurrently
 processed frames

---
 internal/ops/operator.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index 5e5955c..9c8b628 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -56,7 +56,7 @@ type Context struct {
 func NewContext(log io.Writer, stMemory int, lsEstimatorMode stats.LSEstimatorMode) *Context {
 	memoryMB := int(memory.TotalMemory() / 1024 / 1024)
 	return &Context{
-		Log:             log,
+		Log:             &lockedWriter{w: log},
 		LSEstimatorMode: lsEstimatorMode,
 		MemoryMB:        memoryMB,
 		StackMemoryMB:   stMemory,
@@ -64,6 +64,19 @@ func NewContext(log io.Writer, stMemory int, lsEstimatorMode stats.LSEstimatorMo
 	}
 }
 
+// A writer which serialises the log output of concurrently processed frames.
+// The response writer of a server job, among others, must not be used concurrently
+type lockedWriter struct {
+	mutex sync.Mutex
+	w     io.Writer
+}
+
+func (l *lockedWriter) Write(p []byte) (n int, err error) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
+	return l.w.Write(p)
+}
+
 // A promise for a FITS image. Returns a materialized image, or an error
 type Promise func() (f *fits.Image, err error)
 
-- 
2.43.0


From 7545a97ebe23d4b19c973e0d5897800e301403ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:29 +0000
Subject: [PATCH 053/100] fix: statistics of images whose pixel count is not a
 multiple of four

The AVX2 implementations read groups of four values, past the end of the data.
---
 internal/stats/stats_amd64.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/internal/stats/stats_amd64.go b/internal/stats/stats_amd64.go
index 4022bc7..864960c 100644
--- a/internal/stats/stats_amd64.go
+++ b/internal/stats/stats_amd64.go
@@ -23,23 +23,36 @@ import (
 
 // Calculate minimum, mean and maximum of given data
 func calcMinMeanMax(data []float32) (min, mean, max float32) {
-    if cpuid.CPU.AVX2() {
-        return calcMinMeanMaxAVX2(data)
+    n:=len(data) &^ 3  // the AVX2 implementation processes groups of four values
+    if n==0 || !cpuid.CPU.AVX2() {
+        return calcMinMeanMaxPureGo(data)
     }
-    return calcMinMeanMaxPureGo(data)
+    min, mean, max=calcMinMeanMaxAVX2(data[:n])
+    if rest:=data[n:]; len(rest)>0 {
+        rMin, rMean, rMax:=calcMinMeanMaxPureGo(rest)
+        if rMin<min { min=rMin }
+        if rMax>max { max=rMax }
+        mean=float32((float64(mean)*float64(n)+float64(rMean)*float64(len(rest)))/float64(len(data)))
+    }
+    return min, mean, max
 }
 
-// Calculate minimum, mean and maximum of given data. AVX2 implementation
+// Calculate minimum, mean and maximum of given data. AVX2 implementation, for nonempty data with a length divisible by four
 func calcMinMeanMaxAVX2(data []float32) (min, mean, max float32)
 
 
 // Calculate variance of given data from provided mean. 
 func calcVariance(data []float32, mean float32) (result float64) {
-    if cpuid.CPU.AVX2() {
-		return calcVarianceAVX2(data, mean)
+    n:=len(data) &^ 3  // the AVX2 implementation processes groups of four values
+    if n==0 || !cpuid.CPU.AVX2() {
+        return calcVariancePureGo(data, mean)
+    }
+    result=calcVarianceAVX2(data[:n], mean)
+    if rest:=data[n:]; len(rest)>0 {
+        result=(result*float64(n)+calcVariancePureGo(rest, mean)*float64(len(rest)))/float64(len(data))
     }
-	return calcVariancePureGo(data, mean)
+    return result
 }
 
-// Calculate variance of given data from provided mean. AVX2 implementation
+// Calculate variance of given data from provided mean. AVX2 implementation, for nonempty data with a length divisible by four
 func calcVarianceAVX2(data []float32, mean float32) (result float64)
-- 
2.43.0


From 07d20078e8a07f12cb27caa4fab207a5d70e2ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 054/100] fix: median filter and noise estimate of images
 narrower than eight pixels

The AVX2 implementations access memory before the start of such lines.
---
 internal/median/median3x3_amd64.go | 2 +-
 internal/stats/noise_amd64.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/median/median3x3_amd64.go b/internal/median/median3x3_amd64.go
index 5f9f3c1..832c4c3 100644
--- a/internal/median/median3x3_amd64.go
+++ b/internal/median/median3x3_amd64.go
@@ -25,7 +25,7 @@ import (
 // Applies 3x3 median filter to input data, assumed to be a 2D array with given line width, and stores results in output.
 // Copies over the outermost rows and columns unchanged.
 func MedianFilter3x3(output, data []float32, width int32) {
-    if cpuid.CPU.AVX2() {
+    if width>=8 && cpuid.CPU.AVX2() { // AVX2 implementation processes eight columns at a time
       medianFilter3x3AVX2(output, data, width)
     } else {
       medianFilter3x3PureGo(output, data,width)
diff --git a/internal/stats/noise_amd64.go b/internal/stats/noise_amd64.go
index 226d55c..ce90209 100644
--- a/internal/stats/noise_amd64.go
+++ b/internal/stats/noise_amd64.go
@@ -25,7 +25,7 @@ import (
 // Estimate the level of gaussian noise on a natural image.
 // From J. Immerkær, “Fast Noise Variance Estimation”, Computer Vision and Image Understanding, Vol. 64, No. 2, pp. 300-302, Sep. 1996
 func EstimateNoise(data []float32, width int32) float32 {
-    if cpuid.CPU.AVX2() {
+    if width>=8 && cpuid.CPU.AVX2() { // AVX2 implementation processes eight columns at a time
         return estimateNoiseAVX2(data, width)
     }
     return estimateNoisePureGo(data,width)
-- 
2.43.0


From 8baa58062450a424a7404112dad7cb266da9423f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 055/100] fix: check for FMA3 before using the AVX2 noise
 estimate

Its inner loop uses fused multiply-add instructions, a separate processor feature.
---
 internal/stats/noise_amd64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/stats/noise_amd64.go b/internal/stats/noise_amd64.go
index ce90209..fe5e705 100644
--- a/internal/stats/noise_amd64.go
+++ b/internal/stats/noise_amd64.go
@@ -25,7 +25,7 @@ import (
 // Estimate the level of gaussian noise on a natural image.
 // From J. Immerkær, “Fast Noise Variance Estimation”, Computer Vision and Image Understanding, Vol. 64, No. 2, pp. 300-302, Sep. 1996
 func EstimateNoise(data []float32, width int32) float32 {
-    if width>=8 && cpuid.CPU.AVX2() { // AVX2 implementation processes eight columns at a time
+    if width>=8 && cpuid.CPU.AVX2() && cpuid.CPU.FMA3() { // AVX2 implementation processes eight columns at a time
         return estimateNoiseAVX2(data, width)
     }
     return estimateNoisePureGo(data,width)
-- 
2.43.0


From f08bd31f1a5fb9512ea147fe22a6016bed4230de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 056/100] fix: web editor emitted numeric choices as texts,
 which the engine rejects

---
 web/js/codegen.js | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/web/js/codegen.js b/web/js/codegen.js
index 0aa1b36..95b4b04 100644
--- a/web/js/codegen.js
+++ b/web/js/codegen.js
@@ -70,11 +70,11 @@ Json["nl_pre_debayer"]=function(block) {
 }
 
 Json["nl_pre_debandVert"]=function(block) {
-  return createJsonObject(block, "debandVert", ["percentile", "window"], null, null);
+  return createJsonObject(block, "debandVert", ["percentile"], ["window"], null);
 }
 
 Json["nl_pre_debandHoriz"]=function(block) {
-  return createJsonObject(block, "debandHoriz", ["percentile", "window"], null, null);
+  return createJsonObject(block, "debandHoriz", ["percentile"], ["window"], null);
 }
 
 Json["nl_pre_scaleOffset"]=function(block) {
@@ -82,7 +82,7 @@ Json["nl_pre_scaleOffset"]=function(block) {
 }
 
 Json["nl_pre_bin"]=function(block) {
-  return createJsonObject(block, "bin", ["binSize"], null, null);
+  return createJsonObject(block, "bin", null, ["binSize"], null);
 }
 
 Json["nl_pre_backExtract"]=function(block) {
@@ -162,7 +162,7 @@ Json["nl_hsl_hslApplyLum"]=function(block) {
 }
 
 Json["nl_hsl_hslScaleOffsetChannel"]=function(block) {
-  return createJsonObject(block, "hslScaleOffsetChannel", ["channelID", "scale", "offset"], null);
+  return createJsonObject(block, "hslScaleOffsetChannel", ["scale", "offset"], ["channelID"]);
 }
 
 Json["nl_hsl_hslNeutralizeBackground"]=function(block) {
-- 
2.43.0


From 73e22799661bd80f92a0b0f42cac4be0b272bb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 057/100] fix: web editor did not pass on the grid size for
 background extraction

---
 web/js/blocks.js  | 2 +-
 web/js/codegen.js | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/web/js/blocks.js b/web/js/blocks.js
index 19b395c..11fb4ae 100644
--- a/web/js/blocks.js
+++ b/web/js/blocks.js
@@ -264,7 +264,7 @@ Blockly.defineBlocksWithJsonArray([
     "args0": [
       {
         "type": "field_dropdown",
-        "name": "grid",
+        "name": "gridSize",
         "options" : [
           [ "0", "0"],
           [ "32", "32"],
diff --git a/web/js/codegen.js b/web/js/codegen.js
index 95b4b04..5ee3014 100644
--- a/web/js/codegen.js
+++ b/web/js/codegen.js
@@ -86,7 +86,7 @@ Json["nl_pre_bin"]=function(block) {
 }
 
 Json["nl_pre_backExtract"]=function(block) {
-  return createJsonObject(block, "backExtract", ["gridSize", "hfrFactor", "sigma", "clip"], null, ["save"]);
+  return createJsonObject(block, "backExtract", ["hfrFactor", "sigma", "clip"], ["gridSize"], ["save"]);
 }
 
 Json["nl_pre_starDetect"]=function(block) {
-- 
2.43.0


From 5cf74148876da2c394ac6364bcee122c379f9fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 058/100] fix: stacking modes offered by the web editor were
 off by one

---
 web/js/blocks.js | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/web/js/blocks.js b/web/js/blocks.js
index 11fb4ae..9230321 100644
--- a/web/js/blocks.js
+++ b/web/js/blocks.js
@@ -503,8 +503,9 @@ Blockly.defineBlocksWithJsonArray([
           [ "mean (no sigmas)", "1"],
           [ "sigma-clipped mean", "2"],
           [ "winsorized mean", "3"],
-          [ "linear regression fit", "4"],
-          [ "automatic mode selection", "5"],
+          [ "MAD-clipped mean", "4"],
+          [ "linear regression fit", "5"],
+          [ "automatic mode selection", "6"],
         ]
       }
     ],
-- 
2.43.0


From 2f5916744a2256a91b2e2064200a8f75d5de8523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 059/100] fix: reference selection jobs made by the web editor
 were rejected by the engine

---
 web/js/blocks.js  | 21 ++++++++++++++-------
 web/js/codegen.js |  5 ++++-
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/web/js/blocks.js b/web/js/blocks.js
index 9230321..3a7cde2 100644
--- a/web/js/blocks.js
+++ b/web/js/blocks.js
@@ -387,21 +387,28 @@ Blockly.defineBlocksWithJsonArray([
   {
     "type": "nl_ref_selectReference",
     "tooltip": "Select reference frame for histogram normalization and alignment",
-    "message0": "Select reference frame by %1",
+    "message0": "Select %1 reference frame by %2",
     "args0": [
+      {
+        "type": "field_dropdown",
+        "name": "target",
+        "options" : [
+          [ "alignment", "0"],
+          [ "histogram", "1"]
+        ]
+      },
       {
         "type": "field_dropdown",
         "name": "mode",
         "options" : [
-          [ "highest # stars / HFR (for lights)", "0"],
-          [ "median skyfog location (for flats)", "1"],
-          [ "given filename", "2"],
-          [ "given in-memory image", "3"],
-          [ "Lum if present, else best RGB", "4"]
+          [ "highest # stars / HFR (for lights)", "%starsHFR"],
+          [ "median skyfog location (for flats)", "%location"],
+          [ "given filename or in-memory image number", ""],
+          [ "Lum if present, else best RGB", "%rgb"]
         ]
       }
     ],
-    "message1": "with optional filename %1",
+    "message1": "with optional filename or number %1",
     "args1": [
       {
         "type": "field_input",
diff --git a/web/js/codegen.js b/web/js/codegen.js
index 5ee3014..1bc7a9a 100644
--- a/web/js/codegen.js
+++ b/web/js/codegen.js
@@ -94,7 +94,10 @@ Json["nl_pre_starDetect"]=function(block) {
 }
 
 Json["nl_ref_selectReference"]=function(block) {
-  return createJsonObject(block, "selectRef", ["fileName",], ["mode"], ["starDetect"]);
+  var res=JSON.parse(createJsonObject(block, "selectRef", ["mode"], ["target"], ["starDetect"]));
+  if(res.mode=="") // given filename or in-memory image number
+    res.mode=block.getFieldValue("fileName");
+  return JSON.stringify(res);
 }
 
 Json["nl_post_matchHistogram"]=function(block) {
-- 
2.43.0


From 02be5c16aa8c8f7651b5a305e8fdc31b5fc21354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 060/100] fix: bad pixel removal ignored the bayer pattern
 given in a job

---
 internal/ops/pre/preprocess.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 7bcba52..59b48f7 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -170,7 +170,7 @@ type OpBadPixel struct {
 	ops.OpUnaryBase
 	SigmaLow  float32    `json:"sigmaLow"`
 	SigmaHigh float32    `json:"sigmaHigh"`
-	Debayer   *OpDebayer `json:"-"`
+	Debayer   *OpDebayer `json:"debayer"`
 }
 
 func init() { ops.SetOperatorFactory(func() ops.Operator { return NewOpBadPixelDefaults() }) } // register the operator for JSON decoding
-- 
2.43.0


From 30bc4602833920791b3158d17e5e531579e965fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 061/100] fix: a job or batch step consisting of a single
 operator was ignored

---
 internal/ops/operator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index 9c8b628..9cfa946 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -505,6 +505,9 @@ func (op *OpSequence) UnmarshalJSON(b []byte) error {
 		return err
 	}
 	op.Type = tmp.Type
+	if tmp.Type != "" && tmp.Type != "seq" { // a single operator, i.e. a sequence of one step
+		op.Type, tmp.StepsRaw = "seq", []json.RawMessage{b}
+	}
 
 	for _, raw := range tmp.StepsRaw {
 		var step OpBase
-- 
2.43.0


From 4f19e6e4695424d04d644d1b62ba564c044edf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 062/100] fix: an unknown command ended with a success exit
 code

---
 cmd/nightlight/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/nightlight/main.go b/cmd/nightlight/main.go
index cd0c98c..a531ab9 100644
--- a/cmd/nightlight/main.go
+++ b/cmd/nightlight/main.go
@@ -425,7 +425,7 @@ Flags:
 	default:
 		fmt.Fprintf(logWriter, "Unknown command '%s'\n\n", args[0])
 		flag.Usage()
-		return
+		os.Exit(-1)
 	}
 
 	if err != nil {
-- 
2.43.0


From cf35050dc9c3ce5007b9353d17e350cf088ee505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 063/100] fix: the command name was taken for an input file
 pattern

---
 cmd/nightlight/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/nightlight/main.go b/cmd/nightlight/main.go
index a531ab9..563e358 100644
--- a/cmd/nightlight/main.go
+++ b/cmd/nightlight/main.go
@@ -286,7 +286,7 @@ Flags:
 
 	// glob filename arguments into an opLoadMany operator
 	var err error
-	opLoadMany := ops.NewOpLoadMany(args)
+	opLoadMany := ops.NewOpLoadMany(args[1:]) // without the command
 
 	// parse preprocessing flags into preprocessing sequence operator
 	opDebayer := pre.NewOpDebayer(*debayer, *cfa)
-- 
2.43.0


From 59b42d3355eb2f12258d124402d2a8ee381eda40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 064/100] fix: commands argb and lrgb were documented, but
 rejected as unknown

---
 README.md              |  9 +++++----
 cmd/nightlight/main.go | 12 +++---------
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/README.md b/README.md
index b490c46..b6debde 100644
--- a/README.md
+++ b/README.md
@@ -100,7 +100,7 @@ Key Makefile targets include:
 The syntax for calling nightlight directly is: 
 
 ```
-nightlight [-flag value] (stats|stack|rgb|argb|lrgb|legal|version) (light1.fit ... lightn.fit)
+nightlight [-flag value] (stats|stack|stretch|rgb|run|serve|legal|version) (light1.fit ... lightn.fit)
 ```
 
 The available commands are:
@@ -109,9 +109,10 @@ The available commands are:
 |---------|-------------|
 |stats    |Show input image statistics |
 |stack    |Stack input images |
-|rgb      |Combine color channels. Inputs are treated as r, g and b channel in that order |
-|argb     |Combine color channels and align with luminance. Inputs are treated as l, r, g and b channels |
-|lrgb     |Combine color channels and combine with luminance. Inputs are treated as l, r, g and b channels |
+|stretch  |Stretch single image |
+|rgb      |Combine color channels. Inputs are treated as r, g, b and optional l channel in that order |
+|run      |Run a JSON job from the file specified by -job |
+|serve    |Serve the web user interface and HTTP API on the port specified by -port |
 |legal    |Show license and attribution information |
 |version  |Show version information |
 
diff --git a/cmd/nightlight/main.go b/cmd/nightlight/main.go
index 563e358..cec5e68 100644
--- a/cmd/nightlight/main.go
+++ b/cmd/nightlight/main.go
@@ -175,7 +175,7 @@ This program comes with ABSOLUTELY NO WARRANTY.
 This is free software, and you are welcome to redistribute it under certain conditions.
 Refer to https://www.gnu.org/licenses/gpl-3.0.en.html for details.
 
-Usage: %s [-flag value] (stats|stack|rgb|argb|lrgb|legal) (img0.fits ... imgn.fits)
+Usage: %s [-flag value] (stats|stack|stretch|rgb|run|serve|legal|version) (img0.fits ... imgn.fits)
 
 Commands:
   stats   Show input image statistics
@@ -183,6 +183,7 @@ Commands:
   stretch Stretch single image
   rgb     Combine color channels. Inputs are treated as r, g, b and optional l channel in that order
   run     Run a JSON job from the file specified by -job 
+  serve   Serve the web user interface and HTTP API on the port specified by -port
   legal   Show license and attribution information
   version Show version information
 
@@ -232,7 +233,7 @@ Flags:
 		flag.Usage()
 		return
 	}
-	if args[0] == "stats" || args[0] == "stack" || args[0] == "stretch" || args[0] == "rgb" || args[0] == "lrgb" {
+	if args[0] == "stats" || args[0] == "stack" || args[0] == "stretch" || args[0] == "rgb" {
 		if *lsEst < int64(stats.LSEMeanStdDev) || *lsEst > int64(stats.LSEHistogram) {
 			fmt.Fprintf(logWriter, "Error: unknown location and scale estimator %d\n", *lsEst)
 			os.Exit(-1)
@@ -268,13 +269,6 @@ Flags:
 		if *starBpSig < 0 {
 			*starBpSig = 0
 		} // inputs are typically stacked and have undergone noise removal
-	case "lrgb":
-		if *normHist == post.HNMAuto {
-			*normHist = post.HNMNone
-		}
-		if *starBpSig < 0 {
-			*starBpSig = 0
-		} // inputs are typically stacked and have undergone noise removal
 	case "legal":
 	case "version":
 	case "help", "?":
-- 
2.43.0


From 5dcc55204b2b27f9330d2913c220597b1a0cf358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 065/100] fix: README listed options the program does not have

---
 README.md | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/README.md b/README.md
index b6debde..4b13225 100644
--- a/README.md
+++ b/README.md
@@ -126,7 +126,7 @@ Available flags are:
 |jpg            |%auto       | save 8bit preview of output as JPEG to `file`. `%auto` replaces suffix of output file with .jpg |
 |log            |%auto       | save log output to `file`. `%auto` replaces suffix of output file with .log |
 |pre            |            | save pre-processed frames with given filename pattern, e.g. `pre%04d.fits` |
-|star           |            | save star detections with given pattern, e.g. `stars%04d.fits` |
+|stars          |            | save star detections with given pattern, e.g. `stars%04d.fits` |
 |back           |            | save extracted background with given filename pattern, e.g. `back%04d.fits` |
 |post           |            | save post-processed frames with given filename pattern, e.g. `post%04d.fits` |
 |batch          |            | save stacked batches with given filename pattern, e.g. `batch%04d.fits` |
@@ -143,7 +143,6 @@ Available flags are:
 |backGrid       |0           | automated background extraction: grid size in pixels, 0=off |
 |backSigma      |1.5         | automated background extraction: sigma for detecting foreground objects |
 |backClip       |0           | automated background extraction: clip the k brightest grid cells and replace with local median |
-|align          |1           | 1=align frames, 0=do not align |
 |alignK         |20          | use triangles fromed from K brightest stars for initial alignment |
 |alignT         |1.0         | skip frames if alignment to reference frame has residual greater than this |
 |lsEst          |3           | location and scale estimators 0=mean/stddev, 1=median/MAD, 2=IKSS, 3=iterative sigma-clipped sampled median and sampled Qn (standard) |
@@ -153,8 +152,6 @@ Available flags are:
 |usmGain        |0           | unsharp masking gain, 0=no op|
 |usmThresh      |1           | unsharp masking threshold, in standard deviations above background|
 |stMode         |5           | stacking mode. 0=median, 1=mean, 2=sigma clip, 3=winsorized sigma clip, 4=linear fit, 5=auto |
-|stClipPercLow  |0.5         | set desired low clipping percentage for stacking, 0=ignore (overrides sigmas) |
-|stClipPercHigh |0.5         | set desired high clipping percentage for stacking, 0=ignore (overrides sigmas) |
 |stSigLow       |-1          | low sigma for stacking as multiple of standard deviations, -1: use clipping percentage to find |
 |stSigHigh      |-1          | high sigma for stacking as multiple of standard deviations, -1: use clipping percentage to find |
 |stWeight       |0           | weights for stacking. 0=unweighted (default), 1=by exposure, 2=by inverse noise |
-- 
2.43.0


From 1ad07832e2627da6dde9b4ea10c66664d611ad28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 066/100] fix: option normRange had no effect

---
 README.md              | 2 +-
 cmd/nightlight/main.go | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/README.md b/README.md
index 4b13225..9d1095f 100644
--- a/README.md
+++ b/README.md
@@ -146,7 +146,7 @@ Available flags are:
 |alignK         |20          | use triangles fromed from K brightest stars for initial alignment |
 |alignT         |1.0         | skip frames if alignment to reference frame has residual greater than this |
 |lsEst          |3           | location and scale estimators 0=mean/stddev, 1=median/MAD, 2=IKSS, 3=iterative sigma-clipped sampled median and sampled Qn (standard) |
-|normRange      |0           | normalize range: 1=normalize to [0,1], 0=do not normalize |
+|normRange      |1           | normalize range when stretching: 1=normalize to [0,1], 0=do not normalize |
 |normHist       |3           | normalize histogram: 0=do not normalize, 1=location and scale, 2=black point shift for RGB align, 3=auto |
 |usmSigma       |1           | unsharp masking sigma, ~1/3 radius|
 |usmGain        |0           | unsharp masking gain, 0=no op|
diff --git a/cmd/nightlight/main.go b/cmd/nightlight/main.go
index cec5e68..9a9e962 100644
--- a/cmd/nightlight/main.go
+++ b/cmd/nightlight/main.go
@@ -105,7 +105,7 @@ var alignK = flag.Int64("alignK", 20, "use triangles formed from K brightest sta
 var alignT = flag.Float64("alignT", 1.0, "skip frames if alignment to reference frame has residual greater than this")
 
 var lsEst = flag.Int64("lsEst", 3, "location and scale estimators 0=mean/stddev, 1=median/MAD, 2=IKSS, 3=iterative sigma-clipped sampled median and sampled Qn (standard), 4=histogram peak")
-var normRange = flag.Int64("normRange", 0, "normalize range: 1=normalize to [0,1], 0=do not normalize")
+var normRange = flag.Int64("normRange", 1, "normalize range when stretching: 1=normalize to [0,1], 0=do not normalize")
 var normHist = flag.Int64("normHist", 4, "normalize histogram: 0=do not normalize, 1=location, 2=location and scale, 3=black point shift for RGB align, 4=auto")
 
 var stMode = flag.Int64("stMode", 6, "stacking mode. 0=median, 1=mean, 2=sigma clip, 3=winsorized sigma clip, 4=MAD sigma clip, 5=linear fit, 6=auto")
@@ -339,9 +339,13 @@ Flags:
 		err = runOp(opSeq, c)
 
 	case "stretch":
+		opNorm := ops.NewOpSequence()
+		if *normRange != 0 {
+			opNorm = ops.NewOpSequence(stretch.NewOpNormalizeRange())
+		}
 		opSeq := ops.NewOpSequence(
 			opLoadMany,
-			stretch.NewOpNormalizeRange(),
+			opNorm,
 			stretch.NewOpStretchIterative(float32(*autoLoc/100), float32(*autoScale/100)),
 			stretch.NewOpMidtones(float32(*midtone), float32(*midBlack)),
 			stretch.NewOpGamma(float32(*gamma)),
-- 
2.43.0


From 810f6c88724162633017d7577630b8ba0f2e1bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 067/100] fix: stats ignored the options bpSigLow and bpSigHigh

---
 cmd/nightlight/main.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/nightlight/main.go b/cmd/nightlight/main.go
index 9a9e962..0381bca 100644
--- a/cmd/nightlight/main.go
+++ b/cmd/nightlight/main.go
@@ -246,8 +246,14 @@ Flags:
 	switch args[0] {
 	case "serve":
 	case "stats":
-		*bpSigLow = 0
-		*bpSigHigh = 0
+		given := map[string]bool{}
+		flag.Visit(func(f *flag.Flag) { given[f.Name] = true })
+		if !given["bpSigLow"] {
+			*bpSigLow = 0
+		}
+		if !given["bpSigHigh"] {
+			*bpSigHigh = 0
+		}
 		if *normHist == post.HNMAuto {
 			*normHist = post.HNMNone
 		}
-- 
2.43.0


From e1348515d284266b6dece8b76cc3839e2d453567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:53 +0000
Subject: [PATCH 068/100] fix: sampled statistics differed between runs on the
 same data

---
 internal/star/findstars.go |  1 +
 internal/stats/stats.go    | 11 +++++++++++
 2 files changed, 12 insertions(+)

diff --git a/internal/star/findstars.go b/internal/star/findstars.go
index 2ccc4a8..76a9b29 100644
--- a/internal/star/findstars.go
+++ b/internal/star/findstars.go
@@ -141,6 +141,7 @@ func rejectBadPixels(stars []Star, data []float32, width int32, sigma float32, m
 		numSamples:=len(data)/100
 		samples:=make([]float32,numSamples)
 		rng:=fastrand.RNG{}
+		rng.Seed(0x9e3779b9) // same samples in every run
 		for i:=0; i<numSamples; i++ {
 			index:=int32(rng.Uint32n(uint32(len(data))))
 			median :=median.GatherAndMedian(data, index, mask, buffer)
diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index f25edbe..6788266 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -352,11 +352,15 @@ func SigmaClippedMedianAndMAD(data []float32, sigmaLow, sigmaHigh float32) (medi
 	}
 }
 
+// Seed for random sampling, so repeated runs on the same data give the same results. A generator without a seed takes one from the clock
+const samplingSeed = 0x9e3779b9
+
 // Calculates fast approximate median of the (presumably large) data by subsampling the given number of values and taking the median of that.
 // Uses provided samples array as scratchpad
 func FastApproxMedian(data []float32, samples []float32) float32 {
 	max := uint32(len(data))
 	rng := fastrand.RNG{}
+	rng.Seed(samplingSeed)
 	for i := range samples {
 		index := rng.Uint32n(max)
 		samples[i] = data[index]
@@ -370,6 +374,7 @@ func FastApproxMedian(data []float32, samples []float32) float32 {
 func FastApproxBoundedMedian(data []float32, lowBound, highBound float32, samples []float32) float32 {
 	max := uint32(len(data))
 	rng := fastrand.RNG{}
+	rng.Seed(samplingSeed)
 	for i := range samples {
 		var d float32
 		for {
@@ -388,6 +393,7 @@ func FastApproxBoundedMedian(data []float32, lowBound, highBound float32, sample
 func FastApproxStdDev(data []float32, location float32, numSamples int) float32 {
 	max := uint32(len(data))
 	rng := fastrand.RNG{}
+	rng.Seed(samplingSeed)
 	sumSqDiff := float32(0)
 	for i := 0; i < numSamples; i++ {
 		index := rng.Uint32n(max)
@@ -402,6 +408,7 @@ func FastApproxStdDev(data []float32, location float32, numSamples int) float32
 func FastApproxBoundedStdDev(data []float32, location float32, lowBound, highBound float32, numSamples int) float32 {
 	max := uint32(len(data))
 	rng := fastrand.RNG{}
+	rng.Seed(samplingSeed)
 	sumSqDiff := float32(0)
 	for i := 0; i < numSamples; i++ {
 		var d float32
@@ -422,6 +429,7 @@ func FastApproxBoundedStdDev(data []float32, location float32, lowBound, highBou
 func FastApproxMAD(data []float32, location float32, samples []float32) float32 {
 	max := uint32(len(data))
 	rng := fastrand.RNG{}
+	rng.Seed(samplingSeed)
 	for i := range samples {
 		index := rng.Uint32n(max)
 		samples[i] = float32(math.Abs(float64(data[index] - location)))
@@ -435,6 +443,7 @@ func FastApproxBoundedMAD(data []float32, location float32, lowBound, highBound
 	samples := make([]float32, numSamples)
 	max := uint32(len(data))
 	rng := fastrand.RNG{}
+	rng.Seed(samplingSeed)
 	for i := range samples {
 		var d float32
 		for {
@@ -457,6 +466,7 @@ func FastApproxBoundedMAD(data []float32, location float32, lowBound, highBound
 func FastApproxQn(data []float32, samples []float32) float32 {
 	max := uint32(len(data))
 	rng := fastrand.RNG{}
+	rng.Seed(samplingSeed)
 	for i := range samples {
 		index1 := 1 + rng.Uint32n(max-1)
 		index2 := rng.Uint32n(index1)
@@ -471,6 +481,7 @@ func FastApproxQn(data []float32, samples []float32) float32 {
 func FastApproxBoundedQn(data []float32, lowBound, highBound float32, samples []float32) float32 {
 	max := uint32(len(data))
 	rng := fastrand.RNG{}
+	rng.Seed(samplingSeed)
 	for i := range samples {
 		var d1, d2 float32
 		for {
-- 
2.43.0


From adbb1f4c1914ed47fdbc19256829a1c611fcb0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:02 +0000
Subject: [PATCH 069/100] fix: lines of the statistics file were in the order
 of completion

---
 internal/ops/ref/exportstats.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/internal/ops/ref/exportstats.go b/internal/ops/ref/exportstats.go
index b35d9bf..23ba9b8 100644
--- a/internal/ops/ref/exportstats.go
+++ b/internal/ops/ref/exportstats.go
@@ -20,6 +20,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"os"
+	"sort"
 	"sync"
 
 	"github.com/mlnoga/nightlight/internal/fits"
@@ -36,6 +37,12 @@ type OpExportStats struct {
 	processed    int           // number of frames processed so far
 	file         *os.File      // the output file being written to. do not use directly
 	bufWriter    *bufio.Writer // buffered writer for the output file. use this
+	lines        []statsLine   // statistics of the frames processed so far, in order of completion
+}
+
+type statsLine struct {
+	id   int
+	text string
 }
 
 func init() { ops.SetOperatorFactory(func() ops.Operator { return NewOpExportStatsDefault() }) } // register the operator for JSON decoding
@@ -127,6 +134,7 @@ func (op *OpExportStats) writeHeader(c *ops.Context) (err error) {
 		return fmt.Errorf("error creating file %s: %s", op.FileName, err.Error())
 	}
 	op.bufWriter = bufio.NewWriter(op.file)
+	op.lines = nil
 
 	op.bufWriter.WriteString(sessionStatsHeader)
 	fmt.Fprintf(op.bufWriter, "[  ['ID','Min','Mean','Max','Location','Scale','Stars','HFR']\n")
@@ -137,12 +145,20 @@ func (op *OpExportStats) writeHeader(c *ops.Context) (err error) {
 func (op *OpExportStats) writeStats(f *fits.Image, c *ops.Context) {
 	fmt.Fprintf(c.Log, "%d: writing statistics to file %s ...\n", f.ID, op.FileName)
 	s := f.Stats
-	fmt.Fprintf(op.bufWriter, "  ,[%d,%f,%f,%f,%f,%f,%d,%f]\n",
-		f.ID, s.Min(), s.Mean(), s.Max(), s.Location(), s.Scale(), len(f.Stars), f.HFR)
+	op.lines = append(op.lines, statsLine{f.ID, fmt.Sprintf("  ,[%d,%f,%f,%f,%f,%f,%d,%f]\n",
+		f.ID, s.Min(), s.Mean(), s.Max(), s.Location(), s.Scale(), len(f.Stars), f.HFR)})
 }
 
 func (op *OpExportStats) writeFooter(c *ops.Context) (err error) {
 	fmt.Fprintf(c.Log, "Writing statistics footer to file %s ...\n", op.FileName)
+	sort.Slice(op.lines, func(i, j int) bool {
+		a, b := op.lines[i], op.lines[j]
+		return a.id < b.id || a.id == b.id && a.text < b.text
+	})
+	for _, l := range op.lines {
+		op.bufWriter.WriteString(l.text)
+	}
+	op.lines = nil
 	fmt.Fprintf(op.bufWriter, "]")
 	op.bufWriter.WriteString(sessionStatsTrailer)
 	err = op.bufWriter.Flush()
-- 
2.43.0


From 0c22d78c90b6e738421e06be6d2b33d353d544d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:50 +0000
Subject: [PATCH 070/100] fix: frames were divided into different batches in
 every run

---
 internal/ops/stack/stackbatches.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index 0510f65..49fdb07 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -207,7 +207,7 @@ func (op *OpStackBatches) partition(ins []ops.Promise, c *ops.Context) (insPerm
 			perm[i] = i
 		}
 		fmt.Fprintf(c.Log, "Randomizing input files into batches...\n")
-		perm = rand.Perm(len(ins))
+		perm = rand.New(rand.NewSource(1)).Perm(len(ins)) // same batches in every run
 		for i := 0; i < int(numBatches); i++ {
 			from := i * int(batchSize)
 			to := (i + 1) * int(batchSize)
-- 
2.43.0


From ff52b4bcad6ce76b8da03eddbb802495495c4320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:40 +0000
Subject: [PATCH 071/100] fix: drawing a circle never ended for radii which are
 large against the step

---
 internal/fits/fits.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/fits/fits.go b/internal/fits/fits.go
index a20b614..cd340c7 100644
--- a/internal/fits/fits.go
+++ b/internal/fits/fits.go
@@ -197,8 +197,15 @@ func NewImageBinNxN(src *Image, n int32) *Image {
 
 // Fill a circle of given radius on the FITS image
 func (f* Image) FillCircle(xc,yc,r,color float32) {
-	for y:=-r; y<=r; y+=0.5 {
-		for x:=-r; x<=r; x+=0.5 {
+	if !(r>=0) { return }
+	limit:=float32(f.Naxisn[0])+float32(f.Naxisn[1])
+	if r>limit { r=limit } // covers the full image already
+	// count half pixel steps as integers, a float counter stops changing once it is large against the step
+	steps:=int32(4*r)
+	for yStep:=int32(0); yStep<=steps; yStep++ {
+		y:=float32(yStep)*0.5-r
+		for xStep:=int32(0); xStep<=steps; xStep++ {
+			x:=float32(xStep)*0.5-r
 			distSq:=y*y+x*x
 			if distSq<=r*r+1e-6 {
 				index:=int32(xc+x) + int32(yc+y)*(f.Naxisn[0])
-- 
2.43.0


From 37aea7d51502cecbb400a99e6c562378abe06620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:41 +0000
Subject: [PATCH 072/100] fix: color balancing with an invalid block size,
 border or star fraction crashed or never ended

---
 internal/fits/rgb.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/fits/rgb.go b/internal/fits/rgb.go
index 2a965a9..1a2ea85 100644
--- a/internal/fits/rgb.go
+++ b/internal/fits/rgb.go
@@ -93,6 +93,12 @@ func (hsl *Image) ApplyLuminanceToCIExyY(lum *Image) {
 // Then find the darkest block, and set it to the desired color; and find the average star color,
 // and set it to the desired color  
 func (f *Image) SetBlackWhitePoints(block int32, border, skipBright, skipDim float32, shadows, highlights RGB, logWriter io.Writer) error {
+	if block<1 { return fmt.Errorf("invalid block size %d for color balancing", block) }
+	if !(border>=0 && border<=1) { return fmt.Errorf("invalid border fraction %g for color balancing", border) }
+	if !(skipBright>=0 && skipBright<=1 && skipDim>=0 && skipDim<=1) {
+		return fmt.Errorf("invalid fractions of bright and dim stars %g and %g to skip for color balancing", skipBright, skipDim)
+	}
+
 	// Estimate location (=histogram peak, background black point) per color channel
 	statsR:=stats.NewStatsForChannel(f.Data, f.Naxisn[0], 0, 3)
 	statsG:=stats.NewStatsForChannel(f.Data, f.Naxisn[0], 1, 3)
-- 
2.43.0


From 3a0c92128b574538f23ad4b5f72d88ef55373e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:41 +0000
Subject: [PATCH 073/100] fix: clipping the background never ended when all
 grid cells were equal

---
 internal/ops/pre/background.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/internal/ops/pre/background.go b/internal/ops/pre/background.go
index 8d9a671..1e86daf 100644
--- a/internal/ops/pre/background.go
+++ b/internal/ops/pre/background.go
@@ -178,6 +178,17 @@ func (b *Background) clip(n int32, logWriter io.Writer) {
 	threshold := qsort.QSelectFloat32(buffer, len(buffer)-int(n)+1)
 	buffer = nil
 
+	// without any cell below the threshold, there would be nothing to interpolate from
+	cellsBelow := 0
+	for _, cell := range b.Cells {
+		if cell < threshold {
+			cellsBelow++
+		}
+	}
+	if cellsBelow == 0 {
+		return
+	}
+
 	ignoredCells := int32(0)
 	for i, cell := range b.Cells {
 		if cell >= threshold {
@@ -191,7 +202,7 @@ func (b *Background) clip(n int32, logWriter io.Writer) {
 	b.OutlierCells = ignoredCells
 
 	// Then replace cells with interpolations
-	for neighbors := 8; neighbors >= 0; neighbors-- {
+	for neighbors := 8; neighbors >= 1; neighbors-- {
 		numChanged := 1
 		for numChanged > 0 {
 			numChanged = interpolate(b.Cells, b.GridCellsX, b.GridCellsY, neighbors)
@@ -263,7 +274,7 @@ func interpolate(params []float32, width, height int32, neighbors int) (numChang
 			p := params[index]
 			if math.IsNaN(float64(p)) {
 				predict, numGathered := MedianInterpolation(params, width, height, x, y, temp)
-				if numGathered >= neighbors {
+				if numGathered >= neighbors && !math.IsNaN(float64(predict)) {
 					//LogPrintf("Replacing prediction for x%d y%d of %f with %f\n", x, y, p, predict)
 					params[index] = predict
 					numChanges++
-- 
2.43.0


From 6bac1a797606eaf7f8236ad4ee1da4f3fa896e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:42 +0000
Subject: [PATCH 074/100] fix: iterative k-sigma estimation never ended for
 data with a median absolute deviation of zero

---
 internal/stats/stats.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 6788266..c13463c 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -579,10 +579,10 @@ func IKSS(data []float32, epsilon float32, e float32) (location, scale float32)
 		}
 		m := xs[(i+j)>>1] // median is easy as xs are sorted
 		s := float32(math.Sqrt(float64(bwmv(xs[i:j], m, tmp))))
-		if s < epsilon {
+		if !(s >= epsilon) { // also if s is NaN, as for data with a median absolute deviation of zero
 			return m, 0
 		}
-		if s0-s < s*epsilon {
+		if !(s0-s >= s*epsilon) {
 			return m, 0.991 * s
 		}
 		s0 = s
-- 
2.43.0


From 6effebe1759a8d5b5a299bf0eef6488e1300e7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:58 +0000
Subject: [PATCH 075/100] fix: sampling between bounds never ended when no data
 lies within them

---
 internal/stats/stats.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index c13463c..ba27ed6 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -355,6 +355,9 @@ func SigmaClippedMedianAndMAD(data []float32, sigmaLow, sigmaHigh float32) (medi
 // Seed for random sampling, so repeated runs on the same data give the same results. A generator without a seed takes one from the clock
 const samplingSeed = 0x9e3779b9
 
+// Limit for the attempts to draw a sample between given bounds. There may be no such data at all, then the last draw is used
+const maxSamplingTries = 1000
+
 // Calculates fast approximate median of the (presumably large) data by subsampling the given number of values and taking the median of that.
 // Uses provided samples array as scratchpad
 func FastApproxMedian(data []float32, samples []float32) float32 {
@@ -377,7 +380,7 @@ func FastApproxBoundedMedian(data []float32, lowBound, highBound float32, sample
 	rng.Seed(samplingSeed)
 	for i := range samples {
 		var d float32
-		for {
+		for tries := 0; tries < maxSamplingTries; tries++ {
 			d = data[rng.Uint32n(max)]
 			if d >= lowBound && d <= highBound {
 				break
@@ -412,7 +415,7 @@ func FastApproxBoundedStdDev(data []float32, location float32, lowBound, highBou
 	sumSqDiff := float32(0)
 	for i := 0; i < numSamples; i++ {
 		var d float32
-		for {
+		for tries := 0; tries < maxSamplingTries; tries++ {
 			d = data[rng.Uint32n(max)]
 			if d >= lowBound && d <= highBound {
 				break
@@ -446,7 +449,7 @@ func FastApproxBoundedMAD(data []float32, location float32, lowBound, highBound
 	rng.Seed(samplingSeed)
 	for i := range samples {
 		var d float32
-		for {
+		for tries := 0; tries < maxSamplingTries; tries++ {
 			d = data[rng.Uint32n(max)]
 			if d >= lowBound && d <= highBound {
 				break
@@ -484,7 +487,7 @@ func FastApproxBoundedQn(data []float32, lowBound, highBound float32, samples []
 	rng.Seed(samplingSeed)
 	for i := range samples {
 		var d1, d2 float32
-		for {
+		for tries := 0; tries < maxSamplingTries; tries++ {
 			index1 := 1 + rng.Uint32n(max-1)
 			d1 = data[index1]
 			if d1 < lowBound || d1 > highBound {
-- 
2.43.0


From d4b18acca33583049c9089497995fdc3fae750a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 076/100] fix: gauss filters with a negative sigma never ended,
 and crashed with one which is tiny or large

---
 internal/ops/hsl/hsl.go         |  3 +++
 internal/ops/stretch/stretch.go |  2 ++
 internal/ops/stretch/usm.go     | 14 +++++++++++++-
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index a90a10b..3cb1dea 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -544,6 +544,9 @@ func (op *OpHSLUnsharpMask) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Ima
 	absThresh := st.Location() + st.Scale()*op.Threshold
 	fmt.Fprintf(c.Log, "%d: Unsharp masking with sigma %.3g gain %.3g thresh %.3g absThresh %.3g\n",
 		f.ID, op.Sigma, op.Gain, op.Threshold, absThresh)
+	if err = stretch.CheckGaussSigma(op.Sigma, f.Naxisn[0], f.Naxisn[1]); err != nil {
+		return nil, err
+	}
 	kernel := stretch.GaussianKernel1D(op.Sigma)
 	fmt.Fprintf(c.Log, "%d: Unsharp masking kernel sigma %.2f size %d: %v\n",
 		f.ID, op.Sigma, len(kernel), kernel)
diff --git a/internal/ops/stretch/stretch.go b/internal/ops/stretch/stretch.go
index 195229c..7d61c9c 100644
--- a/internal/ops/stretch/stretch.go
+++ b/internal/ops/stretch/stretch.go
@@ -368,6 +368,7 @@ func (op *OpGaussianBlur) UnmarshalJSON(data []byte) error {
 func (op *OpGaussianBlur) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err error) {
 	if op.Sigma==0 { return f, nil }
 
+	if err=CheckGaussSigma(op.Sigma, f.Naxisn[0], f.Naxisn[1]); err!=nil { return nil, err }
 	kernel:=GaussianKernel1D(op.Sigma)
 	fmt.Fprintf(c.Log, "%d: Gaussian blur kernel sigma %.2f size %d: %v\n", 
 		        f.ID, op.Sigma, len(kernel), kernel)
@@ -417,6 +418,7 @@ func (op *OpUnsharpMask) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	absThresh:=f.Stats.Location() + f.Stats.Scale()*op.Threshold
 	fmt.Fprintf(c.Log, "%d: Unsharp masking with sigma %.3g gain %.3g thresh %.3g absThresh %.3g\n", 
 		        f.ID, op.Sigma, op.Gain, op.Threshold, absThresh)
+	if err=CheckGaussSigma(op.Sigma, f.Naxisn[0], f.Naxisn[1]); err!=nil { return nil, err }
 	kernel:=GaussianKernel1D(op.Sigma)
 	fmt.Fprintf(c.Log, "%d: Unsharp masking kernel sigma %.2f size %d: %v\n", 
 		        f.ID, op.Sigma, len(kernel), kernel)
diff --git a/internal/ops/stretch/usm.go b/internal/ops/stretch/usm.go
index 91ad6b0..da5b248 100644
--- a/internal/ops/stretch/usm.go
+++ b/internal/ops/stretch/usm.go
@@ -16,6 +16,7 @@
 package stretch
 
 import (
+	"fmt"
 	"math"
 )
 
@@ -37,6 +38,14 @@ func GaussianDefiniteIntegral(mu, sigma, x float32) float32 {
 	return 0.5 * (1 + float32(math.Erf(float64((x-mu)/(sqrt2*sigma)))))
 }
 
+// Checks if the given sigma is valid for a gauss filter, and the resulting kernel does not exceed the given image dimensions
+func CheckGaussSigma(sigma float32, width, height int32) error {
+	if !(sigma > 0) || 2.5*sigma > float32(width) || 2.5*sigma > float32(height) {
+		return fmt.Errorf("invalid sigma %g for a gauss filter on a %dx%d image", sigma, width, height)
+	}
+	return nil
+}
+
 // Generates a 1D gaussian kernel for the given sigma. Based on symbolic integration via error function
 func GaussianKernel1D(sigma float32) (kernel []float32) {
 	mu := float32(0)
@@ -46,12 +55,15 @@ func GaussianKernel1D(sigma float32) (kernel []float32) {
 	radius := 0
 	for {
 		val := GaussianDefiniteIntegral(mu, sigma, float32(-0.5)-float32(radius))
-		if val < acceptOut {
+		if !(val >= acceptOut) { // also if sigma is NaN
 			radius--
 			break
 		}
 		radius++
 	}
+	if radius < 0 {
+		radius = 0 // narrow kernel covers a single pixel
+	}
 	width := 2*radius + 1
 	kernel = make([]float32, width)
 
-- 
2.43.0


From 3faa190353aa43f483e8caf430805114821ecb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:21 +0000
Subject: [PATCH 077/100] fix: background extraction crashed if the grid size
 exceeds two thirds of the image size

---
 internal/ops/pre/background.go | 13 +++++++++++--
 internal/ops/pre/preprocess.go |  3 +++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/ops/pre/background.go b/internal/ops/pre/background.go
index 1e86daf..8e65094 100644
--- a/internal/ops/pre/background.go
+++ b/internal/ops/pre/background.go
@@ -69,8 +69,17 @@ func NewBackground(src []float32, width int32, gridSpacing int32, sigma float32,
 	// Allocate space for gradient cells
 	height := int32(len(src) / int(width))
 
-	gridCellsX := (width + gridSpacing/2) / gridSpacing
-	gridCellsY := (height + gridSpacing/2) / gridSpacing
+	// Interpolation needs at least two cells in each direction
+	spacingX, spacingY := gridSpacing, gridSpacing
+	if spacingX > width/2 {
+		spacingX = width / 2
+	}
+	if spacingY > height/2 {
+		spacingY = height / 2
+	}
+
+	gridCellsX := (width + spacingX/2) / spacingX
+	gridCellsY := (height + spacingY/2) / spacingY
 	gridCells := gridCellsX * gridCellsY
 	gridSpacingX := float32(width) / float32(gridCellsX)
 	gridSpacingY := float32(height) / float32(gridCellsY)
diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 59b48f7..07270a8 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -399,6 +399,9 @@ func (op *OpBackExtract) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	if op.GridSize <= 0 {
 		return f, nil
 	}
+	if f.Naxisn[0] < 2 || f.Naxisn[1] < 2 {
+		return nil, fmt.Errorf("%d: image of size %dx%d is too small to extract its background", f.ID, f.Naxisn[0], f.Naxisn[1])
+	}
 
 	bg := NewBackground(f.Data, f.Naxisn[0], op.GridSize, op.Sigma, op.Clip, f.Stars, op.HFRFactor, c.Log)
 	fmt.Fprintf(c.Log, "%d: %s\n", f.ID, bg)
-- 
2.43.0


From bf51a31791c6341a8e8a10f52a16aaf4ec24cf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:22 +0000
Subject: [PATCH 078/100] fix: alignment allocated as many indices as
 requested, however few stars there are

---
 internal/star/align.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/star/align.go b/internal/star/align.go
index 8b12768..2b5a541 100644
--- a/internal/star/align.go
+++ b/internal/star/align.go
@@ -84,6 +84,7 @@ func (a *Aligner) Align(naxisn []int32, stars []Star, id int) (trans Transform2D
 
 // Selects the k brightest stars, skipping those closer than limit to an already selected star. Returns indices into stars
 func pickBrightestDistant(stars []Star, minLength float32, k int32) (indices []int) {
+	if int(k)>len(stars) { k=int32(len(stars)) }
 	indices=make([]int, k)
 	i:=0
 	s:=0
-- 
2.43.0


From 5b6672b8eb06d02bad8b125eab7eee3d38b8d404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:22 +0000
Subject: [PATCH 079/100] fix: scaling a channel which does not exist crashed

---
 internal/ops/hsl/hsl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index 3cb1dea..305d95f 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -113,6 +113,9 @@ func (op *OpHSLScaleOffsetChannel) Apply(f *fits.Image, c *ops.Context) (fOut *f
 	if op.Scale == 1 && op.Offset == 0 {
 		return f, nil
 	}
+	if op.ChannelID < 0 || op.ChannelID > 2 {
+		return nil, fmt.Errorf("%d: invalid channel %d, must be between 0 and 2", f.ID, op.ChannelID)
+	}
 	fmt.Fprintf(c.Log, "%d: Applying pixel math x = x * %.3f + %.3f%% to channel %d\n", f.ID, op.Scale, op.Offset*100, op.ChannelID)
 	f.ApplyScaleOffsetToChannel(op.ChannelID, op.Scale, op.Offset)
 	return f, nil
-- 
2.43.0


From a92ac257621febbe43175ee82203affc92b2efd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:23 +0000
Subject: [PATCH 080/100] fix: check the reference selection target before
 selecting, and before naming it

---
 internal/ops/ref/refframe.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/ref/refframe.go b/internal/ops/ref/refframe.go
index 11d7f84..ba63895 100644
--- a/internal/ops/ref/refframe.go
+++ b/internal/ops/ref/refframe.go
@@ -137,6 +137,9 @@ func (op *OpSelectReference) haveReference(c *ops.Context) (bool, error) {
 // Finds the reference frame and publishes its data in the context. Materializes all inputs, unless the reference is
 // given by file name. Must be called with the operator's lock held
 func (op *OpSelectReference) findReference(ins []ops.Promise, sel *selection, c *ops.Context) (err error) {
+	if op.Target < 0 || int(op.Target) >= len(srTargetStrings) {
+		return fmt.Errorf("invalid reference selection target %d", op.Target)
+	}
 	mode := op.Mode
 	fileID, atoiErr := strconv.Atoi(op.Mode) // reference frame ID, if given
 
-- 
2.43.0


From 092547724e38c7eb696a8c465db35ab80186adee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:23 +0000
Subject: [PATCH 081/100] fix: binning by more than the image size gave an
 image without pixels, which crashed later

---
 internal/ops/pre/preprocess.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 07270a8..2862a1b 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -351,6 +351,9 @@ func (op *OpBin) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err e
 	if op.BinSize <= 1 {
 		return f, nil
 	}
+	if op.BinSize > f.Naxisn[0] || op.BinSize > f.Naxisn[1] {
+		return nil, fmt.Errorf("%d: cannot bin image of size %dx%d by %d", f.ID, f.Naxisn[0], f.Naxisn[1], op.BinSize)
+	}
 	f = fits.NewImageBinNxN(f, op.BinSize)
 	fmt.Fprintf(c.Log, "%d: After %xx%d binning, new image size %dx%d\n", f.ID, op.BinSize, op.BinSize, f.Naxisn[0], f.Naxisn[1])
 	return f, nil
-- 
2.43.0


From 614400525f500d6bf8ac596126387410e7e33292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 082/100] fix: histogram based scale and location crashed on
 values which are not a number, or infinite

---
 internal/stats/stats.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index ba27ed6..5aa6645 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -685,7 +685,9 @@ func HistogramScaleLoc(data []float32, min, max float32, numBins uint32) (loc, s
 	valueToBin := float32(numBins-1) / (max - min)
 	for _, d := range data {
 		bin := uint32(((d - min) * valueToBin) + 0.5)
-		bins[bin]++
+		if bin < numBins { // skip values which are not a number
+			bins[bin]++
+		}
 	}
 
 	// find inner peak (avoid edges which may be distorted by clipping)
-- 
2.43.0


From 2664a467f8dca27766b3969c323a1da66e0feb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 083/100] fix: reading a FITS file with a single axis gave an
 image without height, which crashed later

---
 internal/fits/read.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index 2aa58c4..5c5628d 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -113,7 +113,7 @@ func (fits *Image) Read(f io.Reader, readData bool, logWriter io.Writer) (err er
 	if naxis < 1 || naxis > 999 {
 		return fmt.Errorf("%d: Unsupported number of axes NAXIS=%d", fits.ID, naxis)
 	}
-	fits.Naxisn = make([]int32, naxis)
+	axes := make([]int32, naxis)
 	fits.Pixels = int32(1)
 	for i := int32(1); i <= naxis; i++ {
 		name := "NAXIS" + strconv.FormatInt(int64(i), 10)
@@ -124,9 +124,13 @@ func (fits *Image) Read(f io.Reader, readData bool, logWriter io.Writer) (err er
 		if nai < 1 || int64(fits.Pixels)*int64(nai) > math.MaxInt32 {
 			return fmt.Errorf("%d: Unsupported image dimension %s=%d", fits.ID, name, nai)
 		}
-		fits.Naxisn[i-1] = nai
+		axes[i-1] = nai
 		fits.Pixels *= int32(nai)
 	}
+	if len(axes) == 1 {
+		axes = append(axes, 1) // a single line of pixels is an image of height one
+	}
+	fits.Naxisn = axes
 
 	// check key optional fields relevant for stacking and image processing
 	if fits.Bzero, err = fits.PopHeaderInt32OrFloat("BZERO"); err != nil {
-- 
2.43.0


From d6ab36ec204e8ed5f3fb47766cdf21af9a15dda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 084/100] fix: reject TIFF files without pixels, or with more
 than can be counted

---
 internal/fits/tiff16.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/fits/tiff16.go b/internal/fits/tiff16.go
index 2fa3ac3..53fa1cc 100644
--- a/internal/fits/tiff16.go
+++ b/internal/fits/tiff16.go
@@ -172,6 +172,9 @@ func (f *Image) ReadTIFF(fileName string) error {
 	if channels == 0 {
 		return fmt.Errorf("%d: unsupported TIFF color model in %s", f.ID, fileName)
 	}
+	if width < 1 || height < 1 || width > math.MaxInt32/height/int(channels) {
+		return fmt.Errorf("%d: unsupported TIFF image dimensions %dx%d in %s", f.ID, width, height, fileName)
+	}
 
 	// set FITS metadata
 	f.Bitpix = bitpix
-- 
2.43.0


From bfd0dd5c828b9a50386613fc982ca47a0ebbc839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:35 +0000
Subject: [PATCH 085/100] fix: background extraction crashed on cells of
 constant value, and on cells full of stars

---
 internal/ops/pre/background.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/ops/pre/background.go b/internal/ops/pre/background.go
index 8e65094..b4e0b01 100644
--- a/internal/ops/pre/background.go
+++ b/internal/ops/pre/background.go
@@ -483,7 +483,11 @@ func (b Background) Subtract(dest []float32) error {
 // Fit background cell to given source image, except where masked out
 func FitCell(src []float32, width int32, sigma float32, xStart, xEnd, yStart, yEnd int32, stars []star.Star, hfrFactor float32, medBuffer, madBuffer []float32) float32 {
 	// Gather grid cell contents without known stars
-	medBuffer = gatherWithoutStars(src, width, xStart, xEnd, yStart, yEnd, stars, hfrFactor, medBuffer)
+	allBuffer := medBuffer
+	medBuffer = gatherWithoutStars(src, width, xStart, xEnd, yStart, yEnd, stars, hfrFactor, allBuffer)
+	if len(medBuffer) == 0 { // no background visible between the stars, use all of the cell
+		medBuffer = gatherWithoutStars(src, width, xStart, xEnd, yStart, yEnd, nil, hfrFactor, allBuffer)
+	}
 
 	// Approximate the local background histogram peak location via median. Reorders the buffer
 	median := qsort.QSelectMedianFloat32(medBuffer)
@@ -505,6 +509,9 @@ func FitCell(src []float32, width int32, sigma float32, xStart, xEnd, yStart, yE
 			numSamples++
 		}
 	}
+	if numSamples == 0 { // all values are the same
+		return median
+	}
 	medBuffer = medBuffer[:numSamples]
 	trimmedMedian := qsort.QSelectMedianFloat32(medBuffer)
 	return trimmedMedian
-- 
2.43.0


From a093bfa07309f1e2766207096e160a63f02848d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:35 +0000
Subject: [PATCH 086/100] fix: removing banding crashed on rows or columns
 without any pixel below the threshold

---
 internal/ops/pre/banding.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/ops/pre/banding.go b/internal/ops/pre/banding.go
index 0acd8bf..65d7b15 100644
--- a/internal/ops/pre/banding.go
+++ b/internal/ops/pre/banding.go
@@ -88,6 +88,7 @@ func (op *OpDebandHoriz) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 				numSamples++
 			}
 		}
+		if numSamples==0 { numSamples=copy(rowBuffer, ds) } // all are above the threshold
 		k:=int(float32(numSamples)*op.Percentile*0.01)
 		rowPercentiles[row]=qsort.QSelectFloat32(rowBuffer[:numSamples],int(k))
 	}
@@ -224,6 +225,12 @@ func (op *OpDebandVert) Apply(f *fits.Image, c *ops.Context) (result *fits.Image
 				numSamples++
 			}
 		}
+		if numSamples==0 { // all are above the threshold
+			for row:=int32(0); row<numRows; row++ {
+				colBuffer[row]=f.Data[row*numCols + col]
+			}
+			numSamples=int(numRows)
+		}
 		k:=int(float32(numSamples)*op.Percentile*0.01)
 		colPercentiles[col]=qsort.QSelectFloat32(colBuffer[:numSamples],int(k))
 	}
-- 
2.43.0


From 6a007cdfb6f26ff4a62038e738438cbb6637f6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:36 +0000
Subject: [PATCH 087/100] fix: star detection crashed on images of less than a
 hundred pixels

---
 internal/star/findstars.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/star/findstars.go b/internal/star/findstars.go
index 76a9b29..4be7a9c 100644
--- a/internal/star/findstars.go
+++ b/internal/star/findstars.go
@@ -139,6 +139,7 @@ func rejectBadPixels(stars []Star, data []float32, width int32, sigma float32, m
 	if medianDiffStats==nil {
 		// Estimate standard deviation of pixels from local neighborhood median based on random 1% of pixels
 		numSamples:=len(data)/100
+		if numSamples<1 { numSamples=1 }
 		samples:=make([]float32,numSamples)
 		rng:=fastrand.RNG{}
 		rng.Seed(0x9e3779b9) // same samples in every run
-- 
2.43.0


From fa72e84030b2f5969449e132c76e4bcc26300b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:37 +0000
Subject: [PATCH 088/100] fix: alignment crashed when there are too few
 reference stars to form a triangle

---
 internal/star/align.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/star/align.go b/internal/star/align.go
index 2b5a541..0f7b400 100644
--- a/internal/star/align.go
+++ b/internal/star/align.go
@@ -133,6 +133,7 @@ func generateTriangles(stars []Star, indices []int, scaleFactor float32) []Trian
 // Finds the closest matches between the given triangles and the reference triangles
 func (a *Aligner) closestTriangleMatches(triangles []Triangle) (matches []Match) {
 	kdt:=a.RefTri3DT
+	if len(kdt)==0 { return nil } // too few reference stars for any triangle
 	matches=make([]Match, len(triangles))
 
 	for i, tri := range triangles {
-- 
2.43.0


From 71784dd066090ccebfd30b1642a75b3327c1339e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:37 +0000
Subject: [PATCH 089/100] fix: selecting the reference frame with median
 location crashed without any frames

---
 internal/ops/ref/refframe.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/ref/refframe.go b/internal/ops/ref/refframe.go
index ba63895..37dbea2 100644
--- a/internal/ops/ref/refframe.go
+++ b/internal/ops/ref/refframe.go
@@ -285,6 +285,9 @@ func selectReferenceMedianLoc(lights []*fits.Image, c *ops.Context) (refFrame *f
 	fun := func(f *fits.Image) float32 { return f.Stats.Location() }
 	locs := inParallel(lights, fun, c.MaxThreads)
 	locs = removeNaNs(locs)
+	if len(locs) == 0 {
+		return nil, 0, errors.New("no images to select a reference frame with median location from")
+	}
 
 	// calculate median
 	medianLoc := qsort.QSelectMedianFloat32(locs)
-- 
2.43.0


From 73f894795e01c270b78b3f557d48ddd3737f9826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:54 +0000
Subject: [PATCH 090/100] fix: estimating the scale of a single value crashed

---
 internal/stats/stats.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 5aa6645..38929df 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -467,6 +467,9 @@ func FastApproxBoundedMAD(data []float32, location float32, lowBound, highBound
 // Original n*log n implementation technical report https://www.researchgate.net/profile/Christophe_Croux/publication/228595593_Time-Efficient_Algorithms_for_Two_Highly_Robust_Estimators_of_Scale/links/09e4150f52c2fcabb0000000/Time-Efficient-Algorithms-for-Two-Highly-Robust-Estimators-of-Scale.pdf
 // Sampling approach appears to be mine
 func FastApproxQn(data []float32, samples []float32) float32 {
+	if len(data) < 2 { // no pairs
+		return 0
+	}
 	max := uint32(len(data))
 	rng := fastrand.RNG{}
 	rng.Seed(samplingSeed)
@@ -482,6 +485,9 @@ func FastApproxQn(data []float32, samples []float32) float32 {
 
 // Calculates fast approximate Qn scale estimate of the (presumably large) data by subsampling the given number of pairs and taking the first quartile of that.
 func FastApproxBoundedQn(data []float32, lowBound, highBound float32, samples []float32) float32 {
+	if len(data) < 2 { // no pairs
+		return 0
+	}
 	max := uint32(len(data))
 	rng := fastrand.RNG{}
 	rng.Seed(samplingSeed)
-- 
2.43.0


From b3362a1bde58addb8769c25c047e3936b29b9b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:40 +0000
Subject: [PATCH 091/100] fix: debayering images of less than two by two pixels
 of the color filter array crashed

---
 internal/ops/pre/debayer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/pre/debayer.go b/internal/ops/pre/debayer.go
index 0527432..9fdc4fe 100644
--- a/internal/ops/pre/debayer.go
+++ b/internal/ops/pre/debayer.go
@@ -42,6 +42,9 @@ func DebayerBilinear(data []float32, width int32, debayer, cfa string) (res []fl
 	// translate CFA type to offsets
 	xOffset, yOffset, err:=getOffsets(cfa)
 	if err!=nil { return nil, 0, err }
+	if width-xOffset<2 || int32(len(data))/width-yOffset<2 {
+		return nil, 0, errors.New("Image is too small to debayer")
+	}
 
 	// Select color channel and debayer
 	switch(debayer) {
-- 
2.43.0


From dc649766ce38991d895c9953b5cadb2313af676c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:31 +0000
Subject: [PATCH 092/100] fix: stacking frames of different dimensions crashed
 or mixed up pixels

---
 internal/ops/stack/stack.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index aebfce7..930a1bb 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -115,6 +115,12 @@ func (op *OpStack) MakePromises(ins []ops.Promise, c *ops.Context) (outs []ops.P
 func (op *OpStack) Apply(f []*fits.Image, c *ops.Context) (result *fits.Image, err error) {
 	if len(f)==0 { return nil, errors.New("no frames to stack") }
 
+	for _, l:=range f {
+		if !fits.EqualInt32Slice(l.Naxisn, f[0].Naxisn) {
+			return nil, fmt.Errorf("%d: dimensions %s differ from dimensions %s of the first frame to stack", l.ID, l.DimensionsToString(), f[0].DimensionsToString())
+		}
+	}
+
 	// validate stacking modes and perform automatic mode selection if necesssary
 	mode:=op.Mode
 	if mode<StMedian || mode>StAuto {
-- 
2.43.0


From 3439c1bbca603c26fd31a0b87f11e4268df89d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:31 +0000
Subject: [PATCH 093/100] fix: adding up batches of different dimensions
 crashed or mixed up pixels

---
 internal/ops/stack/stackbatches.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index 49fdb07..1954764 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -96,6 +96,9 @@ func (op *OpStackBatches) Apply(ins []ops.Promise, c *ops.Context) (fOut *fits.I
 		if batch == nil {
 			fmt.Fprintf(c.Log, "Batch %d did not produce a frame, skipping\n", b+1)
 		} else if numBatches > 1 {
+			if stack != nil && !fits.EqualInt32Slice(batch.Naxisn, stack.Naxisn) {
+				return nil, fmt.Errorf("batch %d: dimensions %s differ from dimensions %s of the batches before", b+1, batch.DimensionsToString(), stack.DimensionsToString())
+			}
 			stack = StackIncremental(stack, batch, float32(batchFrames))
 			stackFrames += batchFrames
 		} else {
-- 
2.43.0


From dcbd4a90b319eaac0ef6f46722d18007918cf644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:31 +0000
Subject: [PATCH 094/100] fix: combining color channels of different dimensions
 crashed or mixed up pixels

---
 internal/ops/rgb/rgb.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/ops/rgb/rgb.go b/internal/ops/rgb/rgb.go
index e5d8ebf..f5620aa 100644
--- a/internal/ops/rgb/rgb.go
+++ b/internal/ops/rgb/rgb.go
@@ -74,6 +74,11 @@ func (op *OpRGBCombine) Apply(fs []*fits.Image, c *ops.Context) (fOut *fits.Imag
 	if len(fs) < 3 || len(fs) > 4 {
 		return nil, fmt.Errorf("invalid number of channels for color combination: %d", len(fs))
 	}
+	for _, f := range fs[:3] {
+		if !fits.EqualInt32Slice(f.Naxisn, fs[0].Naxisn) {
+			return nil, fmt.Errorf("%d: dimensions %s differ from dimensions %s of the first channel", f.ID, f.DimensionsToString(), fs[0].DimensionsToString())
+		}
+	}
 	c.LumFrame = nil
 	if len(fs) == 4 {
 		c.LumFrame = fs[3]
-- 
2.43.0


From e358612b19bdc4ec0339ab96833f9b5120f9ea8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:32 +0000
Subject: [PATCH 095/100] fix: luminance of other dimensions or to a mono image
 was applied to some of the pixels only

---
 internal/ops/hsl/hsl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index 305d95f..dbf64a9 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -60,6 +60,9 @@ func (op *OpHSLApplyLum) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image,
 	if c.LumFrame == nil {
 		return f, nil
 	}
+	if len(f.Naxisn) != 3 || f.Naxisn[2] != 3 || !fits.EqualInt32Slice(f.Naxisn[:2], c.LumFrame.Naxisn) {
+		return nil, fmt.Errorf("%d: cannot apply luminance image of dimensions %s to image of dimensions %s", f.ID, c.LumFrame.DimensionsToString(), f.DimensionsToString())
+	}
 	fmt.Fprintf(c.Log, "Converting mono luminance image to HSLuv as well...\n")
 	lum := fits.NewImageFromImage(c.LumFrame) // convert a copy, the original is shared between frames
 	copy(lum.Data, c.LumFrame.Data)
-- 
2.43.0


From 8839a59fe66022d24317c004f8b04e3ee5964f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:52 +0000
Subject: [PATCH 096/100] fix: color steps took thirds of an image without
 color for color planes

---
 internal/fits/fits.go   |  7 +++++++
 internal/ops/hsl/hsl.go | 36 ++++++++++++++++++++++++++++++++++++
 internal/ops/rgb/rgb.go |  9 +++++++++
 3 files changed, 52 insertions(+)

diff --git a/internal/fits/fits.go b/internal/fits/fits.go
index cd340c7..e6519b1 100644
--- a/internal/fits/fits.go
+++ b/internal/fits/fits.go
@@ -159,6 +159,13 @@ func (f *Image) DimensionsToString() string {
 }
 
 
+// Tells whether the image consists of three color planes, along its last axis
+func (f *Image) IsColor() bool {
+	last:=len(f.Naxisn)-1
+	return last>=2 && f.Naxisn[last]==3
+}
+
+
 // Apply NxN binning to source image and return new resulting image
 func NewImageBinNxN(src *Image, n int32) *Image {
 	// calculate binned image size
diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index dbf64a9..853abd7 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -116,6 +116,9 @@ func (op *OpHSLScaleOffsetChannel) Apply(f *fits.Image, c *ops.Context) (fOut *f
 	if op.Scale == 1 && op.Offset == 0 {
 		return f, nil
 	}
+	if !f.IsColor() {
+		return nil, fmt.Errorf("%d: %s operator needs a color image, not dimensions %s", f.ID, op.Type, f.DimensionsToString())
+	}
 	if op.ChannelID < 0 || op.ChannelID > 2 {
 		return nil, fmt.Errorf("%d: invalid channel %d, must be between 0 and 2", f.ID, op.ChannelID)
 	}
@@ -165,6 +168,9 @@ func (op *OpHSLNeutralizeBackground) Apply(f *fits.Image, c *ops.Context) (fOut
 	if op.SigmaLow <= 0 && op.SigmaHigh <= 0 {
 		return f, nil
 	}
+	if !f.IsColor() {
+		return nil, fmt.Errorf("%d: %s operator needs a color image, not dimensions %s", f.ID, op.Type, f.DimensionsToString())
+	}
 	fmt.Fprintf(c.Log, "Neutralizing background values below %.4g sigma, keeping color above %.4g sigma\n", op.SigmaLow, op.SigmaHigh)
 
 	st := stats.NewStatsForChannel(f.Data, f.Naxisn[0], 2, 3)
@@ -216,6 +222,9 @@ func (op *OpHSLSaturationGamma) Apply(f *fits.Image, c *ops.Context) (fOut *fits
 	if op.Gamma == 1.0 {
 		return f, nil
 	}
+	if !f.IsColor() {
+		return nil, fmt.Errorf("%d: %s operator needs a color image, not dimensions %s", f.ID, op.Type, f.DimensionsToString())
+	}
 	fmt.Fprintf(c.Log, "Applying gamma %.2f to saturation for values %.4g sigma above background...\n", op.Gamma, op.Sigma)
 
 	st := stats.NewStatsForChannel(f.Data, f.Naxisn[0], 2, 3)
@@ -270,6 +279,9 @@ func (op *OpHSLSelectiveSaturation) Apply(f *fits.Image, c *ops.Context) (fOut *
 	if op.Factor == 1 {
 		return f, nil
 	}
+	if !f.IsColor() {
+		return nil, fmt.Errorf("%d: %s operator needs a color image, not dimensions %s", f.ID, op.Type, f.DimensionsToString())
+	}
 	fmt.Fprintf(c.Log, "Multiplying LCH chroma (saturation) by %.4g for hues in [%g,%g]...\n", op.Factor, op.From, op.To)
 	f.AdjustChromaForHues(op.From, op.To, op.Factor)
 	return f, nil
@@ -316,6 +328,9 @@ func (op *OpHSLRotateHue) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image
 	if op.Offset == 0 {
 		return f, nil
 	}
+	if !f.IsColor() {
+		return nil, fmt.Errorf("%d: %s operator needs a color image, not dimensions %s", f.ID, op.Type, f.DimensionsToString())
+	}
 	fmt.Fprintf(c.Log, "Rotating LCH hue angles in [%g,%g] by %.4g for lum>=loc+%g*scale...\n", op.From, op.To, op.Offset, op.Sigma)
 
 	st := stats.NewStatsForChannel(f.Data, f.Naxisn[0], 2, 3)
@@ -361,6 +376,9 @@ func (op *OpHSLSCNR) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image, err
 	if op.Factor == 0 {
 		return f, nil
 	}
+	if !f.IsColor() {
+		return nil, fmt.Errorf("%d: %s operator needs a color image, not dimensions %s", f.ID, op.Type, f.DimensionsToString())
+	}
 	fmt.Fprintf(c.Log, "Applying SCNR of %.4g ...\n", op.Factor)
 	f.SCNR(op.Factor)
 
@@ -404,6 +422,9 @@ func (op *OpHSLMidtones) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image,
 	if op.Mid == 0 {
 		return f, nil
 	}
+	if !f.IsColor() {
+		return nil, fmt.Errorf("%d: %s operator needs a color image, not dimensions %s", f.ID, op.Type, f.DimensionsToString())
+	}
 	fmt.Fprintf(c.Log, "Applying midtone correction with midtone=%.2f%% x scale and black=location - %.2f%% x scale\n", op.Mid, op.Black)
 
 	st := stats.NewStatsForChannel(f.Data, f.Naxisn[0], 2, 3)
@@ -451,6 +472,9 @@ func (op *OpHSLGamma) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image, er
 	if op.Gamma == 1.0 {
 		return f, nil
 	}
+	if !f.IsColor() {
+		return nil, fmt.Errorf("%d: %s operator needs a color image, not dimensions %s", f.ID, op.Type, f.DimensionsToString())
+	}
 	fmt.Fprintf(c.Log, "Applying gamma %.3g\n", op.Gamma)
 	f.ApplyGammaToChannel(2, op.Gamma)
 	return f, nil
@@ -493,6 +517,9 @@ func (op *OpHSLGammaPP) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image,
 	if op.Gamma == 1.0 {
 		return f, nil
 	}
+	if !f.IsColor() {
+		return nil, fmt.Errorf("%d: %s operator needs a color image, not dimensions %s", f.ID, op.Type, f.DimensionsToString())
+	}
 
 	st := stats.NewStatsForChannel(f.Data, f.Naxisn[0], 2, 3)
 	loc, scale := st.Location(), st.Scale()
@@ -545,6 +572,9 @@ func (op *OpHSLUnsharpMask) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Ima
 	if op.Sigma == 0 || op.Gain == 0.0 {
 		return f, nil
 	}
+	if !f.IsColor() {
+		return nil, fmt.Errorf("%d: %s operator needs a color image, not dimensions %s", f.ID, op.Type, f.DimensionsToString())
+	}
 
 	st := stats.NewStatsForChannel(f.Data, f.Naxisn[0], 2, 3)
 	absThresh := st.Location() + st.Scale()*op.Threshold
@@ -601,6 +631,9 @@ func (op *OpHSLScaleBlack) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Imag
 	if op.Location == 0 {
 		return f, nil
 	}
+	if !f.IsColor() {
+		return nil, fmt.Errorf("%d: %s operator needs a color image, not dimensions %s", f.ID, op.Type, f.DimensionsToString())
+	}
 
 	st := stats.NewStatsForChannel(f.Data, f.Naxisn[0], 2, 3)
 	loc, scale := st.Location(), st.Scale()
@@ -655,6 +688,9 @@ func (op *OpHSLStretchIterative) UnmarshalJSON(data []byte) error {
 
 func (op *OpHSLStretchIterative) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err error) {
 	if op.Location==0 && op.Scale==0 { return f, nil }
+	if !f.IsColor() {
+		return nil, fmt.Errorf("%d: %s operator needs a color image, not dimensions %s", f.ID, op.Type, f.DimensionsToString())
+	}
 	fmt.Fprintf(c.Log, "%d: Auto-stretching HSL loc to %.2f%% and scale to %.2f%% ...\n", f.ID, op.Location*100, op.Scale*100)
 
 	for i:=0; ; i++ {
diff --git a/internal/ops/rgb/rgb.go b/internal/ops/rgb/rgb.go
index f5620aa..0b53fb1 100644
--- a/internal/ops/rgb/rgb.go
+++ b/internal/ops/rgb/rgb.go
@@ -136,6 +136,9 @@ func (op *OpRGBBalance) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image,
 	if f.Stars == nil || len(f.Stars) == 0 {
 		return nil, errors.New("cannot balance colors with zero stars detected")
 	}
+	if !f.IsColor() {
+		return nil, fmt.Errorf("%d: %s operator needs a color image, not dimensions %s", f.ID, op.Type, f.DimensionsToString())
+	}
 
 	fmt.Fprintf(c.Log, "Balancing darkest %dx%d block outside %.1f%% border to color tint %s and stars skipping brightest %.1f%% and dimmest %.1f%% to %s\n",
 		op.Block, op.Block, 100*op.Border, op.Shadows, 100*op.SkipBright, 100*op.SkipDim, op.Highlights)
@@ -173,6 +176,9 @@ func (op *OpRGBToHSLuv) UnmarshalJSON(data []byte) error {
 }
 
 func (op *OpRGBToHSLuv) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image, err error) {
+	if !f.IsColor() {
+		return nil, fmt.Errorf("%d: %s operator needs a color image, not dimensions %s", f.ID, op.Type, f.DimensionsToString())
+	}
 	fmt.Fprintf(c.Log, "Converting linear RGB to nonlinear HSLuv...\n")
 	f.RGBToHSLuv()
 	return f, nil
@@ -208,6 +214,9 @@ func (op *OpHSLuvToRGB) UnmarshalJSON(data []byte) error {
 }
 
 func (op *OpHSLuvToRGB) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image, err error) {
+	if !f.IsColor() {
+		return nil, fmt.Errorf("%d: %s operator needs a color image, not dimensions %s", f.ID, op.Type, f.DimensionsToString())
+	}
 	fmt.Fprintf(c.Log, "Converting nonlinear HSLuv to linear RGB\n")
 	f.HSLuvToRGB()
 	return f, nil
-- 
2.43.0


From 863e1867bd8bb379e17bd3aea85f14212603ab18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:14 +0000
Subject: [PATCH 097/100] fix: project all planes of an image, not only the
 first

---
 internal/fits/project.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/internal/fits/project.go b/internal/fits/project.go
index 785bc5b..4822f0c 100644
--- a/internal/fits/project.go
+++ b/internal/fits/project.go
@@ -16,6 +16,7 @@
 package fits
 
 import (
+	"errors"
 	"math"
 
 	"github.com/mlnoga/nightlight/internal/star"
@@ -36,10 +37,24 @@ func (img *Image) Project(destNaxisn []int32, trans star.Transform2D, outOfBound
 	res.ID, res.Exposure = img.ID, img.Exposure
 
 	// Resample image from the target coordinate system PoV
-	d := img.Data
 	origWidth := img.Naxisn[0]
+	origPixels, destPixels := origWidth*img.Naxisn[1], destWidth*destNaxisn[1]
+	planes := img.Pixels / origPixels
+	if planes*destPixels != res.Pixels {
+		return nil, errors.New("cannot project image onto axes with a different number of planes")
+	}
 
-	for row := int32(0); row < destNaxisn[1]; row++ {
+	for plane := int32(0); plane < planes; plane++ {
+		projectPlane(res.Data[plane*destPixels:(plane+1)*destPixels], destWidth, img.Data[plane*origPixels:(plane+1)*origPixels], origWidth, invTrans, outOfBounds)
+	}
+	return res, nil
+}
+
+// Projects a single plane of an image into a plane of another one, with the given transformation from the new to the old coordinate system.
+func projectPlane(res []float32, destWidth int32, d []float32, origWidth int32, invTrans star.Transform2D, outOfBounds float32) {
+	destHeight, origHeight := int32(len(res))/destWidth, int32(len(d))/origWidth
+
+	for row := int32(0); row < destHeight; row++ {
 		for col := int32(0); col < destWidth; col++ {
 			pt := star.Point2D{X: float32(col), Y: float32(row)}
 			proj := invTrans.Apply(pt)
@@ -49,14 +64,14 @@ func (img *Image) Project(destNaxisn []int32, trans star.Transform2D, outOfBound
 			xh, yh := xl+1, yl+1
 			xr, yr := proj.X-float32(xl), proj.Y-float32(yl)
 
-			if xl < 0 || xh >= origWidth || yl < 0 || yh >= img.Naxisn[1] {
+			if xl < 0 || xh >= origWidth || yl < 0 || yh >= origHeight {
 				// Replace out of bounds values with not a number.
 				// Stacking will exclude NaNs. Note, however, that
 				// other operations will fail miserably. Including
 				// all partitioning and sorting-based operations
 				// like median, because IEEE NaN does not compare
 				// equal to itself.
-				res.Data[col+row*destWidth] = outOfBounds
+				res[col+row*destWidth] = outOfBounds
 				continue
 			}
 
@@ -69,8 +84,7 @@ func (img *Image) Project(destNaxisn []int32, trans star.Transform2D, outOfBound
 			vyh := d[xlyh]*(1-xr) + d[xhyh]*xr
 			v := vyl*(1-yr) + vyh*yr
 
-			res.Data[col+row*destWidth] = v
+			res[col+row*destWidth] = v
 		}
 	}
-	return res, nil
 }
-- 
2.43.0


From b20e036d2d55b3d407fe7fa261bcd87a36f9c93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:45 +0000
Subject: [PATCH 098/100] fix: bin width and height of an image only, not its
 planes, and bin all planes

---
 internal/fits/fits.go | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/internal/fits/fits.go b/internal/fits/fits.go
index e6519b1..d7c8511 100644
--- a/internal/fits/fits.go
+++ b/internal/fits/fits.go
@@ -168,14 +168,10 @@ func (f *Image) IsColor() bool {
 
 // Apply NxN binning to source image and return new resulting image
 func NewImageBinNxN(src *Image, n int32) *Image {
-	// calculate binned image size
-	binnedPixels:=int32(1)
-	binnedNaxisn:=make([]int32, len(src.Naxisn))
-	for i,originalN:=range(src.Naxisn) {
-		binnedN:=originalN/n
-		binnedNaxisn[i]=binnedN
-		binnedPixels*=binnedN
-	}
+	// calculate binned image size, planes are kept
+	binnedNaxisn:=append([]int32(nil), src.Naxisn...)
+	binnedNaxisn[0]/=n
+	binnedNaxisn[1]/=n
 
 	binned:=NewImageFromNaxisn(binnedNaxisn, nil)
 	binned.ID, binned.FileName, binned.Exposure = src.ID, src.FileName, src.Exposure
@@ -183,19 +179,23 @@ func NewImageBinNxN(src *Image, n int32) *Image {
 	// calculate binned image pixel values
 	// FIXME: pretty inefficient?
 	normalizer:=1.0/float32(n*n)
-	for y:=int32(0); y<binnedNaxisn[1]; y++ {
-		for x:=int32(0); x<binnedNaxisn[0]; x++ {
-			sum:=float32(0)
-			for yoff:=int32(0); yoff<n; yoff++ {
-				for xoff:=int32(0); xoff<n; xoff++ {
-					origPos:=(y*n+yoff)*src.Naxisn[0] + (x*n+xoff)
-					sum+=src.Data[origPos]
+	srcPlane, binnedPlane:=src.Naxisn[0]*src.Naxisn[1], binnedNaxisn[0]*binnedNaxisn[1]
+	planes:=src.Pixels/srcPlane
+	for plane:=int32(0); plane<planes; plane++ {
+		for y:=int32(0); y<binnedNaxisn[1]; y++ {
+			for x:=int32(0); x<binnedNaxisn[0]; x++ {
+				sum:=float32(0)
+				for yoff:=int32(0); yoff<n; yoff++ {
+					for xoff:=int32(0); xoff<n; xoff++ {
+						origPos:=plane*srcPlane + (y*n+yoff)*src.Naxisn[0] + (x*n+xoff)
+						sum+=src.Data[origPos]
+					}
 				}
+				avg:=sum*normalizer
+				binnedPos:=plane*binnedPlane + y*binned.Naxisn[0] + x
+				binned.Data[binnedPos]=avg
 			}
-			avg:=sum*normalizer
-			binnedPos:=y*binned.Naxisn[0] + x
-			binned.Data[binnedPos]=avg
-		}		
+		}
 	}
 
 	return binned
-- 
2.43.0


From 4d320a9359005b0461508db114fede3ed899ed71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:45 +0000
Subject: [PATCH 099/100] fix: reject debayering of images with several planes,
 which left axes and pixels inconsistent

---
 internal/ops/pre/preprocess.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 2862a1b..c19ce3d 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -262,6 +262,9 @@ func (op *OpDebayer) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, e
 	if op.Channel == "" || op.ColorFilterArray == "" {
 		return f, nil
 	}
+	if f.Pixels != f.Naxisn[0]*f.Naxisn[1] {
+		return nil, fmt.Errorf("%d: cannot debayer an image with several planes", f.ID)
+	}
 	f.Data, f.Naxisn[0], err = DebayerBilinear(f.Data, f.Naxisn[0], op.Channel, op.ColorFilterArray)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From a0446ab7b4c99a4bfb677f586bbe784da0773447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:24 +0000
Subject: [PATCH 100/100] fix: stars next to missing pixels, or with centroids
 outside the image, crashed star detection

---
 internal/star/findstars.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/star/findstars.go b/internal/star/findstars.go
index 4be7a9c..07593bc 100644
--- a/internal/star/findstars.go
+++ b/internal/star/findstars.go
@@ -224,6 +224,8 @@ func filterOutOverlaps(stars []Star, width, height, radius int32) []Star {
 	for _,s:=range stars {
 		// Find grid cell of this star
 		xCell, yCell:=int32(s.X+0.5)/binSize, int32(s.Y+0.5)/binSize
+		if xCell<0 { xCell=0 } else if xCell>=xBins { xCell=xBins-1 } // centroids may be outside the image
+		if yCell<0 { yCell=0 } else if yCell>=yBins { yCell=yBins-1 }
 
 		// For this grid cell and all adjacent cells
 		for dy:=int32(-1); dy<=1; dy++ {
@@ -290,7 +292,7 @@ func shiftToCenterOfMass(stars []Star, data []float32, width int32, threshold fl
 					value:=float32(0)
 					if index>=0 && int(index)<len(data) {
 						value=data[index]-threshold
-						if value<0 { value=0 }
+						if !(value>0) { value=0 } // also for missing pixels, which are NaN
 					}
 					xMoment+=float32(x)*value
 					yMoment+=float32(y)*value
-- 
2.43.0

