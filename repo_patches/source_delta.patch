From fe09a882a1b9362a0da5720c2689d020ceb5f0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:06 +0000
Subject: [PATCH 01/39] fix: rx: do not hide a missing DXCC or SCP database in
 a non-nil interface

Without a local copy of the DXCC prefixes (or the SCP database) the finder
was a nil pointer wrapped in a non-nil interface value. The nil checks did
not catch it, and the first decoded callsign crashed the whole program.
---
 rx/text_processor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rx/text_processor.go b/rx/text_processor.go
index 822106c..5b38025 100644
--- a/rx/text_processor.go
+++ b/rx/text_processor.go
@@ -91,7 +91,7 @@ func NewTextProcessor(out io.Writer, clock Clock, reporter CallsignReporter) *Te
 	return result
 }
 
-func setupDXCCFinder() *dxcc.Prefixes {
+func setupDXCCFinder() dxccFinder {
 	localFilename, err := dxcc.LocalFilename()
 	if err != nil {
 		log.Print(err)
@@ -113,7 +113,7 @@ func setupDXCCFinder() *dxcc.Prefixes {
 	return result
 }
 
-func setupSCPFinder() *scp.Database {
+func setupSCPFinder() scpFinder {
 	localFilename, err := scp.LocalFilename()
 	if err != nil {
 		log.Print(err)
-- 
2.43.0


From 99e1fa64966b891fdc31ae247a0d46504f6e8b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:14 +0000
Subject: [PATCH 02/39] fix: dsp: map a frequency to the bin with the nearest
 center

---
 dsp/fft.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/fft.go b/dsp/fft.go
index 2ee36ec..0a8dbf3 100644
--- a/dsp/fft.go
+++ b/dsp/fft.go
@@ -130,7 +130,7 @@ func (m *FrequencyMapping[F]) BinToFrequency(bin int, location BinLocation) F {
 }
 
 func (m *FrequencyMapping[F]) FrequencyToBin(frequency F) int {
-	bin := int((float64(frequency) - float64(m.fromFrequency)) / m.binSize)
+	bin := int(math.Round((float64(frequency) - float64(m.fromFrequency)) / m.binSize))
 	return max(0, min(bin, m.blockSize-1))
 }
 
-- 
2.43.0


From 169ca95e3e7aff94101419431018ed1c90c14729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:21 +0000
Subject: [PATCH 03/39] fix: dsp: Peak.ContainsBin compares with the bounds the
 right way round

---
 dsp/fft.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/fft.go b/dsp/fft.go
index 0a8dbf3..190739f 100644
--- a/dsp/fft.go
+++ b/dsp/fft.go
@@ -209,7 +209,7 @@ func (p Peak[T, F]) WidthHz() F {
 
 // ContainsBin indicates if the given bin is within this peak.
 func (p Peak[T, F]) ContainsBin(bin int) bool {
-	return p.From >= bin && p.To <= bin
+	return p.From <= bin && bin <= p.To
 }
 
 func FindNoiseFloor[T Number](psd Block[T], edgeWidth int) (T, float64) {
-- 
2.43.0


From 441f82c91b1885a2006566e7759f44d955257612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:47 +0000
Subject: [PATCH 04/39] fix: dsp: interpolate the peak frequency with the
 signed values

---
 dsp/fft.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/dsp/fft.go b/dsp/fft.go
index 190739f..9e0752f 100644
--- a/dsp/fft.go
+++ b/dsp/fft.go
@@ -295,15 +295,14 @@ func PeakCenterCorrection[T, F Number](bin int, spectrum Block[T]) BinLocation {
 		return 0
 	}
 
-	value := func(i int) float64 {
-		return math.Abs(float64(spectrum[i]))
-	}
-
 	// quadratic interpolation
-	y1 := value(bin - 1)
-	y2 := value(bin)
-	y3 := value(bin + 1)
+	y1 := float64(spectrum[bin-1])
+	y2 := float64(spectrum[bin])
+	y3 := float64(spectrum[bin+1])
 	result := (y3 - y1) / (2 * (2*y2 - y1 - y3))
+	if math.IsNaN(result) {
+		return 0
+	}
 
-	return BinLocation(result)
+	return BinLocation(max(float64(BinFrom), min(result, float64(BinTo))))
 }
-- 
2.43.0


From 8d04954899bc9ca3cab58c0b46bb77cb3fc5186f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:54 +0000
Subject: [PATCH 05/39] fix: dsp: the maximum of a section is a value of the
 section

---
 dsp/fft.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsp/fft.go b/dsp/fft.go
index 9e0752f..bd3ba93 100644
--- a/dsp/fft.go
+++ b/dsp/fft.go
@@ -163,8 +163,8 @@ func (b Block[T]) Mean(from, to int) T {
 
 // Max imum value in the given section of this block.
 func (b Block[T]) Max(from, to int) (T, int) {
-	maxValue := b[0]
-	maxI := 0
+	maxValue := b[from]
+	maxI := from
 	for i := from; i <= to; i++ {
 		if maxValue < b[i] {
 			maxValue = b[i]
-- 
2.43.0


From 7d2115f4c75ffb29dd4db0c7974bf7deae68526e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 06/39] fix: dsp: evaluate every complete stretch for the noise
 floor, and its variance over the same bins

---
 dsp/fft.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsp/fft.go b/dsp/fft.go
index bd3ba93..504c8dc 100644
--- a/dsp/fft.go
+++ b/dsp/fft.go
@@ -213,19 +213,21 @@ func (p Peak[T, F]) ContainsBin(bin int) bool {
 }
 
 func FindNoiseFloor[T Number](psd Block[T], edgeWidth int) (T, float64) {
-	windowSize := (len(psd) - 2*edgeWidth) / 10
+	windowSize := max(1, (len(psd)-2*edgeWidth)/10)
 	minValue := float64(psd[0])
 	var sum float64
 	count := 0
 	first := true
 	from := 0
-	var resultMean float64
+	resultMean := minValue
 	resultFrom := 0
 	resultTo := 0
 	for i := edgeWidth; i < len(psd)-edgeWidth; i++ {
 		if count == 0 {
 			from = i
 		}
+		sum += float64(psd[i])
+		count++
 		if count == windowSize {
 			count = 0
 			mean := sum / float64(windowSize)
@@ -238,8 +240,6 @@ func FindNoiseFloor[T Number](psd Block[T], edgeWidth int) (T, float64) {
 			}
 			sum = 0
 		}
-		sum += float64(psd[i])
-		count++
 	}
 
 	sum = 0
-- 
2.43.0


From 5744a3b04030e90b93391ece41997f4de203ba1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 07/39] fix: dsp: debouncer keeps track of the input also while
 it is transparent

---
 dsp/dsp.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/dsp/dsp.go b/dsp/dsp.go
index 56015cb..85b87e9 100644
--- a/dsp/dsp.go
+++ b/dsp/dsp.go
@@ -162,10 +162,6 @@ func (d *BoolDebouncer) Threshold() int {
 // Debounce is periodically called with the raw signal state. It returns the debounced signal state.
 // The signal must be stable for threshold calls of Debounce until a state change is propagated by Debounce.
 func (d *BoolDebouncer) Debounce(rawState bool) bool {
-	if d.threshold < 2 {
-		return rawState
-	}
-
 	if rawState != d.lastRawState {
 		d.stateCount = 1
 	} else {
@@ -173,7 +169,7 @@ func (d *BoolDebouncer) Debounce(rawState bool) bool {
 	}
 	d.lastRawState = rawState
 
-	if d.stateCount >= d.threshold {
+	if d.stateCount >= d.threshold || d.threshold < 2 {
 		if rawState != d.effectiveState {
 			d.effectiveState = rawState
 		}
-- 
2.43.0


From 76dbc13719a25fca20d69b6d3e30a120408ad640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 08/39] fix: dsp: rolling mean and variance are those of the
 values in the window

---
 dsp/dsp.go | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/dsp/dsp.go b/dsp/dsp.go
index 85b87e9..6b62cfa 100644
--- a/dsp/dsp.go
+++ b/dsp/dsp.go
@@ -199,19 +199,22 @@ func NewRollingVariance[T Number](n int) *RollingVariance[T] {
 
 // Put a new value into the rolling window and get the new variance back.
 func (v *RollingVariance[T]) Put(value T) T {
-	v.sumForMean -= v.values[v.next]
-	oldSummand := (v.values[v.next] - v.mean)
-	v.sumForVariance -= oldSummand * oldSummand
-
 	v.values[v.next] = value
+	v.next = (v.next + 1) % len(v.values)
 
-	v.sumForMean += v.values[v.next]
+	// sum up the whole window each time: a value that is not finite must not stay in the sums
+	// after it left the window, and the mean of the former values changes with every new value
+	v.sumForMean = 0
+	for _, x := range v.values {
+		v.sumForMean += x
+	}
 	v.mean = v.sumForMean / v.n
-	newSummand := (v.values[v.next] - v.mean)
-	v.sumForVariance += newSummand * newSummand
-	v.variance = v.sumForVariance / v.n
 
-	v.next = (v.next + 1) % len(v.values)
+	v.sumForVariance = 0
+	for _, x := range v.values {
+		v.sumForVariance += (x - v.mean) * (x - v.mean)
+	}
+	v.variance = v.sumForVariance / v.n
 
 	return v.variance
 }
@@ -251,15 +254,17 @@ func NewRollingMean[T Number](n int) *RollingMean[T] {
 
 // Put a new value into the rolling window and get the new mean back.
 func (v *RollingMean[T]) Put(value T) T {
-	v.sumForMean -= v.values[v.next]
-
 	v.values[v.next] = value
+	v.next = (v.next + 1) % len(v.values)
 
-	v.sumForMean += v.values[v.next]
+	// sum up the whole window each time: a value that is not finite must not stay in the sum
+	// after it left the window
+	v.sumForMean = 0
+	for _, x := range v.values {
+		v.sumForMean += x
+	}
 	v.mean = v.sumForMean / v.n
 
-	v.next = (v.next + 1) % len(v.values)
-
 	return v.mean
 }
 
-- 
2.43.0


From c7bd06e0ee00557a1ffe368de9fd5bef36a1a0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 09/39] fix: rx: activating or deactivating a peak that is no
 longer in the table has no effect

---
 rx/peaks.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rx/peaks.go b/rx/peaks.go
index b468200..fbaa42a 100644
--- a/rx/peaks.go
+++ b/rx/peaks.go
@@ -152,6 +152,9 @@ func (t *PeaksTable[T, F]) Reset() {
 
 func (t *PeaksTable[T, F]) Activate(p *dsp.Peak[T, F]) {
 	internalPeak := t.getInternal(p)
+	if internalPeak == nil {
+		return
+	}
 	if internalPeak.state != peakNew && internalPeak.state != peakInactive {
 		return
 	}
@@ -173,6 +176,9 @@ func (t *PeaksTable[T, F]) getInternal(p *dsp.Peak[T, F]) *peak[T, F] {
 
 func (t *PeaksTable[T, F]) Deactivate(p *dsp.Peak[T, F]) {
 	internalPeak := t.getInternal(p)
+	if internalPeak == nil {
+		return
+	}
 	if internalPeak.state != peakActive {
 		return
 	}
-- 
2.43.0


From 19f5d3fad0320bcf7b72c8d35a27ccf208112a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:55 +0000
Subject: [PATCH 10/39] fix: rx: releasing a listener twice does not release
 the new owner of its id

---
 rx/listener.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/listener.go b/rx/listener.go
index 8c1ef9d..caa0b40 100644
--- a/rx/listener.go
+++ b/rx/listener.go
@@ -249,7 +249,7 @@ func (p *ListenerPool[T, F]) release(listener *Listener[T, F]) {
 
 func (p *ListenerPool[T, F]) indexOf(listener *Listener[T, F]) int {
 	for i, l := range p.listeners {
-		if l.id == listener.ID() {
+		if l == listener {
 			return i
 		}
 	}
-- 
2.43.0


From d1eb57442bc1be55472ed3426e7670ddaec4e386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:41 +0000
Subject: [PATCH 11/39] fix: rx: find all callsigns of a written text, not only
 the first one

---
 rx/text_processor.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rx/text_processor.go b/rx/text_processor.go
index 5b38025..ec9bfbc 100644
--- a/rx/text_processor.go
+++ b/rx/text_processor.go
@@ -228,8 +228,11 @@ func (p *TextProcessor) findNextCallsign(bytes []byte) {
 			panic(err)
 		}
 
-		candidate, found := p.window.FindNext(callsignExp, false)
-		if found {
+		for {
+			candidate, found := p.window.FindNext(callsignExp, false)
+			if !found {
+				break
+			}
 			p.collectCallsign(candidate)
 		}
 
-- 
2.43.0


From dec8ea8badaee4934e248daf25ffd03b52aa02af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:49 +0000
Subject: [PATCH 12/39] fix: rx: do not cut a callsign that is received
 character by character before its suffix

---
 rx/text_processor.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/rx/text_processor.go b/rx/text_processor.go
index ec9bfbc..7fa1453 100644
--- a/rx/text_processor.go
+++ b/rx/text_processor.go
@@ -408,7 +408,8 @@ func (w *textWindow) FindNext(exp *regexp.Regexp, includeTail bool) (string, boo
 	if match == nil {
 		return "", false
 	}
-	if !includeTail && match[1] >= len(searchText) {
+	if !includeTail && isCallsignText(searchText[match[1]:]) {
+		// the word may be continued by what comes next, e.g. by a suffix
 		return "", false
 	}
 
@@ -416,3 +417,14 @@ func (w *textWindow) FindNext(exp *regexp.Regexp, includeTail bool) (string, boo
 
 	return string(searchText[match[0]:match[1]]), true
 }
+
+// isCallsignText indicates if the given text contains only characters that may be part of a callsign.
+func isCallsignText(text []byte) bool {
+	for _, c := range text {
+		isCallsignChar := (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '/'
+		if !isCallsignChar {
+			return false
+		}
+	}
+	return true
+}
-- 
2.43.0


From 25486a2c6daf5b9ca4eb355be6aa2d72150af9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:57 +0000
Subject: [PATCH 13/39] fix: rx: resetting the text window also resets the
 search point

---
 rx/text_processor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rx/text_processor.go b/rx/text_processor.go
index 7fa1453..46af5a5 100644
--- a/rx/text_processor.go
+++ b/rx/text_processor.go
@@ -366,8 +366,9 @@ func (w *textWindow) String() string {
 func (w *textWindow) Reset() {
 	for i := range w.window {
 		w.window[i] = w.window[i][:0]
-		w.currentWindow = 0
 	}
+	w.currentWindow = 0
+	w.searchPoint = 0
 }
 
 func (w *textWindow) Write(bytes []byte) (n int, err error) {
-- 
2.43.0


From 22bac297e9623a839186d1c483bb1122265e364e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:33 +0000
Subject: [PATCH 14/39] fix: rx: a restarted text processor does not process
 the remains of the former text

---
 rx/text_processor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rx/text_processor.go b/rx/text_processor.go
index 46af5a5..df6c188 100644
--- a/rx/text_processor.go
+++ b/rx/text_processor.go
@@ -180,6 +180,7 @@ func (p *TextProcessor) sync() {
 
 func (p *TextProcessor) Restart() {
 	p.Stop()
+	p.op = make(chan func(), cap(p.op)) // drop the pending operations, they belong to the former text
 	p.lastWrite = p.clock.Now()
 	p.lastBestMatch = callsign.NoCallsign
 	p.window.Reset()
-- 
2.43.0


From 23ec1cfcab0644fc01b9555db22980bb574dabd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:08 +0000
Subject: [PATCH 15/39] fix: rx: stop the text processor before the listener's
 peak is removed

---
 rx/listener.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rx/listener.go b/rx/listener.go
index caa0b40..819d799 100644
--- a/rx/listener.go
+++ b/rx/listener.go
@@ -97,10 +97,11 @@ func (l *Listener[T, F]) Attached() bool {
 }
 
 func (l *Listener[T, F]) Detach() {
+	l.textProcessor.Stop() // it uses the peak for its reports
+
 	frequency := l.peak.SignalFrequency
 	l.peak = nil
 
-	l.textProcessor.Stop()
 	l.reporter.ListenerDeactivated(l.id, frequency)
 	// log.Printf("\ndemodulation stopped\n")
 }
-- 
2.43.0


From 7ad11a5a9a6a73e4ad942141f9822e4e40a04806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 16/39] fix: cw: a long carrier does not make the next
 character unknown

---
 cw/decode.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cw/decode.go b/cw/decode.go
index ed9c763..121c20f 100644
--- a/cw/decode.go
+++ b/cw/decode.go
@@ -315,6 +315,7 @@ func (d *Decoder) appendSymbol(s cw.Symbol) {
 func (d *Decoder) decodeCurrentChar() {
 	if d.currentChar.empty() {
 		// fmt.Print("X") // TODO REMOVE THIS
+		d.currentCharInvalid = false
 		return
 	}
 	if d.currentCharInvalid {
-- 
2.43.0


From 113bf2dcb560aea94026df59e8ca9485fa74cc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:28 +0000
Subject: [PATCH 17/39] fix: cw: a reset decoder forgets the key state and an
 invalid character

---
 cw/decode.go   | 2 ++
 cw/spectral.go | 1 +
 2 files changed, 3 insertions(+)

diff --git a/cw/decode.go b/cw/decode.go
index 121c20f..f3196b1 100644
--- a/cw/decode.go
+++ b/cw/decode.go
@@ -171,7 +171,9 @@ func (d *Decoder) Reset() {
 
 func (d *Decoder) Clear() {
 	d.decoding = false
+	d.lastState = false
 	d.currentChar.clear()
+	d.currentCharInvalid = false
 	d.ticks = 0
 	d.onStart = 0
 	d.offStart = 0
diff --git a/cw/spectral.go b/cw/spectral.go
index 086fa0a..e48dbfc 100644
--- a/cw/spectral.go
+++ b/cw/spectral.go
@@ -42,6 +42,7 @@ func (d *SpectralDemodulator[M, F]) SetScope(scope scope.Scope) {
 }
 
 func (d *SpectralDemodulator[M, F]) Reset() {
+	d.signalDebouncer = dsp.NewBoolDebouncer(d.signalDebouncer.Threshold())
 	d.decoder.Reset()
 }
 
-- 
2.43.0


From fd0e61a392f595b1f367f0403a2665d04406e9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:02 +0000
Subject: [PATCH 18/39] fix: cw: audio demodulator settings are applied when
 the call returns, and no call blocks after close

---
 cw/audio.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/cw/audio.go b/cw/audio.go
index a75cfa8..fb27f54 100644
--- a/cw/audio.go
+++ b/cw/audio.go
@@ -4,6 +4,7 @@ import (
 	"io"
 	"log"
 	"math"
+	"sync"
 	"time"
 
 	"github.com/ftl/sdrainer/dsp"
@@ -31,6 +32,8 @@ type AudioDemodulator struct {
 	close  chan struct{}
 	closed chan struct{}
 
+	closeOnce sync.Once
+
 	scope scope.Scope
 }
 
@@ -58,13 +61,8 @@ func NewAudioDemodulator(out io.Writer, pitch float64, sampleRate int, bufferSiz
 }
 
 func (d *AudioDemodulator) Close() {
-	select {
-	case <-d.close:
-		return
-	default:
-		close(d.close)
-		<-d.closed
-	}
+	d.closeOnce.Do(func() { close(d.close) })
+	<-d.closed
 }
 
 func (d *AudioDemodulator) SetScope(scope scope.Scope) {
@@ -158,11 +156,15 @@ func (d *AudioDemodulator) Write(buf []float32) (int, error) {
 }
 
 func (d *AudioDemodulator) do(f func()) {
+	done := make(chan struct{})
+	op := func() {
+		defer close(done)
+		f()
+	}
 	select {
+	case d.op <- op:
+		<-done
 	case <-d.closed:
-		return
-	default:
-		d.op <- f
 	}
 }
 
-- 
2.43.0


From 4d4f253ca11b5ed61020b9c2833472f6871cff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:09 +0000
Subject: [PATCH 19/39] fix: cw: audio demodulator keeps track of the channels
 across writes, writing after close returns

---
 cw/audio.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/cw/audio.go b/cw/audio.go
index fb27f54..f65a346 100644
--- a/cw/audio.go
+++ b/cw/audio.go
@@ -26,6 +26,7 @@ type AudioDemodulator struct {
 	maxScale     float64
 	scale        float32
 	channelCount int
+	channel      int // the channel of the next sample
 
 	in     chan float32
 	op     chan func()
@@ -95,6 +96,7 @@ func (d *AudioDemodulator) SetScale(scale float64) {
 func (d *AudioDemodulator) SetChannelCount(channelCount int) {
 	d.do(func() {
 		d.channelCount = channelCount
+		d.channel = 0
 	})
 }
 
@@ -146,11 +148,13 @@ func (d *AudioDemodulator) Blocksize() int {
 
 func (d *AudioDemodulator) Write(buf []float32) (int, error) {
 	n := 0
-	for i, sample := range buf {
-		if (i % d.channelCount) == 0 {
-			d.in <- sample
+	for _, sample := range buf {
+		select {
+		case d.in <- sample:
+			n++
+		case <-d.closed:
+			return n, io.ErrClosedPipe
 		}
-		n++
 	}
 	return n, nil
 }
@@ -178,6 +182,11 @@ func (d *AudioDemodulator) run() {
 		case op := <-d.op:
 			op()
 		case sample := <-d.in:
+			channel := d.channel
+			d.channel = (d.channel + 1) % d.channelCount
+			if channel != 0 {
+				continue
+			}
 			block = append(block, sample)
 			if len(block) < blocksize {
 				continue
-- 
2.43.0


From 74dc236dc3802d2b77deb97a613aa8df4d2b0bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:43 +0000
Subject: [PATCH 20/39] fix: rx: stopping the receiver does not race with its
 loop, and no call to it blocks for ever

---
 rx/receiver.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/rx/receiver.go b/rx/receiver.go
index 71516e4..a4d1b3b 100644
--- a/rx/receiver.go
+++ b/rx/receiver.go
@@ -6,6 +6,7 @@ import (
 	"log"
 	"math"
 	"os"
+	"sync"
 	"time"
 
 	"github.com/ftl/sdrainer/dsp"
@@ -74,6 +75,7 @@ type Receiver[T, F dsp.Number] struct {
 	centerFrequency F
 	vfoOffset       F
 
+	lifecycle        sync.Mutex // guards the channels
 	in               chan []T
 	op               chan func()
 	stop             chan struct{}
@@ -128,6 +130,8 @@ func (r *Receiver[T, F]) newListener(id string) *Listener[T, F] {
 }
 
 func (r *Receiver[T, F]) Start(sampleRate int, blockSize int) {
+	r.lifecycle.Lock()
+	defer r.lifecycle.Unlock()
 	if r.in != nil {
 		return
 	}
@@ -146,16 +150,15 @@ func (r *Receiver[T, F]) Start(sampleRate int, blockSize int) {
 }
 
 func (r *Receiver[T, F]) Stop() {
+	r.lifecycle.Lock()
+	defer r.lifecycle.Unlock()
 	if r.in == nil {
 		return
 	}
 
-	r.listeners.Reset()
-
 	close(r.stop)
 	<-r.stopped
-	close(r.in)
-	close(r.op)
+	r.listeners.Reset()
 
 	r.stop = nil
 	r.stopped = nil
@@ -164,10 +167,19 @@ func (r *Receiver[T, F]) Stop() {
 }
 
 func (r *Receiver[T, F]) do(f func()) {
+	r.lifecycle.Lock()
 	if r.op == nil {
 		f()
-	} else {
-		r.op <- f
+		r.lifecycle.Unlock()
+		return
+	}
+	op, stopped := r.op, r.stopped
+	r.lifecycle.Unlock()
+
+	select {
+	case op <- f:
+	case <-stopped:
+		r.do(f)
 	}
 }
 
@@ -262,7 +274,7 @@ func (r *Receiver[T, F]) SetCenterFrequency(frequency F) {
 }
 
 func (r *Receiver[T, F]) CenterFrequency() F {
-	result := make(chan F)
+	result := make(chan F, 1)
 	r.do(func() {
 		result <- r.centerFrequency
 	})
@@ -313,6 +325,8 @@ func (r *Receiver[T, F]) SetVFOOffset(offset F) {
 }
 
 func (r *Receiver[T, F]) IQData(sampleRate int, data []T) {
+	r.lifecycle.Lock()
+	defer r.lifecycle.Unlock()
 	if r.in == nil {
 		return
 	}
-- 
2.43.0


From 28a7e748ea02914b7aa2f65da8448a226382d868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:01 +0000
Subject: [PATCH 21/39] fix: rx: the signal debounce applies to listeners that
 are bound after it was set

---
 rx/receiver.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rx/receiver.go b/rx/receiver.go
index a4d1b3b..723d0b1 100644
--- a/rx/receiver.go
+++ b/rx/receiver.go
@@ -88,6 +88,7 @@ type Receiver[T, F dsp.Number] struct {
 	listeners         *ListenerPool[T, F]
 	silenceTimeout    time.Duration
 	attachmentTimeout time.Duration
+	signalDebounce    *int
 
 	scope scope.Scope
 }
@@ -125,6 +126,9 @@ func (r *Receiver[T, F]) newListener(id string) *Listener[T, F] {
 	result := NewListener[T, F](id, r.out.Channel(id), r.clock, r, r.sampleRate, r.blockSize)
 	result.SetAttachmentTimeout(r.attachmentTimeout)
 	result.SetSilenceTimeout(r.silenceTimeout)
+	if r.signalDebounce != nil {
+		result.SetSignalDebounce(*r.signalDebounce)
+	}
 	result.SetScope(r.scope)
 	return result
 }
@@ -258,6 +262,7 @@ func (r *Receiver[T, F]) SetAttachmentTimeout(timeout time.Duration) {
 
 func (r *Receiver[T, F]) SetSignalDebounce(debounce int) {
 	r.do(func() {
+		r.signalDebounce = &debounce
 		r.listeners.ForEach(func(l *Listener[T, F]) {
 			l.SetSignalDebounce(debounce)
 		})
-- 
2.43.0


From beab04c3ae565991afd16b60acd207c346dcad87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:19 +0000
Subject: [PATCH 22/39] fix: rx: decode mode listens on a VFO frequency that
 was known before the receiver started

---
 rx/receiver.go | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/rx/receiver.go b/rx/receiver.go
index 723d0b1..be1f9c2 100644
--- a/rx/receiver.go
+++ b/rx/receiver.go
@@ -74,6 +74,7 @@ type Receiver[T, F dsp.Number] struct {
 	blockSize       int
 	centerFrequency F
 	vfoOffset       F
+	vfoKnown        bool
 
 	lifecycle        sync.Mutex // guards the channels
 	in               chan []T
@@ -150,6 +151,10 @@ func (r *Receiver[T, F]) Start(sampleRate int, blockSize int) {
 	r.frequencyMapping = dsp.NewFrequencyMapping(r.sampleRate, r.blockSize, r.centerFrequency)
 	r.peaks = NewPeaksTable[T, F](r.blockSize, r.clock)
 
+	if r.mode == DecodeMode && r.vfoKnown {
+		r.bindToVFO()
+	}
+
 	go r.run()
 }
 
@@ -289,28 +294,14 @@ func (r *Receiver[T, F]) CenterFrequency() F {
 func (r *Receiver[T, F]) SetVFOOffset(offset F) {
 	r.do(func() {
 		r.vfoOffset = offset
+		r.vfoKnown = true
 		if r.in == nil {
 			return
 		}
 
 		switch r.mode {
 		case DecodeMode:
-			if !r.listeners.Available() {
-				r.listeners.Reset()
-			}
-			listener, ok := r.listeners.BindNext()
-			if !ok {
-				log.Printf("cannot bind listener to VFO")
-				return
-			}
-
-			freq := r.vfoOffset + r.centerFrequency
-			peak := r.newPeakCenteredOnFrequency(freq)
-			peak.SignalValue = 80
-			r.peaks.ForcePut(&peak)
-			r.peaks.Activate(&peak)
-			listener.Attach(&peak)
-			r.out.SetActive(listener.ID())
+			r.bindToVFO()
 		case StrainMode:
 			freq := r.vfoOffset + r.centerFrequency
 			bin := r.frequencyMapping.FrequencyToBin(freq)
@@ -329,6 +320,25 @@ func (r *Receiver[T, F]) SetVFOOffset(offset F) {
 	})
 }
 
+func (r *Receiver[T, F]) bindToVFO() {
+	if !r.listeners.Available() {
+		r.listeners.Reset()
+	}
+	listener, ok := r.listeners.BindNext()
+	if !ok {
+		log.Printf("cannot bind listener to VFO")
+		return
+	}
+
+	freq := r.vfoOffset + r.centerFrequency
+	peak := r.newPeakCenteredOnFrequency(freq)
+	peak.SignalValue = 80
+	r.peaks.ForcePut(&peak)
+	r.peaks.Activate(&peak)
+	listener.Attach(&peak)
+	r.out.SetActive(listener.ID())
+}
+
 func (r *Receiver[T, F]) IQData(sampleRate int, data []T) {
 	r.lifecycle.Lock()
 	defer r.lifecycle.Unlock()
-- 
2.43.0


From f50d8f089f58675b64642578140b5c93371f42da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:43 +0000
Subject: [PATCH 23/39] fix: telnet: nothing is lost when a connection accepts
 only a part of the data

---
 telnet/telnet.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index 4b11e48..7a1122c 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -299,17 +299,13 @@ func (c *Connection) readLoop() {
 }
 
 func (c *Connection) writeAll(bytes []byte) error {
-	n := 0
 	buffer := bytes
-	for n < len(buffer) {
-		var err error
-		n, err = c.conn.Write(buffer)
+	for len(buffer) > 0 {
+		n, err := c.conn.Write(buffer)
 		if err != nil {
 			return err
 		}
-		if n < len(buffer) {
-			buffer = buffer[n:]
-		}
+		buffer = buffer[n:]
 	}
 	return nil
 }
-- 
2.43.0


From d1015cb1404e3387e8f4168822f8126e438d4484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:54 +0000
Subject: [PATCH 24/39] fix: telnet: the entered callsign is taken byte by byte
 as it was entered

---
 telnet/telnet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index 7a1122c..7f4b0b7 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -325,7 +325,7 @@ func (c *Connection) parseAnswerByte(answerByte byte) (string, *Prompt) {
 		c.currentAnswer = ""
 		return response, nextPrompt
 	default:
-		c.currentAnswer += string(answerByte)
+		c.currentAnswer += string([]byte{answerByte})
 		return "", nil
 	}
 }
-- 
2.43.0


From 0f2d09349d7b1f3ad8b2771ea03ffdbf7f3a83f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:26 +0000
Subject: [PATCH 25/39] fix: telnet: writing to and closing a connection always
 return

---
 telnet/telnet.go | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index 7f4b0b7..6a94be0 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -9,6 +9,7 @@ import (
 	"log"
 	"net"
 	"os"
+	"sync"
 	"time"
 )
 
@@ -17,6 +18,8 @@ const (
 	connectionKeepAlivePeriod = 30 * time.Second
 	readBufferSize            = 1024
 	defaultSpotSilencePeriod  = 4 * time.Minute
+	messageBufferSize         = 100
+	writeTimeout              = 2 * time.Second
 )
 
 type spotHash string
@@ -192,8 +195,9 @@ type Connection struct {
 	currentPrompt *Prompt
 	currentAnswer string
 
-	close  chan struct{}
-	closed chan struct{}
+	close     chan struct{}
+	closeOnce sync.Once
+	closed    chan struct{}
 
 	user string
 }
@@ -201,7 +205,7 @@ type Connection struct {
 func NewConnection(conn io.ReadWriteCloser, welcome string) *Connection {
 	result := &Connection{
 		conn:  conn,
-		msg:   make(chan []byte, 1),
+		msg:   make(chan []byte, messageBufferSize),
 		input: make(chan []byte, 1),
 
 		currentAnswer: "",
@@ -222,7 +226,7 @@ func (c *Connection) run() {
 	defer close(c.closed)
 	defer func() {
 		err := c.conn.Close()
-		if err != nil {
+		if err != nil && !errors.Is(err, net.ErrClosed) {
 			log.Printf("close %s: %v", c.user, err)
 		}
 	}()
@@ -294,7 +298,11 @@ func (c *Connection) readLoop() {
 
 		bytes := make([]byte, n)
 		copy(bytes, readBuffer[:n])
-		c.input <- bytes
+		select {
+		case c.input <- bytes:
+		case <-c.closed:
+			return
+		}
 	}
 }
 
@@ -331,13 +339,11 @@ func (c *Connection) parseAnswerByte(answerByte byte) (string, *Prompt) {
 }
 
 func (c *Connection) Close() {
-	select {
-	case <-c.closed:
-		return
-	default:
+	c.closeOnce.Do(func() {
 		close(c.close)
-		<-c.closed
-	}
+		c.conn.Close() // ends any pending write
+	})
+	<-c.closed
 }
 
 func (c *Connection) Write(bytes []byte) (int, error) {
@@ -345,8 +351,19 @@ func (c *Connection) Write(bytes []byte) (int, error) {
 	case <-c.closed:
 		return 0, net.ErrClosed
 	default:
-		c.msg <- bytes
+	}
+
+	timeout := time.NewTimer(writeTimeout)
+	defer timeout.Stop()
+	select {
+	case c.msg <- bytes:
 		return len(bytes), nil
+	case <-c.closed:
+		return 0, net.ErrClosed
+	case <-timeout.C:
+		// the peer does not accept any data
+		c.Close()
+		return 0, os.ErrDeadlineExceeded
 	}
 }
 
-- 
2.43.0


From 6679097a5dfcfd91d5c1586bbe360fc9ee66f7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:32 +0000
Subject: [PATCH 26/39] fix: telnet: stopping the server always returns and
 frees the address, spots after it do not block

---
 telnet/telnet.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index 6a94be0..1cd5162 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -41,9 +41,10 @@ type Server struct {
 	lastSpots     map[spotHash]time.Time
 	silencePeriod time.Duration
 
-	msg    chan []byte
-	close  chan struct{}
-	closed chan struct{}
+	msg       chan []byte
+	close     chan struct{}
+	closeOnce sync.Once
+	closed    chan struct{}
 }
 
 func NewServer(address string, mycall string, version string) (*Server, error) {
@@ -76,6 +77,7 @@ func NewServer(address string, mycall string, version string) (*Server, error) {
 
 func (s *Server) run() {
 	defer close(s.closed)
+	defer s.listener.Close()
 	welcome := fmt.Sprintf("SDRainer Version %s\n", s.version)
 
 	removeConnections := make([]int, 0, 10)
@@ -142,13 +144,8 @@ func (s *Server) removeConnection(index int) {
 }
 
 func (s *Server) Stop() {
-	select {
-	case <-s.closed:
-		return
-	default:
-		close(s.close)
-		<-s.closed
-	}
+	s.closeOnce.Do(func() { close(s.close) })
+	<-s.closed
 }
 
 func (s *Server) SetSilencePeriod(silencePeriod time.Duration) {
@@ -158,7 +155,11 @@ func (s *Server) SetSilencePeriod(silencePeriod time.Duration) {
 func (s *Server) Spot(callsign string, frequency float64, msg string, timestamp time.Time) {
 	hash := newSpotHash(callsign, frequency)
 	if s.shouldAnnounce(hash, timestamp) {
-		s.msg <- []byte(s.formatSpotMessage(callsign, frequency, msg, timestamp))
+		select {
+		case s.msg <- []byte(s.formatSpotMessage(callsign, frequency, msg, timestamp)):
+		case <-s.closed:
+			return
+		}
 		s.registerSpot(hash, timestamp)
 	}
 }
-- 
2.43.0


From 7f855cc85f64ea45ac9d5617d5d56cb2d5bf1920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 27/39] fix: host arguments with an IPv6 address are
 understood, with or without brackets and port

---
 cli/cli.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cli/cli.go b/cli/cli.go
index 6813cf2..988611d 100644
--- a/cli/cli.go
+++ b/cli/cli.go
@@ -1,7 +1,6 @@
 package cli
 
 import (
-	"fmt"
 	"net"
 	"strconv"
 	"strings"
@@ -18,12 +17,17 @@ func ParseTCPAddrArg(arg string, defaultHost string, defaultPort int) (*net.TCPA
 		port = strconv.Itoa(defaultPort)
 	}
 
-	return net.ResolveTCPAddr("tcp", fmt.Sprintf("%s:%s", host, port))
+	return net.ResolveTCPAddr("tcp", net.JoinHostPort(host, port))
 }
 
 func splitHostPort(hostport string) (host, port string) {
 	host = hostport
 
+	// an IPv6 address without brackets cannot have a port
+	if strings.Count(host, ":") > 1 && !strings.HasPrefix(host, "[") {
+		return host, ""
+	}
+
 	colon := strings.LastIndexByte(host, ':')
 	if colon != -1 && validOptionalPort(host[colon:]) {
 		host, port = host[:colon], host[colon+1:]
-- 
2.43.0


From 8f698f8c15f5d94ae1d66809c3547fbc77de108f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:27 +0000
Subject: [PATCH 28/39] fix: several stalled scope clients, stopping and
 restarting the scope server do not panic or block

---
 scope/server.go      | 60 +++++++++++++++++++-------------
 scope/server_grpc.go | 82 ++++++++++++++++++++++++++++++++------------
 2 files changed, 96 insertions(+), 46 deletions(-)

diff --git a/scope/server.go b/scope/server.go
index b65c4c7..8f9fd42 100644
--- a/scope/server.go
+++ b/scope/server.go
@@ -29,22 +29,27 @@ func NewScopeServer(address string) *ScopeServer {
 }
 
 func (s *ScopeServer) Active() bool {
+	return s.activeServer() != nil
+}
+
+func (s *ScopeServer) activeServer() *grpcServer {
 	s.serverLock.Lock()
 	defer s.serverLock.Unlock()
-	return s.server != nil
+	return s.server
 }
 
 func (s *ScopeServer) Addr() net.Addr {
-	s.serverLock.Lock()
-	defer s.serverLock.Unlock()
-	if s.server != nil {
-		return s.server.Addr()
+	server := s.activeServer()
+	if server != nil {
+		return server.Addr()
 	}
 	return nil
 }
 
 func (s *ScopeServer) Start() error {
-	if s.Active() {
+	s.serverLock.Lock()
+	defer s.serverLock.Unlock()
+	if s.server != nil {
 		return fmt.Errorf("scope was already started")
 	}
 
@@ -52,39 +57,45 @@ func (s *ScopeServer) Start() error {
 	if err != nil {
 		return err
 	}
+	err = server.listen()
+	if err != nil {
+		return err
+	}
+	s.server = server
 
 	go func() {
-		s.serverLock.Lock()
-		if s.server != nil {
-			s.serverLock.Unlock()
-			return
-		}
-		s.server = server
-		s.serverLock.Unlock()
-
-		err := s.server.Start()
+		err := server.serve()
 		if err != nil {
 			log.Printf("Scope server failed: %v", err)
 		}
 
-		s.serverLock.Lock()
-		s.server = nil
-		s.serverLock.Unlock()
+		s.release(server)
 	}()
 
 	return nil
 }
 
 func (s *ScopeServer) Stop() {
-	if !s.Active() {
+	server := s.activeServer()
+	if server == nil {
 		return
 	}
 
-	s.server.Stop()
+	server.Stop()
+	s.release(server)
+}
+
+func (s *ScopeServer) release(server *grpcServer) {
+	s.serverLock.Lock()
+	defer s.serverLock.Unlock()
+	if s.server == server {
+		s.server = nil
+	}
 }
 
 func (s *ScopeServer) ShowTimeFrame(timeFrame *TimeFrame) {
-	if !s.Active() {
+	server := s.activeServer()
+	if server == nil {
 		return
 	}
 
@@ -102,11 +113,12 @@ func (s *ScopeServer) ShowTimeFrame(timeFrame *TimeFrame) {
 			TimeFrame: grpcTimeFrame,
 		},
 	}
-	s.server.SendFrame(frame)
+	server.SendFrame(frame)
 }
 
 func (s *ScopeServer) ShowSpectralFrame(spectralFrame *SpectralFrame) {
-	if !s.Active() {
+	server := s.activeServer()
+	if server == nil {
 		return
 	}
 
@@ -134,5 +146,5 @@ func (s *ScopeServer) ShowSpectralFrame(spectralFrame *SpectralFrame) {
 			SpectralFrame: grpcSpectralFrame,
 		},
 	}
-	s.server.SendFrame(frame)
+	server.SendFrame(frame)
 }
diff --git a/scope/server_grpc.go b/scope/server_grpc.go
index e6ee85e..16c25f0 100644
--- a/scope/server_grpc.go
+++ b/scope/server_grpc.go
@@ -1,8 +1,10 @@
 package scope
 
 import (
+	"errors"
 	"fmt"
 	"net"
+	"sync"
 
 	"google.golang.org/grpc"
 
@@ -14,6 +16,7 @@ const defaultOutBufferSize = 10
 type grpcServer struct {
 	address *net.TCPAddr
 	server  *grpc.Server
+	lock    sync.Mutex
 
 	outBufferSize int
 	in            chan *pb.Frame
@@ -21,6 +24,7 @@ type grpcServer struct {
 	out           []chan *pb.Frame
 	shutdown      chan struct{}
 
+	listener      net.Listener
 	activeAddress net.Addr
 }
 
@@ -42,9 +46,6 @@ func newGRPCServer(address string, outBufferSize int) (*grpcServer, error) {
 }
 
 func (s *grpcServer) run() {
-	defer close(s.in)
-	defer close(s.register)
-
 	for {
 		select {
 		case <-s.shutdown:
@@ -65,61 +66,91 @@ func (s *grpcServer) addStream(out chan *pb.Frame) {
 	s.out = append(s.out, out)
 }
 
-func (s *grpcServer) removeStream(i int) {
-	if len(s.out) == 1 {
-		s.out = nil
-		return
-	}
-	s.out[i] = s.out[len(s.out)-1]
-	s.out = s.out[:len(s.out)-1]
-}
-
 func (s *grpcServer) sendFrameToStreams(frame *pb.Frame) {
-	for i, out := range s.out {
+	responsive := make([]chan *pb.Frame, 0, len(s.out))
+	for _, out := range s.out {
 		select {
 		case out <- frame:
+			responsive = append(responsive, out)
 		default:
 			close(out)
-			s.removeStream(i)
 		}
 	}
+	s.out = responsive
 }
 
 func (s *grpcServer) getFrameStream() chan *pb.Frame {
 	result := make(chan *pb.Frame, s.outBufferSize)
-	s.register <- result
+	select {
+	case s.register <- result:
+	case <-s.shutdown:
+		close(result)
+	}
 	return result
 }
 
 func (s *grpcServer) Start() error {
+	err := s.listen()
+	if err != nil {
+		return err
+	}
+	return s.serve()
+}
+
+func (s *grpcServer) listen() error {
+	s.lock.Lock()
+	defer s.lock.Unlock()
+
 	if s.server != nil {
 		return fmt.Errorf("server already running")
 	}
-	s.server = grpc.NewServer()
-	pb.RegisterScopeServer(s.server, s)
 
 	listener, err := net.Listen("tcp", s.address.String())
 	if err != nil {
 		return fmt.Errorf("cannot listen on address %s: %w", s.address, err)
 	}
+	s.listener = listener
 	s.activeAddress = listener.Addr()
+	s.server = grpc.NewServer()
+	pb.RegisterScopeServer(s.server, s)
+	return nil
+}
+
+func (s *grpcServer) serve() error {
+	s.lock.Lock()
+	server, listener := s.server, s.listener
+	s.lock.Unlock()
 
 	go s.run()
 
-	err = s.server.Serve(listener)
+	err := server.Serve(listener)
+
+	s.lock.Lock()
 	s.server = nil
+	s.lock.Unlock()
 	close(s.shutdown)
+
+	if errors.Is(err, grpc.ErrServerStopped) {
+		return nil
+	}
 	return err
 }
 
 func (s *grpcServer) Stop() {
-	if s.server == nil {
+	s.lock.Lock()
+	server, listener := s.server, s.listener
+	s.lock.Unlock()
+	if server == nil {
 		return
 	}
-	s.server.Stop()
+
+	server.Stop()
+	listener.Close() // the server closes the listener only if it was already serving
 }
 
 func (s *grpcServer) Addr() net.Addr {
+	s.lock.Lock()
+	defer s.lock.Unlock()
 	return s.activeAddress
 }
 
@@ -141,8 +172,15 @@ func (s *grpcServer) GetFrames(_ *pb.GetScopeRequest, stream pb.Scope_GetFramesS
 }
 
 func (s *grpcServer) SendFrame(frame *pb.Frame) {
-	if s.server == nil {
+	s.lock.Lock()
+	running := s.server != nil
+	s.lock.Unlock()
+	if !running {
 		return
 	}
-	s.in <- frame
+
+	select {
+	case s.in <- frame:
+	case <-s.shutdown:
+	}
 }
-- 
2.43.0


From cc31ed517e60a1d378252c89dc2b89d0dc331c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:44 +0000
Subject: [PATCH 29/39] fix: a KiwiSDR connection that is closed, refused or
 broken at any time neither panics, blocks nor stays open

---
 kiwi/client.go | 54 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/kiwi/client.go b/kiwi/client.go
index 4bb27cb..05d7236 100644
--- a/kiwi/client.go
+++ b/kiwi/client.go
@@ -10,6 +10,7 @@ import (
 	"net/url"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/ftl/sdrainer/cli"
@@ -58,6 +59,7 @@ var (
 	ErrTooBusy     = errors.New("kiwi too busy")
 	ErrBadPassword = errors.New("bad password")
 	ErrDown        = errors.New("kiwi down")
+	ErrClosed      = errors.New("connection to KiwiSDR closed")
 )
 
 type clientConn interface {
@@ -84,9 +86,10 @@ type Client struct {
 	iqBuffer    []float32
 	kiwiHandler KiwiHandler
 
-	out    chan string
-	close  chan struct{}
-	closed chan struct{}
+	out       chan string
+	close     chan struct{}
+	closeOnce sync.Once
+	closed    chan struct{}
 }
 
 func Open(host string, username string, password string, centerFrequency float64, bandwidth int, kiwiHandler KiwiHandler) (*Client, error) {
@@ -104,8 +107,11 @@ func Open(host string, username string, password string, centerFrequency float64
 	go client.readLoop(conn)
 	go client.writeLoop(conn)
 
-	client.sendAuthentication(username, password)
-	client.sendSetup(
+	err = client.sendAuthentication(username, password)
+	if err != nil {
+		return nil, err
+	}
+	err = client.sendSetup(
 		"SET AR OK in=12000 out=48000",
 		"SET squelch=0 max=0",
 		"SET lms_autonotch=0",
@@ -114,11 +120,17 @@ func Open(host string, username string, password string, centerFrequency float64
 		"SET agc=0 hang=0 thresh=-100 slope=6 decay=1000 manGain=50",
 		"SET compression=0",
 	)
+	if err != nil {
+		return nil, err
+	}
 
 	lowCut := -(bandwidth / 2)
 	highCut := bandwidth / 2
 
-	client.setVFO(iqMode, lowCut, highCut, centerFrequency)
+	err = client.setVFO(iqMode, lowCut, highCut, centerFrequency)
+	if err != nil {
+		return nil, err
+	}
 
 	return client, nil
 }
@@ -173,7 +185,7 @@ func (c *Client) readLoop(conn clientConn) {
 			msgType, msgBytes, err := conn.ReadMessage()
 			if err != nil {
 				log.Printf("cannot read next message from websocket: %v", err)
-				close(c.close)
+				c.shutdown()
 				return
 			}
 			if msgType != websocket.BinaryMessage {
@@ -212,7 +224,7 @@ func (c *Client) readLoop(conn clientConn) {
 			if err == ErrTooBusy || err == ErrBadPassword || err == ErrDown {
 				log.Printf("error message: %s", payload)
 				log.Print(err)
-				close(c.close)
+				c.shutdown()
 				return
 			}
 
@@ -309,6 +321,7 @@ func decodeIQBytes(iqData []float32, iqBytes []byte) []float32 {
 
 func (c *Client) writeLoop(conn clientConn) {
 	defer close(c.closed)
+	defer conn.Close() // also ends the readLoop
 
 	keepaliveMessage := []byte("SET keepalive")
 	keepalive := time.NewTicker(5 * time.Second)
@@ -328,7 +341,7 @@ func (c *Client) writeLoop(conn clientConn) {
 		}
 		if err != nil {
 			log.Printf("cannot write message to websocket: %v", err)
-			close(c.close)
+			c.shutdown()
 			return
 		}
 	}
@@ -358,22 +371,23 @@ func (c *Client) setVFO(mode kiwiMode, lowCut int, highCut int, centerFrequency
 }
 
 func (c *Client) send(format string, args ...any) error {
-	c.out <- fmt.Sprintf(format, args...)
-	return nil
-}
-
-func (c *Client) Close() {
 	select {
-	case <-c.close:
-		return
+	case c.out <- fmt.Sprintf(format, args...):
+		return nil
 	case <-c.closed:
-		return
-	default:
-		close(c.close)
-		<-c.closed
+		return ErrClosed
 	}
 }
 
+func (c *Client) Close() {
+	c.shutdown()
+	<-c.closed
+}
+
+func (c *Client) shutdown() {
+	c.closeOnce.Do(func() { close(c.close) })
+}
+
 func nextClientNumber() int64 {
 	return time.Now().Unix()
 }
-- 
2.43.0


From 9897fbe537c501120da74a16590057abfbe2bff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:30 +0000
Subject: [PATCH 30/39] fix: KiwiSDR messages: short IQ messages panicked,
 delivered IQ data was overwritten by the next message, an invalid audio rate
 replaced the known one

---
 kiwi/client.go | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/kiwi/client.go b/kiwi/client.go
index 05d7236..3df101a 100644
--- a/kiwi/client.go
+++ b/kiwi/client.go
@@ -29,6 +29,8 @@ Resources:
 const (
 	defaultHostname = "localhost"
 	defaultPort     = 8073
+
+	iqHeaderSize = 17
 )
 
 type kiwiTag string
@@ -83,7 +85,6 @@ type Client struct {
 	connected     bool
 	keepalive     bool
 
-	iqBuffer    []float32
 	kiwiHandler KiwiHandler
 
 	out       chan string
@@ -212,10 +213,11 @@ func (c *Client) readLoop(conn clientConn) {
 				} else if c.audioRate == 0 {
 					err = fmt.Errorf("received IQ data with unknown audio rate")
 				} else {
-					c.iqBuffer, err = decodeIQMessage(c.iqBuffer, payload)
-				}
-				if err == nil {
-					c.kiwiHandler.IQData(c.audioRate, c.iqBuffer)
+					var iqData []float32
+					iqData, err = decodeIQMessage(payload)
+					if err == nil {
+						c.kiwiHandler.IQData(c.audioRate, iqData)
+					}
 				}
 			default:
 				log.Printf("received message with unknown tag: %s %d bytes", tag, len(payload))
@@ -278,7 +280,14 @@ func (c *Client) decodeConfigurationMessage(payload []byte) error {
 		var err error
 		switch {
 		case key == "audio_rate":
-			c.audioRate, err = strconv.Atoi(value)
+			var audioRate int
+			audioRate, err = strconv.Atoi(value)
+			if err == nil && audioRate <= 0 {
+				err = fmt.Errorf("invalid audio rate: %s", value)
+			}
+			if err == nil {
+				c.audioRate = audioRate
+			}
 		case key == "compression":
 			c.compression = (value == "1")
 		case strings.HasPrefix(key, "load_"):
@@ -293,7 +302,11 @@ func (c *Client) decodeConfigurationMessage(payload []byte) error {
 	return nil
 }
 
-func decodeIQMessage(iqData []float32, payload []byte) ([]float32, error) {
+func decodeIQMessage(payload []byte) ([]float32, error) {
+	if len(payload) < iqHeaderSize {
+		return nil, fmt.Errorf("IQ message too short: %d bytes", len(payload))
+	}
+
 	// decode header information
 	// flags := payload[0]
 	// sequenceNumber := binary.LittleEndian.Uint32(payload[1:5])
@@ -301,17 +314,13 @@ func decodeIQMessage(iqData []float32, payload []byte) ([]float32, error) {
 	// rssi := 0.1*float32(smeter) - 127
 	// 10 more bytes of GPS information are ignored
 
-	iqBytes := payload[17:]
-	iqData = decodeIQBytes(iqData, iqBytes)
-
-	return iqData, nil
+	return decodeIQBytes(payload[iqHeaderSize:]), nil
 }
 
-func decodeIQBytes(iqData []float32, iqBytes []byte) []float32 {
+// decodeIQBytes returns a new slice with every call, since the handler may keep the data.
+func decodeIQBytes(iqBytes []byte) []float32 {
 	n := len(iqBytes) / 2
-	if len(iqData) != n {
-		iqData = make([]float32, n)
-	}
+	iqData := make([]float32, n)
 	for i := 0; i < n; i++ {
 		rawSample := binary.BigEndian.Uint16(iqBytes[2*i : 2*(i+1)])
 		iqData[i] = float32(int16(rawSample)) / float32(math.MaxInt16)
-- 
2.43.0


From 9a65f326a0bd28195f8adc933e3b110e61b85739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 31/39] fix: a KiwiSDR with an IPv6 address can be connected

---
 kiwi/client.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kiwi/client.go b/kiwi/client.go
index 3df101a..7e03143 100644
--- a/kiwi/client.go
+++ b/kiwi/client.go
@@ -163,9 +163,10 @@ func newClient(host string, keepalive bool, kiwiHandler KiwiHandler) (*Client, e
 }
 
 func (c *Client) connect() (clientConn, error) {
-	hostUrl, err := url.Parse(fmt.Sprintf("ws://%s:%d/%d/SND", c.host.IP.String(), c.host.Port, nextClientNumber()))
-	if err != nil {
-		return nil, fmt.Errorf("cannot build KiwiSDR URL: %v", err)
+	hostUrl := url.URL{
+		Scheme: "ws",
+		Host:   c.host.String(),
+		Path:   fmt.Sprintf("/%d/SND", nextClientNumber()),
 	}
 
 	conn, _, err := websocket.DefaultDialer.Dial(hostUrl.String(), nil)
-- 
2.43.0


From 3e7f947dac286a11d437c9b5de7dbebcf0211b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:52 +0000
Subject: [PATCH 32/39] fix: closing the KiwiSDR process concurrently, IQ data
 of an unexpected size and a connection that is established while closing do
 no harm

---
 kiwi/kiwi.go | 51 ++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/kiwi/kiwi.go b/kiwi/kiwi.go
index 2df24c2..f161a8c 100644
--- a/kiwi/kiwi.go
+++ b/kiwi/kiwi.go
@@ -3,6 +3,7 @@ package kiwi
 import (
 	"fmt"
 	"log"
+	"sync"
 	"time"
 
 	"github.com/ftl/sdrainer/rx"
@@ -31,7 +32,8 @@ type Process struct {
 	attachmentTimeout time.Duration
 	scope             scope.Scope
 
-	close chan struct{}
+	lock   sync.Mutex
+	closed bool
 }
 
 func New(host string, username string, password string, centerFrequency float64, bandwidth int, spotter Spotter) (*Process, error) {
@@ -39,7 +41,6 @@ func New(host string, username string, password string, centerFrequency float64,
 		spotter:         spotter,
 		centerFrequency: centerFrequency,
 		rxFrequency:     centerFrequency,
-		close:           make(chan struct{}),
 		scope:           scope.NewNullScope(),
 	}
 	result.receiver = rx.NewReceiver[float32, int]("", rx.StrainMode, rx.WallClock)
@@ -49,6 +50,7 @@ func New(host string, username string, password string, centerFrequency float64,
 
 	client, err := Open(host, username, password, centerFrequency, bandwidth, result)
 	if err != nil {
+		result.stop()
 		return nil, fmt.Errorf("cannot open KiwiSDR client: %v", err)
 	}
 	result.client = client
@@ -57,19 +59,25 @@ func New(host string, username string, password string, centerFrequency float64,
 }
 
 func (p *Process) Close() {
-	select {
-	case <-p.close:
+	p.client.Close()
+	p.stop()
+}
+
+func (p *Process) stop() {
+	p.lock.Lock()
+	defer p.lock.Unlock()
+	if p.closed {
 		return
-	default:
-		close(p.close)
-		p.client.Close()
-		p.receiver.Stop()
 	}
+	p.closed = true
+	p.receiver.Stop()
 }
 
 func (p *Process) Connected(sampleRate int) {
-	if sampleRate == 0 {
-		log.Fatal("no audio rate!")
+	p.lock.Lock()
+	defer p.lock.Unlock()
+	if p.closed {
+		return
 	}
 
 	p.receiver.Start(sampleRate, blockSize)
@@ -77,7 +85,7 @@ func (p *Process) Connected(sampleRate int) {
 		p.receiver.SetPeakThreshold(p.threshold)
 	}
 	if p.rxFrequency != 0 {
-		p.SetRXFrequency(p.rxFrequency)
+		p.setVFOOffset()
 	}
 	if p.signalDebounce != 0 {
 		p.receiver.SetSignalDebounce(p.signalDebounce)
@@ -94,7 +102,8 @@ func (p *Process) Connected(sampleRate int) {
 func (p *Process) IQData(sampleRate int, data []float32) {
 	const partSize = blockSize * 2
 	if len(data)%partSize != 0 {
-		panic(fmt.Errorf("data must be transferred in blocks of %d samples instead of %d", partSize, len(data)))
+		log.Printf("data must be transferred in blocks of %d samples instead of %d", partSize, len(data))
+		return
 	}
 	count := len(data) / partSize
 	for i := 0; i < count; i++ {
@@ -105,36 +114,52 @@ func (p *Process) IQData(sampleRate int, data []float32) {
 }
 
 func (p *Process) SetScope(scope scope.Scope) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	p.scope = scope
 	p.receiver.SetScope(scope)
 }
 
 func (p *Process) SetThreshold(threshold int) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	p.threshold = float32(threshold)
 	p.receiver.SetPeakThreshold(float32(threshold))
 }
 
 func (p *Process) SetRXFrequency(frequency float64) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	p.rxFrequency = frequency
 	if frequency == 0 {
 		return
 	}
 
-	delta := int(frequency - p.centerFrequency)
+	p.setVFOOffset()
+}
+
+func (p *Process) setVFOOffset() {
+	delta := int(p.rxFrequency - p.centerFrequency)
 	p.receiver.SetVFOOffset(delta)
 }
 
 func (p *Process) SetSilenceTimeout(timeout time.Duration) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	p.silenceTimeout = timeout
 	p.receiver.SetSilenceTimeout(timeout)
 }
 
 func (p *Process) SetAttachmentTimeout(timeout time.Duration) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	p.attachmentTimeout = timeout
 	p.receiver.SetAttachmentTimeout(timeout)
 }
 
 func (p *Process) SetSignalDebounce(debounce int) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	p.signalDebounce = debounce
 	p.receiver.SetSignalDebounce(debounce)
 }
-- 
2.43.0


From d5b6a89b1f8704768278edf8b21774c0b34a9092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:19 +0000
Subject: [PATCH 33/39] fix: tci: a device with a bandwidth of more than 48 kHz
 does not crash the receiver

---
 tci/tci.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tci/tci.go b/tci/tci.go
index a624187..cacdbae 100644
--- a/tci/tci.go
+++ b/tci/tci.go
@@ -157,7 +157,7 @@ func (p *Process) onConnected(connected bool) {
 	sampleRate := 48000
 	blockSize := 2048 / partCount
 	edgeWidth := int((float32(sampleRate-bandwidth) / 2.0) * (float32(blockSize) / float32(sampleRate)))
-	p.receiver.SetEdgeWidth(edgeWidth)
+	p.receiver.SetEdgeWidth(max(0, edgeWidth))
 
 	p.receiver.Start(sampleRate, blockSize)
 	if p.threshold != 0 {
-- 
2.43.0


From d0403a82bd89f4bac6ed5b6e80ada56c7139364b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:35 +0000
Subject: [PATCH 34/39] fix: tci: Close waits for the receiver's reports, works
 concurrently, and is final

The goroutine that handles the reports of the receiver also stopped it, which
blocked both when there were more reports than the queue could take. Two
concurrent calls of Close panicked, and a reconnect after Close started the
receiver and the IQ stream again. The listener is registered before the first
connection, so that this one is not missed.
---
 tci/tci.go | 61 ++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 20 deletions(-)

diff --git a/tci/tci.go b/tci/tci.go
index cacdbae..eeaf300 100644
--- a/tci/tci.go
+++ b/tci/tci.go
@@ -2,6 +2,7 @@ package tci
 
 import (
 	"fmt"
+	"sync"
 	"time"
 
 	tci "github.com/ftl/tci/client"
@@ -37,9 +38,11 @@ type Process struct {
 	showListeners     bool
 	showSpots         bool
 
-	opAsync chan func()
-	close   chan struct{}
-	closed  chan struct{}
+	opAsync   chan func()
+	close     chan struct{}
+	closeOnce sync.Once
+	closed    chan struct{}
+	closing   bool
 }
 
 func New(host string, trx int, mode rx.ReceiverMode, spotter Spotter, reporter rx.Reporter[int], traceTCI bool) (*Process, error) {
@@ -51,10 +54,7 @@ func New(host string, trx int, mode rx.ReceiverMode, spotter Spotter, reporter r
 		tcpHost.Port = defaultPort
 	}
 
-	client := tci.KeepOpen(tcpHost, timeout, traceTCI)
-
 	result := &Process{
-		client:  client,
 		trx:     trx,
 		spotter: spotter,
 		opAsync: make(chan func(), 100),
@@ -69,20 +69,15 @@ func New(host string, trx int, mode rx.ReceiverMode, spotter Spotter, reporter r
 		result.receiver.AddReporter(reporter)
 	}
 
+	result.client = tci.KeepOpen(tcpHost, timeout, traceTCI, result.listener)
 	go result.run()
-	client.Notify(result.listener)
 
 	return result, nil
 }
 
 func (p *Process) Close() {
-	select {
-	case <-p.close:
-		return
-	default:
-		close(p.close)
-		<-p.closed
-	}
+	p.closeOnce.Do(func() { close(p.close) })
+	<-p.closed
 }
 
 func (p *Process) run() {
@@ -91,20 +86,39 @@ func (p *Process) run() {
 		case op := <-p.opAsync:
 			op()
 		case <-p.close:
-			p.client.StopIQ(p.trx)
-			p.receiver.Stop()
-			close(p.closed)
-			return
+			p.closing = true
+			stopped := make(chan struct{})
+			go func() {
+				defer close(stopped)
+				p.stop()
+			}()
+			for {
+				select {
+				case op := <-p.opAsync: // the receiver reports until it is stopped
+					op()
+				case <-stopped:
+					for len(p.opAsync) > 0 {
+						op := <-p.opAsync
+						op()
+					}
+					close(p.closed)
+					return
+				}
+			}
 		}
 	}
 }
 
+func (p *Process) stop() {
+	p.client.StopIQ(p.trx)
+	p.receiver.Stop()
+}
+
 func (p *Process) doAsync(f func()) {
 	select {
 	case <-p.closed:
 		f()
-	default:
-		p.opAsync <- f
+	case p.opAsync <- f:
 	}
 }
 
@@ -152,6 +166,13 @@ func (p *Process) onConnected(connected bool) {
 	if !connected {
 		return
 	}
+	p.doAsync(p.start)
+}
+
+func (p *Process) start() {
+	if p.closing {
+		return
+	}
 
 	bandwidth := -p.client.MinIFFrequency + p.client.MaxIFFrequency
 	sampleRate := 48000
-- 
2.43.0


From e01d708239cf5e746829d7cf00aba173c54a96ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:42 +0000
Subject: [PATCH 35/39] fix: tci: a command that is pending when the connection
 breaks does not block

The client library never answers such a command, and the process did not
reconnect or close any more.
---
 tci/tci.go | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/tci/tci.go b/tci/tci.go
index eeaf300..2d83497 100644
--- a/tci/tci.go
+++ b/tci/tci.go
@@ -17,6 +17,9 @@ const (
 	defaultPort     = 40001
 	timeout         = 10 * time.Second
 	partCount       = 4
+
+	// a command that is pending when the connection breaks never gets a reply
+	commandTimeout = 1 * time.Second
 )
 
 type Spotter interface {
@@ -110,10 +113,26 @@ func (p *Process) run() {
 }
 
 func (p *Process) stop() {
-	p.client.StopIQ(p.trx)
+	p.command(func() error { return p.client.StopIQ(p.trx) })
 	p.receiver.Stop()
 }
 
+// command executes the given client command, but waits only a limited time for its completion.
+func (p *Process) command(f func() error) {
+	done := make(chan struct{})
+	go func() {
+		defer close(done)
+		f()
+	}()
+
+	timer := time.NewTimer(commandTimeout)
+	defer timer.Stop()
+	select {
+	case <-done:
+	case <-timer.C:
+	}
+}
+
 func (p *Process) doAsync(f func()) {
 	select {
 	case <-p.closed:
@@ -195,8 +214,8 @@ func (p *Process) start() {
 	}
 	p.receiver.SetScope(p.scope)
 
-	p.client.SetIQSampleRate(48000)
-	p.client.StartIQ(p.trx)
+	p.command(func() error { return p.client.SetIQSampleRate(48000) })
+	p.command(func() error { return p.client.StartIQ(p.trx) })
 }
 
 var (
@@ -212,8 +231,8 @@ func (p *Process) ListenerActivated(id string, frequency int) {
 
 func (p *Process) showDecode(id string, frequency int) {
 	if p.showListeners {
-		p.client.DeleteSpot(id)
-		p.client.AddSpot(id, tci.ModeCW, frequency, decodeColor, "SDRainer")
+		p.command(func() error { return p.client.DeleteSpot(id) })
+		p.command(func() error { return p.client.AddSpot(id, tci.ModeCW, frequency, decodeColor, "SDRainer") })
 	}
 }
 
@@ -222,7 +241,7 @@ func (p *Process) ListenerDeactivated(id string, _ int) {
 }
 
 func (p *Process) hideDecode(id string) {
-	p.client.DeleteSpot(id)
+	p.command(func() error { return p.client.DeleteSpot(id) })
 }
 
 func (p *Process) CallsignDecoded(listener string, callsign string, frequency int, count int, weight int) {
@@ -237,7 +256,9 @@ func (p *Process) CallsignSpotted(_ string, callsign string, frequency int) {
 
 func (p *Process) showSpot(callsign string, frequency int) {
 	if p.showSpots {
-		p.client.AddSpot(">"+callsign+"<", tci.ModeCW, frequency, spotColor, "SDRainer")
+		p.command(func() error {
+			return p.client.AddSpot(">"+callsign+"<", tci.ModeCW, frequency, spotColor, "SDRainer")
+		})
 	}
 	if p.spotter != nil {
 		p.spotter.Spot(callsign, float64(frequency), "cw", time.Now().UTC())
@@ -251,7 +272,7 @@ func (p *Process) SpotTimeout(_ string, callsign string, _ int) {
 }
 
 func (p *Process) hideSpot(callsign string) {
-	p.client.DeleteSpot(">" + callsign + "<")
+	p.command(func() error { return p.client.DeleteSpot(">" + callsign + "<") })
 }
 
 type tciListener struct {
-- 
2.43.0


From 403f87bc00f47ccdcb7a734687788092409a5a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:47 +0000
Subject: [PATCH 36/39] fix: tci: settings made while the device connects are
 not lost

The setters and the start of the receiver run in different goroutines. The
receiver is started by the goroutine that notices the connection again, since
the goroutine that handles its reports must not wait for it.
---
 tci/tci.go | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/tci/tci.go b/tci/tci.go
index 2d83497..f6b433a 100644
--- a/tci/tci.go
+++ b/tci/tci.go
@@ -45,7 +45,10 @@ type Process struct {
 	close     chan struct{}
 	closeOnce sync.Once
 	closed    chan struct{}
-	closing   bool
+
+	lock     sync.Mutex
+	closing  bool
+	starting sync.WaitGroup
 }
 
 func New(host string, trx int, mode rx.ReceiverMode, spotter Spotter, reporter rx.Reporter[int], traceTCI bool) (*Process, error) {
@@ -72,7 +75,9 @@ func New(host string, trx int, mode rx.ReceiverMode, spotter Spotter, reporter r
 		result.receiver.AddReporter(reporter)
 	}
 
+	result.lock.Lock() // the client may already be connected before it is known here
 	result.client = tci.KeepOpen(tcpHost, timeout, traceTCI, result.listener)
+	result.lock.Unlock()
 	go result.run()
 
 	return result, nil
@@ -89,7 +94,6 @@ func (p *Process) run() {
 		case op := <-p.opAsync:
 			op()
 		case <-p.close:
-			p.closing = true
 			stopped := make(chan struct{})
 			go func() {
 				defer close(stopped)
@@ -113,6 +117,11 @@ func (p *Process) run() {
 }
 
 func (p *Process) stop() {
+	p.lock.Lock()
+	p.closing = true
+	p.lock.Unlock()
+	p.starting.Wait()
+
 	p.command(func() error { return p.client.StopIQ(p.trx) })
 	p.receiver.Stop()
 }
@@ -142,6 +151,8 @@ func (p *Process) doAsync(f func()) {
 }
 
 func (p *Process) SetScope(scope scope.Scope) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	p.scope = scope
 	if p.client.Connected() {
 		p.receiver.SetScope(scope)
@@ -154,6 +165,8 @@ func (p *Process) SetShow(listeners bool, spots bool) {
 }
 
 func (p *Process) SetThreshold(threshold int) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	p.threshold = float32(threshold)
 	if p.client.Connected() {
 		p.receiver.SetPeakThreshold(float32(threshold))
@@ -161,6 +174,8 @@ func (p *Process) SetThreshold(threshold int) {
 }
 
 func (p *Process) SetSilenceTimeout(timeout time.Duration) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	p.silenceTimeout = timeout
 	if p.client.Connected() {
 		p.receiver.SetSilenceTimeout(timeout)
@@ -168,6 +183,8 @@ func (p *Process) SetSilenceTimeout(timeout time.Duration) {
 }
 
 func (p *Process) SetAttachmentTimeout(timeout time.Duration) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	p.attachmentTimeout = timeout
 	if p.client.Connected() {
 		p.receiver.SetAttachmentTimeout(timeout)
@@ -175,6 +192,8 @@ func (p *Process) SetAttachmentTimeout(timeout time.Duration) {
 }
 
 func (p *Process) SetSignalDebounce(debounce int) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	p.signalDebounce = debounce
 	if p.client.Connected() {
 		p.receiver.SetSignalDebounce(debounce)
@@ -185,13 +204,22 @@ func (p *Process) onConnected(connected bool) {
 	if !connected {
 		return
 	}
-	p.doAsync(p.start)
+	if !p.startReceiver() {
+		return
+	}
+	defer p.starting.Done()
+
+	p.command(func() error { return p.client.SetIQSampleRate(48000) })
+	p.command(func() error { return p.client.StartIQ(p.trx) })
 }
 
-func (p *Process) start() {
+func (p *Process) startReceiver() bool {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	if p.closing {
-		return
+		return false
 	}
+	p.starting.Add(1)
 
 	bandwidth := -p.client.MinIFFrequency + p.client.MaxIFFrequency
 	sampleRate := 48000
@@ -213,9 +241,7 @@ func (p *Process) start() {
 		p.receiver.SetAttachmentTimeout(p.attachmentTimeout)
 	}
 	p.receiver.SetScope(p.scope)
-
-	p.command(func() error { return p.client.SetIQSampleRate(48000) })
-	p.command(func() error { return p.client.StartIQ(p.trx) })
+	return true
 }
 
 var (
-- 
2.43.0


From e5282b5362d7904be0744088fd54bfeb020f4781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 37/39] fix: strain kiwi: the threshold can be given and has
 the default of 15 dB

The flag was never defined, so that the threshold was always 0 dB over noise.
---
 cmd/kiwi.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/kiwi.go b/cmd/kiwi.go
index 61d73d6..aae23ab 100644
--- a/cmd/kiwi.go
+++ b/cmd/kiwi.go
@@ -36,6 +36,7 @@ func init() {
 	strainKiwiCmd.Flags().Float64Var(&kiwiFlags.centerFrequency, "center", 7_020_000, "the center frequency")
 	strainKiwiCmd.Flags().Float64Var(&kiwiFlags.rxFrequency, "rx", 0, "the rx frequency")
 	strainKiwiCmd.Flags().IntVar(&kiwiFlags.bandwidth, "bandwidth", 10_000, "the bandwidth that is observed to find CW signals (max 12000)")
+	strainKiwiCmd.Flags().IntVar(&kiwiFlags.threshold, "threshold", 15, "the threshold in dB over noise that a signal must exceed to be detected")
 }
 
 func runStrainKiwi(ctx context.Context, scope scope.Scope, cmd *cobra.Command, args []string) {
-- 
2.43.0


From e06d24202501d7db79e33a8b070f2bb853c7341d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:07 +0000
Subject: [PATCH 38/39] fix: decode pulse: record from the given source with
 its sample rate

The stream was always recorded from the default source and with 44100 Hz,
while the demodulator was set up for the sample rate of the given source.
---
 cmd/pulse.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/pulse.go b/cmd/pulse.go
index 4d3940b..c4f3412 100644
--- a/cmd/pulse.go
+++ b/cmd/pulse.go
@@ -61,7 +61,12 @@ func runPulse(ctx context.Context, scope scope.Scope, cmd *cobra.Command, args [
 	demodulator.SetMagnitudeThreshold(pulseFlags.magnitudeThreshold)
 	demodulator.SetScope(scope)
 
-	stream, err := client.NewRecord(pulse.Float32Writer(demodulator.Write), pulse.RecordBufferFragmentSize(2*uint32(demodulator.Blocksize())))
+	stream, err := client.NewRecord(
+		pulse.Float32Writer(demodulator.Write),
+		pulse.RecordSource(source),
+		pulse.RecordSampleRate(source.SampleRate()),
+		pulse.RecordBufferFragmentSize(2*uint32(demodulator.Blocksize())),
+	)
 	if err != nil {
 		log.Fatal(err)
 	}
-- 
2.43.0


From 57a20fd0b751c5ba249b694586cad82621634769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 39/39] fix: decode pulse: the preset speed is used

---
 cmd/pulse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/pulse.go b/cmd/pulse.go
index c4f3412..155eba4 100644
--- a/cmd/pulse.go
+++ b/cmd/pulse.go
@@ -59,6 +59,7 @@ func runPulse(ctx context.Context, scope scope.Scope, cmd *cobra.Command, args [
 	demodulator.SetScale(pulseFlags.scale)
 	demodulator.SetDebounceThreshold(decodeFlags.debounce)
 	demodulator.SetMagnitudeThreshold(pulseFlags.magnitudeThreshold)
+	demodulator.PresetWPM(pulseFlags.wpm)
 	demodulator.SetScope(scope)
 
 	stream, err := client.NewRecord(
-- 
2.43.0

