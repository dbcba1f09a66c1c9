From 22826ed40323d45778e9ad7f844453eddb90ac31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:06 +0000
Subject: [PATCH 01/24] fix: midi event queue holds its lock from sorting to
 reading

GetEventsInRange and GetAllEvents released the lock between sorting and
searching, so a concurrent Add could leave the slice unsorted before the
binary search and events outside the range were returned.
---
 pkg/midi/queue.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/pkg/midi/queue.go b/pkg/midi/queue.go
index 44b1bcb..4b41065 100644
--- a/pkg/midi/queue.go
+++ b/pkg/midi/queue.go
@@ -39,15 +39,11 @@ func (q *EventQueue) AddMultiple(events []Event) {
 }
 
 func (q *EventQueue) GetEventsInRange(startSample, endSample int32) []Event {
-	q.mu.RLock()
-	defer q.mu.RUnlock()
+	q.mu.Lock()
+	defer q.mu.Unlock()
 
 	if !q.sorted {
-		q.mu.RUnlock()
-		q.mu.Lock()
 		q.sortEvents()
-		q.mu.Unlock()
-		q.mu.RLock()
 	}
 
 	if len(q.events) == 0 {
@@ -80,15 +76,11 @@ func (q *EventQueue) GetEventsInRange(startSample, endSample int32) []Event {
 }
 
 func (q *EventQueue) GetAllEvents() []Event {
-	q.mu.RLock()
-	defer q.mu.RUnlock()
+	q.mu.Lock()
+	defer q.mu.Unlock()
 
 	if !q.sorted {
-		q.mu.RUnlock()
-		q.mu.Lock()
 		q.sortEvents()
-		q.mu.Unlock()
-		q.mu.RLock()
 	}
 
 	result := make([]Event, len(q.events))
-- 
2.43.0


From 35d64f1e902d9e8be5e36395e1d9c750f47e8185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:06 +0000
Subject: [PATCH 02/24] fix: midi event queue re-sorts after OffsetEvents

Offsets wrap around at the int32 limits (and events of other types are not
moved), so the queue could stay marked as sorted while it was not and range
queries missed events.
---
 pkg/midi/queue.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/midi/queue.go b/pkg/midi/queue.go
index 4b41065..0d1bd12 100644
--- a/pkg/midi/queue.go
+++ b/pkg/midi/queue.go
@@ -176,6 +176,9 @@ func (q *EventQueue) OffsetEvents(offset int32) {
 			q.events[i] = e
 		}
 	}
+
+	// Offsets wrap around at the int32 limits, so the order may have changed
+	q.sorted = false
 }
 
 type EventProcessor interface {
-- 
2.43.0


From 391a39840fd2a37a2e83c3b0a68d0aa42b2f79d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 03/24] fix: parameter values stay normalized for NaN

SetValue stored NaN unchanged (every comparison with NaN is false) and
Normalize returned it, so a NaN from a host, a state file or a parsed text
reached the processing code instead of a value in [0, 1].
---
 pkg/framework/param/parameter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/param/parameter.go b/pkg/framework/param/parameter.go
index 8922c92..3b5fbb6 100644
--- a/pkg/framework/param/parameter.go
+++ b/pkg/framework/param/parameter.go
@@ -3,6 +3,7 @@ package param
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 	"sync/atomic"
 	"unsafe"
@@ -49,7 +50,7 @@ func (p *Parameter) GetValue() float64 {
 // SetValue sets the normalized value (0-1)
 func (p *Parameter) SetValue(value float64) {
 	// Clamp to 0-1
-	if value < 0 {
+	if value < 0 || math.IsNaN(value) {
 		value = 0
 	} else if value > 1 {
 		value = 1
@@ -120,7 +121,7 @@ func (p *Parameter) Normalize(plain float64) float64 {
 		return 0
 	}
 	normalized := (plain - p.Min) / (p.Max - p.Min)
-	if normalized < 0 {
+	if normalized < 0 || math.IsNaN(normalized) {
 		return 0
 	}
 	if normalized > 1 {
-- 
2.43.0


From b22e66b1e3891e408238baa9eda816a1f1564032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:02 +0000
Subject: [PATCH 04/24] fix: default value of a built parameter is normalized

A default outside the range (for example an attack default above a small
maximum) was stored as a normalized default outside [0, 1].
---
 pkg/framework/param/builder.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/framework/param/builder.go b/pkg/framework/param/builder.go
index 46f16e0..2bae6ae 100644
--- a/pkg/framework/param/builder.go
+++ b/pkg/framework/param/builder.go
@@ -37,8 +37,7 @@ func (b *Builder) Range(minVal, maxVal float64) *Builder {
 func (b *Builder) Default(value float64) *Builder {
 	// Convert to normalized
 	if b.param.Max > b.param.Min {
-		normalized := (value - b.param.Min) / (b.param.Max - b.param.Min)
-		b.param.DefaultValue = normalized
+		b.param.DefaultValue = b.param.Normalize(value)
 	}
 	return b
 }
-- 
2.43.0


From 4433ac5f4ccf267f525334deaf6a1a78917fee5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:23 +0000
Subject: [PATCH 05/24] fix: a refused RegisterWithID leaves the parameter's ID
 alone

---
 pkg/framework/param/registry_auto.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/framework/param/registry_auto.go b/pkg/framework/param/registry_auto.go
index 5a9a8a4..cb70ca6 100644
--- a/pkg/framework/param/registry_auto.go
+++ b/pkg/framework/param/registry_auto.go
@@ -67,14 +67,14 @@ func (r *AutoRegistry) RegisterWithID(id uint32, param *Parameter) error {
 	r.mu.Lock()
 	defer r.mu.Unlock()
 	
-	// Force the ID
-	param.ID = id
-	
 	// Check for conflicts
 	if existing, exists := r.params[id]; exists {
 		return fmt.Errorf("parameter ID %d already used by '%s'", id, existing.Name)
 	}
 	
+	// Force the ID
+	param.ID = id
+	
 	// Update next ID if necessary
 	if id >= r.nextID.Load() {
 		r.nextID.Store(id + 1)
-- 
2.43.0


From 235763026c028d71af9c80e3506060b1921f336a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:41 +0000
Subject: [PATCH 06/24] fix: a smoother set to its current value stops
 smoothing

---
 pkg/framework/param/smoother.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/param/smoother.go b/pkg/framework/param/smoother.go
index a903d0b..b34096c 100644
--- a/pkg/framework/param/smoother.go
+++ b/pkg/framework/param/smoother.go
@@ -105,7 +105,7 @@ func (s *Smoother) Next() float64 {
 		s.current += s.step
 		
 		// Check if we've reached or passed the target
-		if (s.step > 0 && s.current >= s.target) || (s.step < 0 && s.current <= s.target) {
+		if (s.step >= 0 && s.current >= s.target) || (s.step <= 0 && s.current <= s.target) {
 			s.current = s.target
 			s.isSmoothing = false
 		}
@@ -115,7 +115,7 @@ func (s *Smoother) Next() float64 {
 		s.logCurrent += s.logStep
 		
 		// Check if we've reached the target
-		if (s.logStep > 0 && s.logCurrent >= s.logTarget) || (s.logStep < 0 && s.logCurrent <= s.logTarget) {
+		if (s.logStep >= 0 && s.logCurrent >= s.logTarget) || (s.logStep <= 0 && s.logCurrent <= s.logTarget) {
 			s.current = s.target
 			s.isSmoothing = false
 		} else {
-- 
2.43.0


From 8d941632742db435b068228e5759466ff4559532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:41 +0000
Subject: [PATCH 07/24] fix: summing buffers of different lengths stays within
 both

---
 pkg/dsp/mix/mix.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/mix/mix.go b/pkg/dsp/mix/mix.go
index 8f7c0eb..a55e160 100644
--- a/pkg/dsp/mix/mix.go
+++ b/pkg/dsp/mix/mix.go
@@ -108,7 +108,7 @@ func Sum(buffers [][]float32, dst []float32) {
 	// Sum all buffers
 	for _, buffer := range buffers {
 		bufLen := len(buffer)
-		if bufLen < length {
+		if bufLen > length {
 			bufLen = length
 		}
 		
@@ -139,7 +139,7 @@ func SumWeighted(buffers [][]float32, gains []float32, dst []float32) {
 		}
 		
 		bufLen := len(buffer)
-		if bufLen < length {
+		if bufLen > length {
 			bufLen = length
 		}
 		
-- 
2.43.0


From b369a7e37b16915378591c417630439258ecd65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:04 +0000
Subject: [PATCH 08/24] fix: parameter changes at one sample offset keep their
 order when sorted

---
 pkg/framework/process/context.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/framework/process/context.go b/pkg/framework/process/context.go
index 2671989..66bab16 100644
--- a/pkg/framework/process/context.go
+++ b/pkg/framework/process/context.go
@@ -245,10 +245,11 @@ func (c *Context) ResetParameterChanges() {
 }
 
 // SortParameterChanges sorts parameter changes by sample offset for processing
+// Changes at the same offset keep the order in which they were added.
 func (c *Context) SortParameterChanges() {
 	if c.changeCount > 1 {
 		// Sort only the active portion of the slice
-		sort.Slice(c.paramChanges[:c.changeCount], func(i, j int) bool {
+		sort.SliceStable(c.paramChanges[:c.changeCount], func(i, j int) bool {
 			return c.paramChanges[i].SampleOffset < c.paramChanges[j].SampleOffset
 		})
 	}
-- 
2.43.0


From 65d7f0ccfe764e3e72519e4bbc69fd026759c6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:19 +0000
Subject: [PATCH 09/24] fix: a voice reused after it ended by itself no longer
 belongs to its former note

---
 pkg/framework/voice/allocator.go | 36 +++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/pkg/framework/voice/allocator.go b/pkg/framework/voice/allocator.go
index 07871fa..dd0ba41 100644
--- a/pkg/framework/voice/allocator.go
+++ b/pkg/framework/voice/allocator.go
@@ -232,6 +232,9 @@ func (a *Allocator) noteOnPoly(note uint8, velocity uint8) {
 			// Couldn't steal a voice
 			return
 		}
+	} else {
+		// The voice ended by itself: its last note may still be listed
+		a.forgetVoice(voiceIdx)
 	}
 
 	// Allocate the voice
@@ -371,21 +374,26 @@ func (a *Allocator) stealVoice() int {
 
 	if bestIdx != -1 {
 		// Remove the stolen voice from noteToVoice map
-		stolenNote := a.voices[bestIdx].GetNote()
-		if voices, exists := a.noteToVoice[stolenNote]; exists {
-			for i, idx := range voices {
-				if idx == bestIdx {
-					// Remove this index from the slice
-					a.noteToVoice[stolenNote] = append(voices[:i], voices[i+1:]...)
-					if len(a.noteToVoice[stolenNote]) == 0 {
-						delete(a.noteToVoice, stolenNote)
-					}
-					break
-				}
-			}
-		}
+		a.forgetVoice(bestIdx)
 		a.voices[bestIdx].Stop()
 	}
 
 	return bestIdx
-}
\ No newline at end of file
+}
+
+// forgetVoice removes a voice from the list of the note it was playing
+func (a *Allocator) forgetVoice(voiceIdx int) {
+	note := a.voices[voiceIdx].GetNote()
+	if voices, exists := a.noteToVoice[note]; exists {
+		for i, idx := range voices {
+			if idx == voiceIdx {
+				// Remove this index from the slice
+				a.noteToVoice[note] = append(voices[:i], voices[i+1:]...)
+				if len(a.noteToVoice[note]) == 0 {
+					delete(a.noteToVoice, note)
+				}
+				break
+			}
+		}
+	}
+}
-- 
2.43.0


From 324a4dde9d79d1205471c9e08717c176d3651457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:19 +0000
Subject: [PATCH 10/24] fix: a key pressed again is not released with the
 sustain pedal

---
 pkg/framework/voice/allocator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/framework/voice/allocator.go b/pkg/framework/voice/allocator.go
index dd0ba41..6bb5524 100644
--- a/pkg/framework/voice/allocator.go
+++ b/pkg/framework/voice/allocator.go
@@ -145,6 +145,9 @@ func (a *Allocator) ProcessEvent(event midi.Event) {
 
 // NoteOn handles a note on event
 func (a *Allocator) NoteOn(note uint8, velocity uint8) {
+	// The key is down again: the pedal alone no longer holds the note
+	delete(a.sustainedNotes, note)
+
 	switch a.mode {
 	case ModePoly:
 		a.noteOnPoly(note, velocity)
-- 
2.43.0


From 121652824093d2c6edb74c13a5a2427c93ecef38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:19 +0000
Subject: [PATCH 11/24] fix: a legato transition from note 0 does not retrigger

---
 pkg/framework/voice/allocator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/framework/voice/allocator.go b/pkg/framework/voice/allocator.go
index 6bb5524..e4d045e 100644
--- a/pkg/framework/voice/allocator.go
+++ b/pkg/framework/voice/allocator.go
@@ -272,7 +272,7 @@ func (a *Allocator) noteOnMono(note uint8, velocity uint8) {
 
 // noteOnLegato handles legato mode note on
 func (a *Allocator) noteOnLegato(note uint8, velocity uint8) {
-	if a.currentNote == 0 {
+	if len(a.noteToVoice) == 0 {
 		// First note, trigger normally
 		a.noteOnMono(note, velocity)
 	} else {
-- 
2.43.0


From 7a02a914691f1cf46110e53e5e179d63969d4b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 12/24] fix: keep delay line reads within the buffer for any
 requested delay

A delay longer than the line, negative, NaN, or one whose read position
rounds up to the buffer size indexed outside the buffer and panicked.
---
 pkg/dsp/delay/delay.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/dsp/delay/delay.go b/pkg/dsp/delay/delay.go
index 5824f83..2c1c2b2 100644
--- a/pkg/dsp/delay/delay.go
+++ b/pkg/dsp/delay/delay.go
@@ -41,10 +41,21 @@ func (d *Line) Write(sample float32) {
 
 // Read gets a delayed sample (delay in samples)
 func (d *Line) Read(delaySamples float64) float32 {
+	// Keep the delay within the line
+	if !(delaySamples >= 0) {
+		delaySamples = 0
+	} else if delaySamples > float64(d.bufferSize) {
+		delaySamples = float64(d.bufferSize)
+	}
+
 	// Calculate read position
 	readPos := float64(d.writePos) - delaySamples
 	if readPos < 0 {
 		readPos += float64(d.bufferSize)
+		if readPos >= float64(d.bufferSize) {
+			// Rounded up to the end of the buffer
+			readPos = 0
+		}
 	}
 
 	// Linear interpolation
-- 
2.43.0


From 364432314cf06c944bfcc3e50b5926206ea2f025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:12 +0000
Subject: [PATCH 13/24] fix: RMS envelope detector no longer turns NaN when its
 running sum rounds below zero

---
 pkg/dsp/envelope/detector.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/dsp/envelope/detector.go b/pkg/dsp/envelope/detector.go
index 3d62dcf..be8f58d 100644
--- a/pkg/dsp/envelope/detector.go
+++ b/pkg/dsp/envelope/detector.go
@@ -177,7 +177,10 @@ func (d *Detector) Detect(input float32) float32 {
 
 		// Calculate RMS
 		meanSquare := d.rmsSum / float64(d.rmsWindowLen)
-		inputLevel = math.Sqrt(meanSquare)
+		if meanSquare > 0 {
+			// The running sum may end up just below zero by rounding
+			inputLevel = math.Sqrt(meanSquare)
+		}
 	}
 
 	// Apply envelope detection based on type
-- 
2.43.0


From 661c29d8ed0ddf65ce48e770941b263ba0ffc423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:40 +0000
Subject: [PATCH 14/24] fix: lowering the sustain level during the decay no
 longer leaves the envelope at the old level

---
 pkg/dsp/envelope/envelope.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/dsp/envelope/envelope.go b/pkg/dsp/envelope/envelope.go
index 1541dfd..438a0f3 100644
--- a/pkg/dsp/envelope/envelope.go
+++ b/pkg/dsp/envelope/envelope.go
@@ -148,6 +148,7 @@ func (e *ADSR) Next() float32 {
 		}
 
 	case StageDecay:
+		e.target = e.sustain // the level may have been changed since the attack
 		e.value = e.target + (e.value-e.target)*e.decayCoef
 		if e.value <= e.sustain+0.001 {
 			e.value = e.sustain
-- 
2.43.0


From 411c81cc62fd74bf22bd1432a7a3d9d31756c0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:03 +0000
Subject: [PATCH 15/24] fix: soft knees of compressor and expander no longer
 boost, and the expander's knee respects the range

---
 pkg/dsp/dynamics/compressor.go | 2 +-
 pkg/dsp/dynamics/expander.go   | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/dsp/dynamics/compressor.go b/pkg/dsp/dynamics/compressor.go
index 8597208..b166aeb 100644
--- a/pkg/dsp/dynamics/compressor.go
+++ b/pkg/dsp/dynamics/compressor.go
@@ -141,7 +141,7 @@ func (c *Compressor) computeGain(inputDB float64) float64 {
 		// At kneePos=0: no compression
 		// At kneePos=1: full compression at this level
 		compressionRatio := 1.0 - 1.0/c.ratio
-		overshoot := inputDB - c.threshold
+		overshoot := math.Max(0.0, inputDB-c.threshold) // never boost below the threshold
 
 		// Smooth transition using squared interpolation
 		kneeGain := kneePos * kneePos * overshoot * compressionRatio
diff --git a/pkg/dsp/dynamics/expander.go b/pkg/dsp/dynamics/expander.go
index 119d0f6..e70432f 100644
--- a/pkg/dsp/dynamics/expander.go
+++ b/pkg/dsp/dynamics/expander.go
@@ -134,11 +134,11 @@ func (e *Expander) computeGain(inputDB float64) float64 {
 		// 0 = top of knee (threshold + knee/2), 1 = bottom of knee
 		kneePos := ((e.threshold + e.knee/2) - inputDB) / e.knee
 
-		// Calculate full expansion at this level
-		fullGain := (inputDB - e.threshold) * (e.ratio - 1.0)
+		// Calculate full expansion at this level (never boost above the threshold)
+		fullGain := math.Min(0.0, inputDB-e.threshold) * (e.ratio - 1.0)
 
-		// Quadratic interpolation
-		return kneePos * kneePos * fullGain
+		// Quadratic interpolation, limited to range
+		return math.Max(e.range_, kneePos*kneePos*fullGain)
 	}
 
 	return 0.0
-- 
2.43.0


From 27f5608f7653363feba182b0b5eea57ea7e64ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:03 +0000
Subject: [PATCH 16/24] fix: limiter output no longer passes the ceiling while
 its envelope is rising

---
 pkg/dsp/dynamics/limiter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/dsp/dynamics/limiter.go b/pkg/dsp/dynamics/limiter.go
index e93ed4a..ed9d1a8 100644
--- a/pkg/dsp/dynamics/limiter.go
+++ b/pkg/dsp/dynamics/limiter.go
@@ -146,6 +146,9 @@ func (l *Limiter) Process(input float32) float32 {
 	// Get envelope
 	envelope := l.detector.Detect(detectionSignal)
 
+	// The ceiling holds for the signal itself, even while the envelope is rising
+	envelope = float32(math.Max(float64(envelope), math.Abs(float64(processSignal))))
+
 	// Convert to dB
 	inputDB := float64(-96.0)
 	if envelope > 0 {
@@ -201,6 +204,9 @@ func (l *Limiter) ProcessStereo(inputL, inputR, outputL, outputR []float32) {
 		// Detect from combined peak
 		envelope := l.detector.Detect(maxPeak)
 
+		// The ceiling holds for the signal itself, even while the envelope is rising
+		envelope = float32(math.Max(float64(envelope), math.Max(math.Abs(float64(processL)), math.Abs(float64(processR)))))
+
 		// Calculate limiting
 		inputDB := float64(-96.0)
 		if envelope > 0 {
-- 
2.43.0


From 999ee06b38dbd97badb3fba794e8bb1f2904546b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 17/24] fix: LinearToDb never goes below MinDB, the value it
 gives for silence

---
 pkg/dsp/gain/gain.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/gain/gain.go b/pkg/dsp/gain/gain.go
index 88b074c..bdeb495 100644
--- a/pkg/dsp/gain/gain.go
+++ b/pkg/dsp/gain/gain.go
@@ -20,7 +20,7 @@ func LinearToDb(linear float64) float64 {
 	if linear <= 0 {
 		return MinDB
 	}
-	return 20.0 * math.Log10(linear)
+	return math.Max(MinDB, 20.0*math.Log10(linear))
 }
 
 // DbToLinear converts a decibel value to linear amplitude.
@@ -37,7 +37,7 @@ func LinearToDb32(linear float32) float32 {
 	if linear <= 0 {
 		return MinDB
 	}
-	return 20.0 * float32(math.Log10(float64(linear)))
+	return float32(math.Max(MinDB, 20.0*math.Log10(float64(linear))))
 }
 
 // DbToLinear32 is the float32 version of DbToLinear.
-- 
2.43.0


From b038301c4a0641b3aaeb1130dcab5743cd9884e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 18/24] fix: bit crusher holds samples per channel, so the left
 channel no longer leaks into the right

---
 pkg/dsp/distortion/bitcrusher.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pkg/dsp/distortion/bitcrusher.go b/pkg/dsp/distortion/bitcrusher.go
index 140f56c..81423be 100644
--- a/pkg/dsp/distortion/bitcrusher.go
+++ b/pkg/dsp/distortion/bitcrusher.go
@@ -25,8 +25,8 @@ type Bitcrusher struct {
 	originalSampleRate float64
 
 	// Sample rate reduction state
-	sampleHoldCounter float64
-	lastSample        float64
+	sampleHoldCounter [2]float64 // Stereo
+	lastSample        [2]float64
 
 	// Anti-aliasing filter state (simple one-pole)
 	filterState [2]float64 // Stereo
@@ -84,7 +84,7 @@ func (b *Bitcrusher) processChannel(input float64, channel int) float64 {
 	}
 
 	// Sample rate reduction
-	processed = b.applySampleRateReduction(processed)
+	processed = b.applySampleRateReduction(processed, channel)
 
 	// Bit depth reduction
 	processed = b.applyBitReduction(processed)
@@ -129,25 +129,25 @@ func (b *Bitcrusher) applyBitReduction(x float64) float64 {
 	return math.Max(-1.0, math.Min(1.0, quantized))
 }
 
-func (b *Bitcrusher) applySampleRateReduction(x float64) float64 {
+func (b *Bitcrusher) applySampleRateReduction(x float64, channel int) float64 {
 	if b.sampleRateReduce <= 1.0 {
 		return x
 	}
 
 	// Check if we should update the held sample
-	if b.sampleHoldCounter == 0.0 {
-		b.lastSample = x
+	if b.sampleHoldCounter[channel] == 0.0 {
+		b.lastSample[channel] = x
 	}
 
 	// Increment counter
-	b.sampleHoldCounter += 1.0
+	b.sampleHoldCounter[channel] += 1.0
 
 	// Reset counter when we reach the reduction factor
-	if b.sampleHoldCounter >= b.sampleRateReduce {
-		b.sampleHoldCounter = 0.0
+	if b.sampleHoldCounter[channel] >= b.sampleRateReduce {
+		b.sampleHoldCounter[channel] = 0.0
 	}
 
-	return b.lastSample
+	return b.lastSample[channel]
 }
 
 func (b *Bitcrusher) applyAntiAliasFilter(x float64, channel int) float64 {
@@ -183,8 +183,8 @@ func (b *Bitcrusher) generateDither() float64 {
 }
 
 func (b *Bitcrusher) Reset() {
-	b.sampleHoldCounter = 0.0
-	b.lastSample = 0.0
+	b.sampleHoldCounter = [2]float64{}
+	b.lastSample = [2]float64{}
 	b.filterState[0] = 0.0
 	b.filterState[1] = 0.0
 	b.ditherState = 0.0
-- 
2.43.0


From 2bf971eee4a7bde8d9c5cc17ddbf79a1d18271af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:25 +0000
Subject: [PATCH 19/24] fix: foldback ends for every input and threshold
 instead of folding forever

---
 pkg/dsp/distortion/bitcrusher.go | 24 ++++++++++++++++++------
 pkg/dsp/distortion/waveshaper.go | 10 +---------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/pkg/dsp/distortion/bitcrusher.go b/pkg/dsp/distortion/bitcrusher.go
index 81423be..4c7d8f2 100644
--- a/pkg/dsp/distortion/bitcrusher.go
+++ b/pkg/dsp/distortion/bitcrusher.go
@@ -216,12 +216,24 @@ func QuantizeToSteps(x float64, steps int) float64 {
 
 func FoldbackDistortion(x float64, threshold float64) float64 {
 	// Similar to waveshaper foldback but specific to bit-crushing context
-	for x > threshold || x < -threshold {
-		if x > threshold {
-			x = 2*threshold - x
-		} else if x < -threshold {
-			x = -2*threshold - x
-		}
+	if threshold <= 0 {
+		return 0.0
+	}
+
+	// The fold repeats every four thresholds
+	if x > threshold || x < -threshold {
+		x = math.Mod(x, 4*threshold)
+	}
+
+	// At most one fold on each side remains
+	if x < -threshold {
+		x = -2*threshold - x
+	}
+	if x > threshold {
+		x = 2*threshold - x
+	}
+	if x < -threshold {
+		x = -2*threshold - x
 	}
 	return x
 }
diff --git a/pkg/dsp/distortion/waveshaper.go b/pkg/dsp/distortion/waveshaper.go
index 836515b..c9cfe38 100644
--- a/pkg/dsp/distortion/waveshaper.go
+++ b/pkg/dsp/distortion/waveshaper.go
@@ -114,15 +114,7 @@ func (w *Waveshaper) saturate(x float64) float64 {
 
 func (w *Waveshaper) foldback(x float64) float64 {
 	// Foldback distortion - wraps signal back when it exceeds threshold
-	threshold := 1.0
-	for x > threshold || x < -threshold {
-		if x > threshold {
-			x = 2*threshold - x
-		} else if x < -threshold {
-			x = -2*threshold - x
-		}
-	}
-	return x
+	return FoldbackDistortion(x, 1.0)
 }
 
 func (w *Waveshaper) asymmetric(x float64) float64 {
-- 
2.43.0


From 40daee2a4addc15819a4836af09d04459a6b89e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:25 +0000
Subject: [PATCH 20/24] fix: bit crusher anti-alias filter stays stable for
 reduction factors below two

---
 pkg/dsp/distortion/bitcrusher.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/dsp/distortion/bitcrusher.go b/pkg/dsp/distortion/bitcrusher.go
index 4c7d8f2..0ac3333 100644
--- a/pkg/dsp/distortion/bitcrusher.go
+++ b/pkg/dsp/distortion/bitcrusher.go
@@ -156,8 +156,9 @@ func (b *Bitcrusher) applyAntiAliasFilter(x float64, channel int) float64 {
 	newSampleRate := b.originalSampleRate / b.sampleRateReduce
 	cutoffFreq := newSampleRate * 0.45 // Just below Nyquist
 
-	// Calculate filter coefficient
-	omega := 2.0 * math.Pi * cutoffFreq / b.originalSampleRate
+	// Calculate filter coefficient; beyond a quarter of the sample rate the
+	// filter is fully open (the formula would make it unstable)
+	omega := math.Min(2.0*math.Pi*cutoffFreq/b.originalSampleRate, math.Pi/2.0)
 	alpha := math.Sin(omega) / (math.Sin(omega) + math.Cos(omega))
 
 	// Apply filter
-- 
2.43.0


From 55e9e5cc20ec81db03f8f9988b81339d0366581c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:25 +0000
Subject: [PATCH 21/24] fix: tube saturation keeps its state per channel, so
 the left channel no longer leaks into the right

---
 pkg/dsp/distortion/tube.go | 54 ++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/pkg/dsp/distortion/tube.go b/pkg/dsp/distortion/tube.go
index 192fd7a..0b566b4 100644
--- a/pkg/dsp/distortion/tube.go
+++ b/pkg/dsp/distortion/tube.go
@@ -13,12 +13,12 @@ type TubeSaturation struct {
 	output     float64
 
 	// Internal state for hysteresis
-	prevInput  float64
-	prevOutput float64
+	prevInput  [2]float64 // Stereo
+	prevOutput [2]float64
 
 	// Pre-emphasis/de-emphasis filters for warmth
-	preEmphasisState float64
-	deEmphasisState  float64
+	preEmphasisState [2]float64 // Stereo
+	deEmphasisState  [2]float64
 }
 
 func NewTubeSaturation() *TubeSaturation {
@@ -57,20 +57,24 @@ func (t *TubeSaturation) SetOutput(output float64) {
 }
 
 func (t *TubeSaturation) Process(input float64) float64 {
+	return t.processChannel(input, 0)
+}
+
+func (t *TubeSaturation) processChannel(input float64, channel int) float64 {
 	// Pre-emphasis for warmth (boost highs before saturation)
-	emphasized := t.preEmphasis(input)
+	emphasized := t.preEmphasis(input, channel)
 
 	// Apply tube bias
 	biased := emphasized + t.bias*0.1
 
 	// Apply hysteresis (magnetic-like behavior)
-	withHysteresis := t.applyHysteresis(biased)
+	withHysteresis := t.applyHysteresis(biased, channel)
 
 	// Tube saturation with harmonic generation
 	saturated := t.tubeSaturate(withHysteresis)
 
 	// De-emphasis (reduce highs after saturation for warmth)
-	deEmphasized := t.deEmphasis(saturated)
+	deEmphasized := t.deEmphasis(saturated, channel)
 
 	// Mix with dry signal
 	mixed := deEmphasized*t.mix + input*(1.0-t.mix)
@@ -86,8 +90,8 @@ func (t *TubeSaturation) ProcessBlock(input, output []float64) {
 
 func (t *TubeSaturation) ProcessStereo(inputL, inputR, outputL, outputR []float64) {
 	for i := range inputL {
-		outputL[i] = t.Process(inputL[i])
-		outputR[i] = t.Process(inputR[i])
+		outputL[i] = t.processChannel(inputL[i], 0)
+		outputR[i] = t.processChannel(inputR[i], 1)
 	}
 }
 
@@ -148,47 +152,47 @@ func (t *TubeSaturation) tubeCompressionCurve(x float64) float64 {
 	return math.Copysign(compressed, x)
 }
 
-func (t *TubeSaturation) applyHysteresis(x float64) float64 {
+func (t *TubeSaturation) applyHysteresis(x float64, channel int) float64 {
 	// Simple hysteresis model
-	diff := x - t.prevInput
+	diff := x - t.prevInput[channel]
 
 	// Hysteresis effect based on input change direction
 	if diff > 0 {
 		// Rising input
-		t.prevOutput = t.prevOutput + (x-t.prevOutput)*(1.0-t.hysteresis*0.3)
+		t.prevOutput[channel] = t.prevOutput[channel] + (x-t.prevOutput[channel])*(1.0-t.hysteresis*0.3)
 	} else {
 		// Falling input
-		t.prevOutput = t.prevOutput + (x-t.prevOutput)*(1.0-t.hysteresis*0.5)
+		t.prevOutput[channel] = t.prevOutput[channel] + (x-t.prevOutput[channel])*(1.0-t.hysteresis*0.5)
 	}
 
-	t.prevInput = x
-	return t.prevOutput
+	t.prevInput[channel] = x
+	return t.prevOutput[channel]
 }
 
-func (t *TubeSaturation) preEmphasis(x float64) float64 {
+func (t *TubeSaturation) preEmphasis(x float64, channel int) float64 {
 	// Simple high-frequency boost before saturation
 	// First-order high-pass filter
 	cutoff := 0.1 + t.warmth*0.4 // Higher warmth = higher cutoff = more pre-emphasis
 
-	output := x - t.preEmphasisState
-	t.preEmphasisState += output * cutoff
+	output := x - t.preEmphasisState[channel]
+	t.preEmphasisState[channel] += output * cutoff
 
 	// Mix between filtered and original based on warmth
 	return x + output*t.warmth*0.5
 }
 
-func (t *TubeSaturation) deEmphasis(x float64) float64 {
+func (t *TubeSaturation) deEmphasis(x float64, channel int) float64 {
 	// Simple high-frequency cut after saturation
 	// First-order low-pass filter
 	cutoff := 0.9 - t.warmth*0.6 // Higher warmth = lower cutoff = more de-emphasis
 
-	t.deEmphasisState += (x - t.deEmphasisState) * cutoff
-	return t.deEmphasisState
+	t.deEmphasisState[channel] += (x - t.deEmphasisState[channel]) * cutoff
+	return t.deEmphasisState[channel]
 }
 
 func (t *TubeSaturation) Reset() {
-	t.prevInput = 0.0
-	t.prevOutput = 0.0
-	t.preEmphasisState = 0.0
-	t.deEmphasisState = 0.0
+	t.prevInput = [2]float64{}
+	t.prevOutput = [2]float64{}
+	t.preEmphasisState = [2]float64{}
+	t.deEmphasisState = [2]float64{}
 }
-- 
2.43.0


From 62c487b13da8a50b1b4c26877e27f61718be4295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 22/24] fix: oscillator phase wraps for negative frequencies
 too, keeping every waveform within range

---
 pkg/dsp/oscillator/oscillator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dsp/oscillator/oscillator.go b/pkg/dsp/oscillator/oscillator.go
index 99ee311..2cd47b8 100644
--- a/pkg/dsp/oscillator/oscillator.go
+++ b/pkg/dsp/oscillator/oscillator.go
@@ -40,7 +40,7 @@ func (o *Oscillator) Reset() {
 // updatePhase advances the phase and wraps it
 func (o *Oscillator) updatePhase() {
 	o.phase += o.phaseInc
-	if o.phase >= 1.0 {
+	if o.phase >= 1.0 || o.phase < 0.0 {
 		o.phase -= math.Floor(o.phase)
 	}
 }
-- 
2.43.0


From 3fca2265527caeb9ada26082325d9ff55fd651c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:27 +0000
Subject: [PATCH 23/24] fix: re-enabling parameter smoothing starts from the
 current value instead of a stale one

---
 pkg/framework/param/smoother.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/framework/param/smoother.go b/pkg/framework/param/smoother.go
index b34096c..ce31070 100644
--- a/pkg/framework/param/smoother.go
+++ b/pkg/framework/param/smoother.go
@@ -198,10 +198,12 @@ func (sp *SmoothedParameter) GetSmoothedValue() float64 {
 
 // SetSmoothing enables or disables smoothing.
 func (sp *SmoothedParameter) SetSmoothing(enabled bool) {
-	sp.enabled = enabled
-	if !enabled {
+	// The value is not tracked while smoothing is disabled, so start over from
+	// the current one when it is switched either way
+	if !enabled || !sp.enabled {
 		sp.smoother.Reset(sp.GetPlainValue())
 	}
+	sp.enabled = enabled
 }
 
 // SetSmoothingRate updates the smoothing rate.
-- 
2.43.0


From 9f8eb61f171dc6b8a93dcdc54a98cf235638e60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:45 +0000
Subject: [PATCH 24/24] fix: reserving parameter ids takes the registry lock,
 so concurrent registration cannot hand them out again

---
 pkg/framework/param/registry_auto.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/framework/param/registry_auto.go b/pkg/framework/param/registry_auto.go
index cb70ca6..3391efa 100644
--- a/pkg/framework/param/registry_auto.go
+++ b/pkg/framework/param/registry_auto.go
@@ -123,6 +123,9 @@ func (r *AutoRegistry) Clear() {
 
 // Reserve reserves a range of IDs for manual assignment
 func (r *AutoRegistry) Reserve(count uint32) uint32 {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+
 	return r.nextID.Add(count) - count
 }
 
-- 
2.43.0

