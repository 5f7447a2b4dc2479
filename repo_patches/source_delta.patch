From 77f1a5869cc8391e58075e7983b94f529cfa69bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:46 +0000
Subject: [PATCH 01/29] fix: prepare attached envelopes at the host's sample
 rate

---
 include/dsp/hart_dsp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 8608d93..1ec7f93 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -229,6 +229,7 @@ public:
         for (auto& item : m_envelopes)
         {
             const int paramId = item.first;
+            item.second->prepare (sampleRateHz, maxBlockSizeFrames);
             m_envelopeBuffers.emplace (paramId, std::vector<double> (maxBlockSizeFrames));
         }
 
-- 
2.43.0


From cc74d6c417a292ba86ac3be618e4a42d3015abd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:46 +0000
Subject: [PATCH 02/29] fix: restart attached envelopes when their DSP is reset

---
 include/dsp/hart_dsp.hpp        | 11 +++++++++++
 include/hart_process_audio.hpp  |  2 +-
 include/signals/hart_signal.hpp |  2 +-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 1ec7f93..5015ff5 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -251,6 +251,17 @@ public:
         prepare (sampleRateHz, numInputChannels, numOutputChannels, maxBlockSizeFrames);
     }
 
+    /// @brief Resets the effect itself and all the attached envelopes to initial state
+    /// @details This method is intended to be called by DSP hosts like @ref hart::AudioTestBuilder or @ref hart::Signal.
+    /// @attention If you're not making a custom host, you probably don't need to call this method.
+    void resetWithEnvelopes()
+    {
+        for (auto& item : m_envelopes)
+            item.second->reset();
+
+        reset();
+    }
+
     /// @brief Renders all the automation envelopes and processes the audio
     /// @details This method is intended to be called by DSP hosts like @ref hart::AudioTestBuilder @ref hart::Signal.
     /// If you're making something that owns an instance of a Signal and needs it to generate audio,
diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 162b0dc..83b973f 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -352,7 +352,7 @@ public:
         }
 
         // TODO: Ckeck supportsChannelLayout() here
-        m_processor->reset();
+        m_processor->resetWithEnvelopes();
         m_processor->prepareWithEnvelopes (m_sampleRateHz, m_numInputChannels, m_numOutputChannels, m_blockSizeFrames);
 
         for (const ParamValue& paramValue : paramValues)
diff --git a/include/signals/hart_signal.hpp b/include/signals/hart_signal.hpp
index f36a981..33f7b16 100644
--- a/include/signals/hart_signal.hpp
+++ b/include/signals/hart_signal.hpp
@@ -236,7 +236,7 @@ public:
         reset();
 
         for (auto& dsp : dspChain)
-            dsp->reset();
+            dsp->resetWithEnvelopes();
     }
 
     /// @brief Makes a text representation of this signal and its entire signal chain for test failure outputs.
-- 
2.43.0


From d9553e7f6a72f3aafdef2e393fd6ac02e2321017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:46 +0000
Subject: [PATCH 03/29] fix: SegmentedEnvelope::reset() restores the begin
 value of the first segment

---
 include/envelopes/hart_segmentedenvelope.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/envelopes/hart_segmentedenvelope.hpp b/include/envelopes/hart_segmentedenvelope.hpp
index 0e56502..9aed5b1 100644
--- a/include/envelopes/hart_segmentedenvelope.hpp
+++ b/include/envelopes/hart_segmentedenvelope.hpp
@@ -62,6 +62,7 @@ public:
     {
         m_currentTimeSeconds = 0.0;
         m_currentSegmentIndex = 0;
+        m_beginValue = m_resetValue;
         m_currentValue = m_resetValue;
     }
 
-- 
2.43.0


From 26852ac27478b9e1bb81108e0248bbd6d553eb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:46 +0000
Subject: [PATCH 04/29] fix: SegmentedEnvelope without segments holds its start
 value

---
 include/envelopes/hart_segmentedenvelope.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/envelopes/hart_segmentedenvelope.hpp b/include/envelopes/hart_segmentedenvelope.hpp
index 9aed5b1..7d60089 100644
--- a/include/envelopes/hart_segmentedenvelope.hpp
+++ b/include/envelopes/hart_segmentedenvelope.hpp
@@ -188,7 +188,7 @@ private:
             }
         }
 
-        if (m_currentSegmentIndex >= m_segments.size())
+        if (! m_segments.empty() && m_currentSegmentIndex >= m_segments.size())
             m_currentValue = m_segments.back().targetValue;
     }
 };
-- 
2.43.0


From 6f77ced0ddc8fda1542ab9b057e7e9682b05c8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:46 +0000
Subject: [PATCH 05/29] fix: withEnvelope() replaces an envelope already
 attached to the parameter

---
 include/dsp/hart_dsp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 5015ff5..4a4560b 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -202,7 +202,7 @@ public:
         if (! supportsEnvelopeFor(paramId))
             HART_THROW_OR_RETURN (hart::UnsupportedError, std::string ("DSP doesn't support envelopes for param ID: ") + std::to_string (paramId), *this);
 
-        m_envelopes.emplace (paramId, envelope.copy());
+        m_envelopes[paramId] = envelope.copy();
         return *this;
     }
 
-- 
2.43.0


From 62f01be3768f968ad205b2067635aa953d6945c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:46 +0000
Subject: [PATCH 06/29] fix: make withEnvelope() usable with temporary
 envelopes

---
 include/dsp/hart_dsp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 4a4560b..a2def34 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -185,7 +185,7 @@ public:
         if (! supportsEnvelopeFor(paramId))
             HART_THROW_OR_RETURN (hart::UnsupportedError, std::string ("DSP doesn't support envelopes for param ID: ") + std::to_string (paramId), *this);
 
-        m_envelopes.emplace (paramId, hart::make_unique<Envelope> (std::move (envelope)));
+        m_envelopes[paramId] = envelope.copy();
         return *this;
     }
 
-- 
2.43.0


From 6b248b838415afa73ba59ad194f95ec3758b3bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:46 +0000
Subject: [PATCH 07/29] fix: DSP copy assignment replaces previously attached
 envelopes

---
 include/dsp/hart_dsp.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index a2def34..9035527 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -156,6 +156,8 @@ public:
         if (this == &other)
             return *this;
 
+        m_envelopes.clear();
+
         for (auto& pair : other.m_envelopes)
             m_envelopes.emplace (pair.first, pair.second->copy());
 
-- 
2.43.0


From af34761c596638012beef4da50a7bae7d0b5e7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:28 +0000
Subject: [PATCH 08/29] fix: a failed expectation no longer hides the remaining
 checks from the block

---
 include/hart_process_audio.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 83b973f..e26d74b 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -484,6 +484,8 @@ private:
 
     bool processChecks (std::vector<Check>& checksGroup, AudioBuffer<SampleType>& outputBlock)
     {
+        bool allChecksPassed = true;
+
         for (auto& check : checksGroup)
         {
             if (check.shouldSkip)
@@ -533,11 +535,11 @@ private:
                 // TODO: FIXME: Do not throw indife of per-block loop if requested to write input or output to a wav file, throw after the loop instead
                 // TODO: Stop processing if expect has failed and outputting to a file wasn't requested
                 // TODO: Skip all checks if check failed, but asked to output a wav file
-                return false;
+                allChecksPassed = false;
             }
         }
 
-        return true;
+        return allChecksPassed;
     }
 
     void appendFailureDetails (std::stringstream& stream, const MatcherFailureDetails& details, AudioBuffer<SampleType>& observedAudioBlock)
-- 
2.43.0


From 170e0d57e13f12c598db2c26d6dd5c6b9305dfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:28 +0000
Subject: [PATCH 09/29] fix: prepare full-signal matchers for the length of
 audio they receive

---
 include/hart_process_audio.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index e26d74b..2536076 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -346,7 +346,7 @@ public:
 
         for (auto& check : fullSignalChecks)
         {
-            check.matcher->prepare (m_sampleRateHz, m_numOutputChannels, m_blockSizeFrames);
+            check.matcher->prepare (m_sampleRateHz, m_numOutputChannels, m_durationFrames);
             check.matcher->reset();
             check.shouldSkip = false;
         }
-- 
2.43.0


From 9205e15d3708881c9286e00b2391520e29c18522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:28 +0000
Subject: [PATCH 10/29] fix: report correct timestamps for full-signal check
 failures

---
 include/hart_process_audio.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 2536076..fcee320 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -391,6 +391,7 @@ public:
             offsetFrames += blockSizeFrames;
         }
 
+        offsetFrames = 0;  // Full signal starts at the very first frame
         const bool allChecksPassed = processChecks (fullSignalChecks, fullOutputBuffer);
         atLeastOneCheckFailed |= ! allChecksPassed;
 
-- 
2.43.0


From c4cb5313e05e8ed9bfd060fc4d1ee464466c77fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:28 +0000
Subject: [PATCH 11/29] fix: matchers do not accept audio that contains NaNs

---
 include/matchers/hart_equalsto.hpp   | 2 +-
 include/matchers/hart_peaksat.hpp    | 4 ++--
 include/matchers/hart_peaksbelow.hpp | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/matchers/hart_equalsto.hpp b/include/matchers/hart_equalsto.hpp
index e045970..6082dcb 100644
--- a/include/matchers/hart_equalsto.hpp
+++ b/include/matchers/hart_equalsto.hpp
@@ -126,7 +126,7 @@ private:
 
     inline bool notEqual (SampleType x, SampleType y)
     {
-        return std::abs (x - y) > m_toleranceLinear;
+        return x != y && ! (std::abs (x - y) <= m_toleranceLinear);  // NaNs are never equal to anything
     }
 };
 
diff --git a/include/matchers/hart_peaksat.hpp b/include/matchers/hart_peaksat.hpp
index 496e0ee..fd001bc 100644
--- a/include/matchers/hart_peaksat.hpp
+++ b/include/matchers/hart_peaksat.hpp
@@ -47,7 +47,7 @@ public:
             {
                 const SampleType currentPeakLinear = std::abs (observedAudio[channel][frame]);
 
-                if (currentPeakLinear > observedPeakLinear)
+                if (currentPeakLinear > observedPeakLinear || std::isnan (currentPeakLinear))
                 {
                     observedPeakLinear = currentPeakLinear;
                     frameOfObservedPeakLinear = frame;
@@ -56,7 +56,7 @@ public:
             }
         }
 
-        if (std::abs (observedPeakLinear - m_targetLinear) > m_toleranceLinear)
+        if (std::isnan (observedPeakLinear) || std::abs (observedPeakLinear - m_targetLinear) > m_toleranceLinear)
         {
             m_failedFrame = frameOfObservedPeakLinear;
             m_failedChannel = (int) channelOfObservedPeakLinear;
diff --git a/include/matchers/hart_peaksbelow.hpp b/include/matchers/hart_peaksbelow.hpp
index 0e5aa8b..0dbbcd6 100644
--- a/include/matchers/hart_peaksbelow.hpp
+++ b/include/matchers/hart_peaksbelow.hpp
@@ -41,7 +41,7 @@ public:
             {
                 const SampleType observedPeakLinear = std::abs (observedAudio[channel][frame]);
 
-                if (observedPeakLinear > m_thresholdLinear)
+                if (! (observedPeakLinear <= m_thresholdLinear))  // NaNs are never below the threshold
                 {
                     m_failedFrame = frame;
                     m_failedChannel = channel;
-- 
2.43.0


From 43053f5f5acb5eeb17c09cb1cab97737d98e86d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:28 +0000
Subject: [PATCH 12/29] fix: EqualsTo reports the level of negative expected
 samples

---
 include/matchers/hart_equalsto.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/matchers/hart_equalsto.hpp b/include/matchers/hart_equalsto.hpp
index 6082dcb..7689907 100644
--- a/include/matchers/hart_equalsto.hpp
+++ b/include/matchers/hart_equalsto.hpp
@@ -96,7 +96,7 @@ public:
         const SampleType m_differenceLinear = std::abs (m_failedExpectedValue - m_failedObservedValue);
         std::stringstream stream;
         stream << linPrecision << "Expected sample value: " << m_failedExpectedValue
-            << dbPrecision << " (" << ratioToDecibels (m_failedExpectedValue) << " dB)"
+            << dbPrecision << " (" << ratioToDecibels (std::abs (m_failedExpectedValue)) << " dB)"
             << linPrecision << ", difference: " << m_differenceLinear
             << dbPrecision << " (" << ratioToDecibels (m_differenceLinear) << " dB)";
 
-- 
2.43.0


From 657f8c5edd05b48a51bda51dec4cf39955c39311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:28 +0000
Subject: [PATCH 13/29] fix: looped WavFile does not read past the end of the
 wav data

---
 include/signals/hart_wavfile.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/signals/hart_wavfile.hpp b/include/signals/hart_wavfile.hpp
index 1d924f2..c5a6a92 100644
--- a/include/signals/hart_wavfile.hpp
+++ b/include/signals/hart_wavfile.hpp
@@ -107,7 +107,10 @@ public:
             ++m_wavOffsetFrames;
 
             if (m_loop == Loop::yes)
+            {
                 m_wavOffsetFrames %= m_wavFrames->getNumFrames();
+                frameInWavBuffer = m_wavOffsetFrames;
+            }
         }
 
         while (frameInOutputBuffer < numFrames)
-- 
2.43.0


From 9f3ebf36996bf7426f988eb4b2cfa1ddfd3f31dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:28 +0000
Subject: [PATCH 14/29] fix: SineSweep shorter than one frame is silent

---
 include/signals/hart_sine_sweep.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/signals/hart_sine_sweep.hpp b/include/signals/hart_sine_sweep.hpp
index cc2d727..c1dd10d 100644
--- a/include/signals/hart_sine_sweep.hpp
+++ b/include/signals/hart_sine_sweep.hpp
@@ -134,7 +134,7 @@ public:
 
     void renderNextBlock (AudioBuffer<SampleType>& output) override
     {
-        if (m_generateSilence)
+        if (m_generateSilence || m_durationFrames == 0)
         {
             fillWithSilence (output);
             return;
-- 
2.43.0


From 95e3c2150ceaf660e6a4e7ea5bb0635727690f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:28 +0000
Subject: [PATCH 15/29] fix: AudioBuffer::getMagnitude() rejects frame ranges
 that overflow

---
 include/hart_audio_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hart_audio_buffer.hpp b/include/hart_audio_buffer.hpp
index b9fc275..f4467b1 100644
--- a/include/hart_audio_buffer.hpp
+++ b/include/hart_audio_buffer.hpp
@@ -140,7 +140,7 @@ public:
         if (channel >= m_numChannels)
             HART_THROW_OR_RETURN (hart::IndexError, "Invalid channel", (SampleType) 0);
 
-        if (startFrame + numFrames > m_numFrames || numFrames == 0)
+        if (startFrame > m_numFrames || numFrames > m_numFrames - startFrame || numFrames == 0)
             HART_THROW_OR_RETURN (hart::IndexError, "Invalid frame range", (SampleType) 0);
 
         const SampleType* start = m_channelPointers[channel] + startFrame;
@@ -155,7 +155,7 @@ public:
 
     SampleType getMagnitude (size_t startFrame, size_t numFrames) const
     {
-        if (startFrame + numFrames > m_numFrames || numFrames == 0)
+        if (startFrame > m_numFrames || numFrames > m_numFrames - startFrame || numFrames == 0)
                 HART_THROW_OR_RETURN (hart::IndexError, "Invalid frame range", (SampleType) 0);
 
         SampleType peakSampleAcrossAllChannels = (SampleType) 0;
-- 
2.43.0


From 7cc442fdeaf6e344a3865bc6007d38b5feaa0b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:28 +0000
Subject: [PATCH 16/29] fix: AudioBuffer::appendFrom() does not index into an
 empty vector

---
 include/hart_audio_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hart_audio_buffer.hpp b/include/hart_audio_buffer.hpp
index f4467b1..6409585 100644
--- a/include/hart_audio_buffer.hpp
+++ b/include/hart_audio_buffer.hpp
@@ -112,7 +112,7 @@ public:
 
         for (size_t channel = 0; channel < m_numChannels; ++channel)
         {
-            SampleType* newChannelStart = &combinedFrames[channel * (thisNumFrames + otherNumFrames)];
+            SampleType* newChannelStart = combinedFrames.data() + channel * (thisNumFrames + otherNumFrames);
             std::copy (m_channelPointers[channel], m_channelPointers[channel] + thisNumFrames, newChannelStart);
             std::copy (otherBuffer[channel], otherBuffer[channel] + otherNumFrames, newChannelStart + thisNumFrames);
         }
-- 
2.43.0


From 3f81ae3f219d3c7008e7ab0bdb2d496b9b9f8e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:28 +0000
Subject: [PATCH 17/29] fix: host never prepares a DSP with an unsupported
 layout or sample rate

---
 include/hart_process_audio.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index fcee320..3069504 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -351,7 +351,12 @@ public:
             check.shouldSkip = false;
         }
 
-        // TODO: Ckeck supportsChannelLayout() here
+        if (! m_processor->supportsChannelLayout (m_numInputChannels, m_numOutputChannels))
+            HART_THROW_OR_RETURN (hart::ChannelLayoutError, "Channel layout is not supported by the tested DSP", std::move (m_processor));
+
+        if (! m_processor->supportsSampleRate (m_sampleRateHz))
+            HART_THROW_OR_RETURN (hart::SampleRateError, "Sample rate is not supported by the tested DSP", std::move (m_processor));
+
         m_processor->resetWithEnvelopes();
         m_processor->prepareWithEnvelopes (m_sampleRateHz, m_numInputChannels, m_numOutputChannels, m_blockSizeFrames);
 
-- 
2.43.0


From be66b62ee0b8947d22830c62991f4ab2d9be6234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:28 +0000
Subject: [PATCH 18/29] fix: Signal is never prepared with unsupported channels
 or sample rate

---
 include/signals/hart_signal.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/signals/hart_signal.hpp b/include/signals/hart_signal.hpp
index 33f7b16..790d820 100644
--- a/include/signals/hart_signal.hpp
+++ b/include/signals/hart_signal.hpp
@@ -197,6 +197,12 @@ public:
     /// @attention If you're not making a custom host, you probably don't need to call this method.
     void prepareWithDSPChain (double sampleRateHz, size_t numOutputChannels, size_t maxBlockSizeFrames)
     {
+        if (! supportsNumChannels (numOutputChannels))
+            HART_THROW_OR_RETURN_VOID (ChannelLayoutError, "Signal does not support this number of channels");
+
+        if (! supportsSampleRate (sampleRateHz))
+            HART_THROW_OR_RETURN_VOID (hart::SampleRateError, "Signal does not support this sample rate");
+
         prepare (sampleRateHz, numOutputChannels, maxBlockSizeFrames);
         const size_t numInputChannels = numOutputChannels;
 
-- 
2.43.0


From 36a24c59e3e7d5b9e187238f228ae9f7e31ef015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:28 +0000
Subject: [PATCH 19/29] fix: WavFile can fill fewer channels than the wav file
 has, as documented

---
 include/signals/hart_wavfile.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/signals/hart_wavfile.hpp b/include/signals/hart_wavfile.hpp
index c5a6a92..a063af3 100644
--- a/include/signals/hart_wavfile.hpp
+++ b/include/signals/hart_wavfile.hpp
@@ -82,7 +82,7 @@ public:
     void prepare (double sampleRateHz, size_t numOutputChannels, size_t /*maxBlockSizeFrames*/) override
     {
         // There are a few ovbvious cases where channel number mismatch can be gracefully resolved - perhaps in the future
-        if (numOutputChannels != m_wavNumChannels)
+        if (numOutputChannels > m_wavNumChannels)
             HART_THROW_OR_RETURN_VOID (hart::ChannelLayoutError, std::string ("Unexpected channel number"));
 
         if (floatsNotEqual (sampleRateHz, m_wavSampleRateHz))
@@ -99,7 +99,7 @@ public:
 
         while (m_wavOffsetFrames < m_wavFrames->getNumFrames() && frameInOutputBuffer < numFrames)
         {
-            for (size_t channel = 0; channel < m_wavNumChannels; ++channel)
+            for (size_t channel = 0; channel < output.getNumChannels(); ++channel)
                 output[channel][frameInOutputBuffer] = (*m_wavFrames)[channel][frameInWavBuffer];
 
             ++frameInOutputBuffer;
@@ -117,7 +117,7 @@ public:
         {
             hassert (m_loop == Loop::no);
 
-            for (size_t channel = 0; channel < m_wavNumChannels; ++channel)
+            for (size_t channel = 0; channel < output.getNumChannels(); ++channel)
                 output[channel][frameInOutputBuffer] = (SampleType) 0;
 
             ++frameInOutputBuffer;
-- 
2.43.0


From 91cccd58f9325f72a860a4c48a596bfc073f43cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:28 +0000
Subject: [PATCH 20/29] fix: SineWave does not hang on large negative phases

---
 include/signals/hart_sinewave.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/signals/hart_sinewave.hpp b/include/signals/hart_sinewave.hpp
index 6c13f28..688b4ff 100644
--- a/include/signals/hart_sinewave.hpp
+++ b/include/signals/hart_sinewave.hpp
@@ -75,8 +75,8 @@ private:
 
     void clampPhase()
     {
-        while (m_phaseRadians < 0)
-            m_phaseRadians += hart::twoPi;
+        if (m_phaseRadians < 0)
+            m_phaseRadians = wrapPhase (m_phaseRadians);
 
         if (m_phaseRadians > hart::twoPi)
             m_phaseRadians = std::fmod (m_phaseRadians, hart::twoPi);
-- 
2.43.0


From ed17ca59d124bb4bb633a3b1681ed817551eccd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:28 +0000
Subject: [PATCH 21/29] fix: plot every channel from the beginning of the time
 axis

---
 include/hart_plot.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/hart_plot.hpp b/include/hart_plot.hpp
index 49bd379..ad7faeb 100644
--- a/include/hart_plot.hpp
+++ b/include/hart_plot.hpp
@@ -44,11 +44,10 @@ void plotData (const AudioBuffer<SampleType>& input, const AudioBuffer<SampleTyp
         outputSignalPlot.x.major (t);
     }
 
-    double timeSeconds = 0.0;
-
     for (size_t channel = 0; channel < input.getNumChannels(); ++channel)
     {
         auto &inputSignalLine = inputSignalPlot.line();
+        double timeSeconds = 0.0;
 
         for (size_t frame = 0; frame < input.getNumFrames(); ++frame)
         {
@@ -57,11 +56,10 @@ void plotData (const AudioBuffer<SampleType>& input, const AudioBuffer<SampleTyp
         }
     }
 
-    timeSeconds = 0.0;
-
     for (size_t channel = 0; channel < output.getNumChannels(); ++channel)
     {
         auto &outputSignalLine = outputSignalPlot.line();
+        double timeSeconds = 0.0;
 
         for (size_t frame = 0; frame < output.getNumFrames(); ++frame)
         {
-- 
2.43.0


From d87a27dfa12fbae8578422324f31af9fcaf6a7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:28 +0000
Subject: [PATCH 22/29] fix: an exception in one test case does not abort the
 whole run

---
 include/hart_test_registry.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/hart_test_registry.hpp b/include/hart_test_registry.hpp
index ab34844..fbb816c 100644
--- a/include/hart_test_registry.hpp
+++ b/include/hart_test_registry.hpp
@@ -136,6 +136,11 @@ private:
             assertionFailMessage = e.what();
             assertionFailed = true;
         }
+        catch (const std::exception& e)
+        {
+            assertionFailMessage = e.what();
+            assertionFailed = true;
+        }
 
         // TODO: Output test durations
 
-- 
2.43.0


From b1f0290900d9fec4c24fc973944579a3b2104d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:28 +0000
Subject: [PATCH 23/29] fix: reject NaN sample rates and durations

---
 include/hart_process_audio.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 3069504..0a70aef 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -78,7 +78,7 @@ public:
     /// @param sampleRateHz Sample rate in Hz. You can use frequency-related literails from @ref Units.
     AudioTestBuilder& withSampleRate (double sampleRateHz)
     {
-        if (sampleRateHz <= 0)
+        if (! (sampleRateHz > 0))
             HART_THROW_OR_RETURN (hart::ValueError, "Sample rate should be a positive value in Hz", *this);
 
         if (! m_processor->supportsSampleRate (sampleRateHz))
@@ -114,7 +114,7 @@ public:
     /// @param Duration of the signal in seconds. You can use time-related literails from @ref Units.
     AudioTestBuilder& withDuration (double durationSeconds)
     {
-        if (durationSeconds < 0)
+        if (! (durationSeconds >= 0))
             HART_THROW_OR_RETURN(hart::ValueError, "Signal duration should be a non-negative value in Hz", *this);
 
         m_durationSeconds = durationSeconds;
-- 
2.43.0


From 271bb1b8d4ce745b3a69ef5e52f6cdd59ff43f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:19 +0000
Subject: [PATCH 24/29] fix: roundToSizeT() returns the nearest whole number
 for values just below 0.5 and large odd ones

---
 include/hart_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hart_utils.hpp b/include/hart_utils.hpp
index 47bbe9d..263a96d 100644
--- a/include/hart_utils.hpp
+++ b/include/hart_utils.hpp
@@ -81,7 +81,7 @@ inline static SampleType floatsNotEqual (SampleType a, SampleType b, SampleType
 template <typename SampleType>
 inline static size_t roundToSizeT (SampleType x)
 {
-    return static_cast<size_t> (x + (SampleType) 0.5);
+    return static_cast<size_t> (std::round (x));
 }
 
 /// @brief Keeps phase in 0..twoPi range
-- 
2.43.0


From b0f7c4cfdca4ace297a18bda4464654e110e3aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:20 +0000
Subject: [PATCH 25/29] fix: checks accept constant matchers

---
 include/hart_process_audio.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 0a70aef..5c6959e 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -454,13 +454,14 @@ private:
 
     void addCheck (const Matcher<SampleType>& matcher, SignalAssertionLevel signalAssertionLevel, bool shouldPass)
     {
+        auto ownMatcher = matcher.copy();
         const bool forceFullSignal = ! shouldPass;  // No per-block checks for inverted matchers
         auto& checksGroup =
-            (matcher.canOperatePerBlock() && ! forceFullSignal)
+            (ownMatcher->canOperatePerBlock() && ! forceFullSignal)
                 ? perBlockChecks
                 : fullSignalChecks;
         checksGroup.emplace_back (AudioTestBuilder::Check {
-            matcher.copy(),
+            std::move (ownMatcher),
             signalAssertionLevel,
             false,  // shouldSkip
             shouldPass
@@ -475,13 +476,14 @@ private:
             std::is_base_of<Matcher<SampleType>, DecayedType>::value,
             "MatcherType must be a hart::Matcher subclass"
             );
+        auto ownMatcher = hart::make_unique<DecayedType> (std::forward<MatcherType> (matcher));
         const bool forceFullSignal = ! shouldPass;  // No per-block checks for inverted matchers
         auto& checksGroup =
-            (matcher.canOperatePerBlock() && ! forceFullSignal)
+            (ownMatcher->canOperatePerBlock() && ! forceFullSignal)
                 ? perBlockChecks
                 : fullSignalChecks;
         checksGroup.emplace_back (AudioTestBuilder::Check {
-            hart::make_unique<DecayedType> (std::forward<MatcherType> (matcher)),
+            std::move (ownMatcher),
             signalAssertionLevel,
             false,  // shouldSkip
             shouldPass
-- 
2.43.0


From 5620938b28e3aaa99235e518790a24f1677f5dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:45 +0000
Subject: [PATCH 26/29] fix: totals of a run count that run only

---
 include/hart_test_registry.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/hart_test_registry.hpp b/include/hart_test_registry.hpp
index fbb816c..067c410 100644
--- a/include/hart_test_registry.hpp
+++ b/include/hart_test_registry.hpp
@@ -81,6 +81,9 @@ public:
             return 0;
         }
 
+        tasksPassed = 0;
+        tasksFailed = 0;
+
         if (CLIConfig::getInstance().shouldShuffleTasks())
             shuffleTasks (tasks);
 
-- 
2.43.0


From cc0bb464e814728016926c8c36db890bb8fec74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:07 +0000
Subject: [PATCH 27/29] fix: description of a linear sine sweep has no stray
 separator

---
 include/signals/hart_sine_sweep.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/signals/hart_sine_sweep.hpp b/include/signals/hart_sine_sweep.hpp
index c1dd10d..1f60f90 100644
--- a/include/signals/hart_sine_sweep.hpp
+++ b/include/signals/hart_sine_sweep.hpp
@@ -189,7 +189,7 @@ public:
             << hzPrecision
             << m_startFrequencyHz << "_Hz, "
             << m_endFrequencyHz << "_Hz, "
-            << (m_type == SweepType::linear ? ", SweepType::linear" : "SweepType::log")
+            << (m_type == SweepType::linear ? "SweepType::linear" : "SweepType::log")
             << (m_loop == Loop::yes ? ", Loop::yes)" : ", Loop::no)");
     }
 
-- 
2.43.0


From b5c0a8d3ad6ee4e4def3628a40815762bfc06377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:07 +0000
Subject: [PATCH 28/29] fix: description of PeaksBelow shows its tolerance

---
 include/matchers/hart_peaksbelow.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/matchers/hart_peaksbelow.hpp b/include/matchers/hart_peaksbelow.hpp
index 0dbbcd6..962d08d 100644
--- a/include/matchers/hart_peaksbelow.hpp
+++ b/include/matchers/hart_peaksbelow.hpp
@@ -27,6 +27,7 @@ public:
     /// @param toleranceLinear Absolute tolerance for comparing frames, in linear domain (not decibels)
     PeaksBelow (double thresholdDb, double toleranceLinear = 1e-3):
         m_thresholdDb ((SampleType) thresholdDb),
+        m_toleranceLinear ((SampleType) toleranceLinear),
         m_thresholdLinear (static_cast<SampleType> (decibelsToRatio (thresholdDb) + toleranceLinear))
     {
     }
@@ -78,13 +79,14 @@ public:
     {
         stream << "PeaksBelow ("
             << dbPrecision << m_thresholdDb << "_dB, "
-            << linPrecision << m_thresholdLinear << ')';
+            << linPrecision << m_toleranceLinear << ')';
     }
 
     HART_MATCHER_DEFINE_COPY_AND_MOVE (PeaksBelow);
 
 private:
     const SampleType m_thresholdDb;
+    const SampleType m_toleranceLinear;
     const SampleType m_thresholdLinear;
 
     size_t m_failedFrame = 0;
-- 
2.43.0


From 28b092f40424246bbeb627978a8a5e65b64b21a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:07 +0000
Subject: [PATCH 29/29] fix: description of GainLinear uses the decimals of
 linear values

---
 include/dsp/hart_gainlinear.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/hart_gainlinear.hpp b/include/dsp/hart_gainlinear.hpp
index 5b70120..c44becc 100644
--- a/include/dsp/hart_gainlinear.hpp
+++ b/include/dsp/hart_gainlinear.hpp
@@ -96,7 +96,7 @@ public:
 
     virtual void represent (std::ostream& stream) const override
     {
-        stream << dbPrecision << "GainLinear (" << m_initialGainLinear << ")";
+        stream << linPrecision << "GainLinear (" << m_initialGainLinear << ")";
     }
 
     /// @param id Only @ref GainLinear::gainLinear is accepted
-- 
2.43.0

