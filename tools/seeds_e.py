SS = 'include/signals/hart_sine_sweep.hpp'
SEEDS = [
dict(id='s12a', property='P12', needs='a looping sweep that has turned around at least once and is then reset', breaks='reset forgets the direction: after a turn-around the restarted sweep runs backwards',
     edits=[(SS, '''        m_generateSilence = floatsEqual (m_durationSeconds, 0.0);
        m_reverseFrequencyDirection = false;
''', '''        m_generateSilence = floatsEqual (m_durationSeconds, 0.0);
        m_reverseFrequencyDirection = m_loop == Loop::yes && m_reverseFrequencyDirection;
''')],
     demo='''int main() {
  SineSweep<double> s (4 / 44100.0, 1000.0, 9000.0, SineSweep<double>::SweepType::linear, SineSweep<double>::Loop::yes);
  s.prepareWithDSPChain (44100.0, 1, 6); AudioBuffer<double> a (1, 6), b (1, 6);
  s.renderNextBlock (a); s.reset(); s.renderNextBlock (b);
  for (int i = 0; i < 6; ++i) REQUIRE (a[0][i] == b[0][i]);
}
'''),
dict(id='s12b', property='P12', needs='a one-shot sweep whose last frame is the last frame of a block', breaks='the end is noticed only when a frame of the same block follows: the sweep starts over in the next block',
     edits=[(SS, '''                    // Stop generating the sine
                    fillWithSilence (output, frame + 1);
                    m_posFrames = 0;
                    m_generateSilence = true;
                    break;
''', '''                    // Stop generating the sine
                    fillWithSilence (output, frame + 1);
                    m_posFrames = 0;
                    m_generateSilence = frame + 1 < output.getNumFrames() || output.getNumFrames() == m_durationFrames;
                    break;
''')],
     demo='''int main() {
  SineSweep<double> s (4 / 44100.0, 1000.0, 9000.0);
  s.prepareWithDSPChain (44100.0, 1, 2); AudioBuffer<double> a (1, 2);
  s.renderNextBlock (a); s.renderNextBlock (a); s.renderNextBlock (a);
  REQUIRE (a[0][0] == 0 && a[0][1] == 0);
}
'''),
dict(id='s12c', property='P12', needs='a downward logarithmic sweep on its way back', breaks='the reversed logarithmic law is the reciprocal instead of the mirrored one for sweeps going down',
     edits=[(SS, '''        portion = reverseFrequencyDirection ? 1.0 - portion : portion;
''', '''        if (reverseFrequencyDirection && m_type == SweepType::log && m_frequencyRatio < 1.0)
            return m_endFrequencyHz * std::pow (m_frequencyRatio, portion);

        portion = reverseFrequencyDirection ? 1.0 - portion : portion;
''')],
     demo='''int main() {
  SineSweep<double> s (4 / 44100.0, 8000.0, 1000.0, SineSweep<double>::SweepType::log, SineSweep<double>::Loop::yes);
  s.prepareWithDSPChain (44100.0, 1, 8); AudioBuffer<double> a (1, 8);
  s.renderNextBlock (a);
  double ph = 0;
  for (int i = 0; i < 8; ++i) {
    if (i > 0) { double x = (i % 4) / 4.0; if (i >= 4) x = 1 - x; ph += 2 * 3.14159265358979323846 * 8000.0 * std::pow (1.0 / 8, x) / 44100.0; }
    REQUIRE (std::abs (a[0][i] - std::sin (ph)) < 1e-9);
  }
}
'''),
dict(id='s12d', property='P12', needs='a duration that is not a whole number of frames', breaks='the duration in frames is rounded up',
     edits=[(SS, 'm_durationFrames = roundToSizeT (m_durationSeconds * m_sampleRateHz);', 'm_durationFrames = static_cast<size_t> (std::ceil (m_durationSeconds * m_sampleRateHz - 1e-6));')],
     demo='''int main() {
  SineSweep<double> s (4.3 / 44100.0, 8000.0, 1000.0);
  s.prepareWithDSPChain (44100.0, 1, 8); AudioBuffer<double> a (1, 8);
  s.renderNextBlock (a);
  REQUIRE (a[0][3] != 0 && a[0][4] == 0);
}
'''),

]
SE = 'include/envelopes/hart_segmentedenvelope.hpp'
SEEDS += [
dict(id='s10a', property='P10', needs='a jump (a ramp of no duration) followed by a hold', breaks='a hold after a jump holds the value from before the jump',
     edits=[(SE, '        m_endValue = targetValue;\n', '        m_endValue = durationSeconds > 0 ? targetValue : m_endValue;\n')],
     demo="""int main() {
  SegmentedEnvelope x (1.0);
  x.rampTo (2.0, 0.0).hold (0.010);
  Envelope& e = x; e.prepare (1000.0, 8);
  std::vector<double> v = e.renderNextBlock (4);
  REQUIRE (v[0] == 2.0); REQUIRE (v[3] == 2.0);
}
"""),
dict(id='s10b', property='P10', needs='a reset while the envelope is still in its first segment', breaks='reset keeps the time already spent in the first segment',
     edits=[(SE, '        m_currentTimeSeconds = 0.0;\n        m_currentSegmentIndex = 0;\n', '        if (m_currentSegmentIndex != 0 || m_segments.empty())\n            m_currentTimeSeconds = 0.0;\n\n        m_currentSegmentIndex = 0;\n')],
     demo="""int main() {
  SegmentedEnvelope x (0.0);
  x.rampTo (1.0, 0.010);
  Envelope& e = x; e.prepare (1000.0, 8);
  std::vector<double> a = e.renderNextBlock (4); e.reset(); std::vector<double> b = e.renderNextBlock (4);
  REQUIRE (a == b);
}
"""),
dict(id='s10c', property='P10', needs='an exponential ramp that changes the value by less than a percent', breaks='exponential ramps with a ratio close to one stay flat',
     edits=[(SE, 'std::abs (ratio - 1.0) < 1e-9', 'std::abs (ratio - 1.0) < 1e-3')],
     demo="""int main() {
  SegmentedEnvelope x (1000.0);
  x.rampTo (1000.5, 0.010, SegmentedEnvelope::Shape::exponential);
  Envelope& e = x; e.prepare (1000.0, 8);
  std::vector<double> a = e.renderNextBlock (8);
  REQUIRE (std::abs (a[4] - 1000.0 * std::pow (1.0005, 0.5)) < 1e-6);
}
"""),
dict(id='s10d', property='P10', needs='several segments of zero or very short duration inside one frame', breaks='at most two segments are passed per frame: later ones fall behind',
     edits=[(SE, '        // TODO: Less nesting here\n', '        size_t numPassed = 0;\n\n'), (SE, 'while (m_currentSegmentIndex < m_segments.size())', 'while (m_currentSegmentIndex < m_segments.size() && numPassed <= 2)'), (SE, '                ++m_currentSegmentIndex;\n', '                ++m_currentSegmentIndex;\n                ++numPassed;\n')],
     demo="""int main() {
  SegmentedEnvelope x (0.0);
  x.rampTo (1.0, 0.0).rampTo (2.0, 0.0).rampTo (3.0, 0.0).rampTo (4.0, 0.0).hold (1.0);
  Envelope& e = x; e.prepare (1000.0, 8);
  std::vector<double> a = e.renderNextBlock (2);
  REQUIRE (a[0] == 4.0);
}
"""),
]

SW = 'include/signals/hart_sinewave.hpp'
WF = 'include/signals/hart_wavfile.hpp'
UT = 'include/hart_utils.hpp'
SEEDS += [
dict(id='s11a', property='P11', needs='a start phase above pi and a reset', breaks='a reset restores the start phase only up to a sign',
     edits=[(SW, 'm_phaseRadians = m_initialPhaseRadians;', 'm_phaseRadians = std::fmod (m_initialPhaseRadians, hart::pi);')],
     demo="""int main() {
  SineWave<float> s (1000.0, 4.0);
  s.prepareWithDSPChain (44100.0, 1, 2); AudioBuffer<float> a (1, 2), b (1, 2);
  s.renderNextBlock (a); s.reset(); s.renderNextBlock (b);
  REQUIRE (a[0][0] == b[0][0] && a[0][1] == b[0][1]);
}
"""),
dict(id='s13b', property='P13', needs='a file with three or more channels', breaks='the third and later channels are taken from the first two',
     edits=[(WF, '(*m_wavFrames)[channel][frameInWavBuffer];', '(*m_wavFrames)[channel % 2][frameInWavBuffer];')],
     demo='#include <unistd.h>\n' + """
#include <fstream>
#include <cstdint>
#include <cstring>
static void put (std::string& s, uint32_t v, int n) { for (int i = 0; i < n; ++i) s += (char) ((v >> (8 * i)) & 255); }
int main() {
  std::string s = "RIFF"; put (s, 36 + 12, 4); s += "WAVEfmt "; put (s, 16, 4); put (s, 3, 2); put (s, 3, 2); put (s, 44100, 4); put (s, 44100 * 12, 4); put (s, 12, 2); put (s, 32, 2);
  s += "data"; put (s, 12, 4);
  for (float x : { 0.25f, 0.5f, 0.75f }) { uint32_t u; std::memcpy (&u, &x, 4); put (s, u, 4); }
  { std::ofstream o ("x.wav", std::ios::binary); o << s; }
  char cwd[4096]; REQUIRE (getcwd (cwd, sizeof cwd) != nullptr);
  WavFile<float> w (std::string (cwd) + "/x.wav");
  w.prepareWithDSPChain (44100.0, 3, 1);
  AudioBuffer<float> b (3, 1);
  w.renderNextBlock (b);
  REQUIRE (b[0][0] == 0.25f && b[1][0] == 0.5f && b[2][0] == 0.75f);
}
"""),
dict(id='s16b', property='P16', needs='exactly -120 dB', breaks='-120 dB itself is treated as silence',
     edits=[(UT, 'if (valueDb < -120)', 'if (valueDb <= -120)')],
     demo="""int main() { REQUIRE (decibelsToRatio (-120.0) > 0.9e-6); REQUIRE (decibelsToRatio (-120.0f) > 0.9e-6f); }
"""),
]

WW = 'include/hart_wavwriter.hpp'
READ = '''
#include <fstream>
#include <cstdint>
#include <iterator>
static std::string slurp() { std::ifstream i ("x.wav", std::ios::binary); return std::string ((std::istreambuf_iterator<char> (i)), std::istreambuf_iterator<char>()); }
static long long stored (const std::string& s, size_t k, int w) {
  size_t at = s.find ("data") + 8 + k * w; long long v = 0;
  for (int j = 0; j < w; ++j) v |= (long long) (unsigned char) s.at (at + j) << (8 * j);
  if (v >> (8 * w - 1)) v -= 1LL << (8 * w);
  return v; }
'''
SEEDS += [
dict(id='s14a', property='P14', needs='a 24 bit file and a negative sample exactly on a rounding edge', breaks='rounding is not symmetric: negative ties go towards zero',
     edits=[(WW, '                        const int32_t pcmValue = static_cast<int32_t> (std::round (hart::clamp (scale * sample, -scale, scale)));\n                        size_t idx', '                        const int32_t pcmValue = static_cast<int32_t> (std::floor (hart::clamp (scale * sample, -scale, scale) + 0.5));\n                        size_t idx')],
     demo=READ + """int main() {
  AudioBuffer<double> b (1, 1); b[0][0] = -2.5 / 8388607.0; if (b[0][0] * 8388607.0 != -2.5) b[0][0] = -0.5 / 8388607.0;
  const long long want = (long long) std::round (b[0][0] * 8388607.0);
  WavWriter<double>::writeBuffer (b, "x.wav", 44100.0, WavFormat::pcm24);
  REQUIRE (stored (slurp(), 0, 3) == want);
}
"""),
dict(id='s14b', property='P14', needs='a 16 bit file and a sample below negative full scale', breaks='negative overloads wrap around instead of saturating',
     edits=[(WW, 'const int16_t pcmValue = static_cast<int16_t> (std::round (hart::clamp (scale * sample, -scale, scale)));', 'const int16_t pcmValue = static_cast<int16_t> (static_cast<int32_t> (std::round (hart::clamp (scale * sample, -2.0 * scale, scale))));')],
     demo=READ + """int main() {
  AudioBuffer<float> b (1, 2); b[0][0] = -1.5f; b[0][1] = -1.0f;
  WavWriter<float>::writeBuffer (b, "x.wav", 44100.0, WavFormat::pcm16);
  std::string s = slurp();
  REQUIRE (stored (s, 0, 2) == -32767 && stored (s, 1, 2) == -32767);
}
"""),
dict(id='s14c', property='P14', needs='a buffer with more than 255 channels', breaks='the channel count in the file is cut to a byte',
     edits=[(WW, 'static_cast<drwav_uint16> (numChannels)', 'static_cast<drwav_uint8> (numChannels)')],
     demo=READ + """int main() {
  AudioBuffer<float> b (300, 2);
  WavWriter<float>::writeBuffer (b, "x.wav", 44100.0, WavFormat::float32);
  std::string s = slurp();
  REQUIRE ((unsigned char) s.at (22) + 256 * (unsigned char) s.at (23) == 300);
}
"""),
dict(id='s14d', property='P14', needs='a 32 bit file and double samples that a float cannot hold', breaks='samples lose precision on the way into 32 bit files',
     edits=[(WW, '                        const double sample = static_cast<double> (buffer[channel][frame]);\n                        const int32_t pcmValue = static_cast<int32_t> (std::round (hart::clamp (scale * sample, -scale, scale)));\n                        pcmData', '                        const float sample = static_cast<float> (buffer[channel][frame]);\n                        const int32_t pcmValue = static_cast<int32_t> (std::round (hart::clamp (scale * sample, -scale, scale)));\n                        pcmData')],
     demo=READ + """int main() {
  AudioBuffer<double> b (1, 1); b[0][0] = 0.7123456789;
  WavWriter<double>::writeBuffer (b, "x.wav", 44100.0, WavFormat::pcm32);
  REQUIRE (stored (slurp(), 0, 4) == (long long) std::round (0.7123456789 * 2147483647.0));
}
"""),
]

PL = 'include/hart_plot.hpp'
SVG = '''
#include <fstream>
#include <iterator>
static std::string plot (AudioBuffer<float>& a, AudioBuffer<float>& b, double rate) { plotData (a, b, rate, "x.svg"); std::ifstream i ("x.svg"); return std::string ((std::istreambuf_iterator<char> (i)), std::istreambuf_iterator<char>()); }
static size_t count (const std::string& s, const std::string& w) { size_t n = 0; for (size_t i = 0; (i = s.find (w, i)) != std::string::npos; ++i) ++n; return n; }
static std::string path (const std::string& s, size_t k) { size_t i = 0; for (;;) { i = s.find ("svg-plot-line", i); i = s.find (" d=\\"", i) + 4; if (k-- == 0) break; } return s.substr (i, s.find ('"', i) - i); }
'''
SEEDS += [
dict(id='s20a', property='P20', needs='an output with two or more channels', breaks='the second and later output lines start where the previous one ended in time',
     edits=[(PL, '    for (size_t channel = 0; channel < output.getNumChannels(); ++channel)\n    {\n        auto &outputSignalLine = outputSignalPlot.line();\n        double timeSeconds = 0.0;\n', '    double timeSeconds = 0.0;\n\n    for (size_t channel = 0; channel < output.getNumChannels(); ++channel)\n    {\n        auto &outputSignalLine = outputSignalPlot.line();\n')],
     demo=SVG + """int main() {
  AudioBuffer<float> a (1, 3), b (2, 3); for (int c = 0; c < 2; ++c) for (int f = 0; f < 3; ++f) { a[0][f] = f == 1 ? 1.0f : 0.0f; b[c][f] = f == 1 ? 1.0f : 0.0f; }
  std::string s = plot (a, b, 1000.0);
  REQUIRE (path (s, 1) == path (s, 2) && path (s, 1).compare (0, 4, "M 0 ") == 0);
}
"""),
dict(id='s20b', property='P20', needs='an output whose peak is in a channel other than the first', breaks='only the peak of the first output channel is marked',
     edits=[(PL, 'output.getMagnitude (0, output.getNumFrames())', 'output.getMagnitude (0, 0, output.getNumFrames())')],
     demo=SVG + """int main() {
  AudioBuffer<float> a (1, 3), b (2, 3); for (int f = 0; f < 3; ++f) { a[0][f] = 0.75f; b[0][f] = f == 1 ? 0.25f : -0.25f; b[1][f] = f == 1 ? 0.5f : 0.0f; }
  std::string s = plot (a, b, 1000.0);
  REQUIRE (s.find (">-0.5<") != std::string::npos);
}
"""),
dict(id='s20c', property='P20', needs='more input channels than output channels', breaks='input channels beyond the number of output channels are not drawn',
     edits=[(PL, 'for (size_t channel = 0; channel < input.getNumChannels(); ++channel)', 'for (size_t channel = 0; channel < std::min (input.getNumChannels(), output.getNumChannels()); ++channel)')],
     demo=SVG + """int main() {
  AudioBuffer<float> a (2, 3), b (1, 3); a[0][0] = a[1][1] = b[0][1] = 1.0f;
  std::string s = plot (a, b, 1000.0);
  REQUIRE (count (s, "class=\\"svg-plot-line") == 3);
}
"""),
dict(id='s20d', property='P20', needs='an output with a repeated sample value followed by a different one', breaks='frames that repeat the previous value are left out, so steps are drawn as ramps',
     edits=[(PL, '            outputSignalLine.add (timeSeconds, output[channel][frame]);\n', '            if (frame == 0 || frame + 1 == output.getNumFrames() || output[channel][frame] != output[channel][frame - 1])\n                outputSignalLine.add (timeSeconds, output[channel][frame]);\n\n')],
     demo=SVG + """int main() {
  AudioBuffer<float> a (1, 5), b (1, 5); for (int f = 0; f < 5; ++f) a[0][f] = b[0][f] = f < 3 ? -1.0f : 1.0f;
  std::string s = plot (a, b, 1000.0);
  REQUIRE (path (s, 0) == path (s, 1));
}
"""),
]

DS = 'include/dsp/hart_dsp.hpp'
PROBE = '''
struct Curve : public Envelope {
  int id; double rate = 0; size_t pos = 0;
  Curve (int id) : id (id) {}
  void renderNextBlock (size_t n, std::vector<double>& v) override { for (size_t i = 0; i < n; ++i) v[i] = id * 1000.0 + (double) (pos + i) + rate; pos += n; }
  void prepare (double r, size_t) override { rate = r; }
  void reset() override { pos = 0; }
  std::unique_ptr<Envelope> copy() const override { return hart::make_unique<Curve> (*this); }
};
struct Probe : public DSP<float> {
  template <typename T> using DSP = hart::DSP<T>; using SampleType = float;
  EnvelopeBuffers seen;
  void prepare (double, size_t, size_t, size_t) override {}
  void process (const AudioBuffer<float>&, AudioBuffer<float>&, const EnvelopeBuffers& e) override { seen = e; }
  void reset() override {}
  void setValue (int, double) override {}
  double getValue (int) const override { return 0; }
  bool supportsChannelLayout (size_t, size_t) const override { return true; }
  void represent (std::ostream&) const override {}
  bool supportsEnvelopeFor (int id) const override { return id < 4; }
  std::unique_ptr<hart::DSP<float>> copy() const override { return hart::make_unique<Probe> (*this); }
  std::unique_ptr<hart::DSP<float>> move() override { return hart::make_unique<Probe> (std::move (*this)); }
  void run (size_t n) { AudioBuffer<float> a (1, n), b (1, n); processWithEnvelopes (a, b); }
};
'''
SEEDS += [
dict(id='s09a', property='P09', needs='an effect that was prepared once, then assigned from one with as many envelopes but for other parameters, and prepared again', breaks='the value buffers of the previous parameters stay around and the second preparation fails',
     edits=[(DS, '        m_envelopeBuffers.clear();  // TODO: Remove only unused buffers\n', '        if (m_envelopeBuffers.size() != m_envelopes.size())\n            m_envelopeBuffers.clear();\n')],
     demo=PROBE + """int main() {
  Probe a, b; a.withEnvelope (0, Curve (1)); b.withEnvelope (1, Curve (2));
  a.prepareWithEnvelopes (8000, 1, 1, 4); a = b;
  try { a.prepareWithEnvelopes (8000, 1, 1, 4); a.run (4); } catch (const std::exception&) { return 1; }
  REQUIRE (a.seen.size() == 1 && a.seen.count (1) == 1);
}
"""),
dict(id='s09b', property='P09', needs='move assignment to an effect that has an envelope the moved one lacks', breaks='move assignment adds the envelopes to the previous ones instead of replacing them',
     edits=[(DS, '        if (this != &other)\n            m_envelopes = std::move (other.m_envelopes);\n', '        if (this != &other)\n        {\n            for (auto& pair : other.m_envelopes)\n                m_envelopes[pair.first] = std::move (pair.second);\n\n            other.m_envelopes.clear();\n        }\n')],
     demo=PROBE + """int main() {
  Probe a, b; a.withEnvelope (0, Curve (1)); b.withEnvelope (1, Curve (2)); a = std::move (b);
  REQUIRE (a.hasEnvelopeFor (1) && ! a.hasEnvelopeFor (0));
}
"""),
dict(id='s09c', property='P09', needs='an effect without input channels (a generator) in the middle of a stream', breaks='blocks without an input channel do not advance the envelopes',
     edits=[(DS, '            // Render envelope values\n            getValues', '            // Render envelope values\n            if (input.getNumChannels() > 0)\n                getValues')],
     demo=PROBE + """int main() {
  Probe a; a.withEnvelope (0, Curve (1)); a.prepareWithEnvelopes (0, 0, 1, 2);
  AudioBuffer<float> i (0, 2), o (1, 2); a.processWithEnvelopes (i, o); a.processWithEnvelopes (i, o);
  REQUIRE (a.seen[0][0] == 1002.0);
}
"""),
dict(id='s09d', property='P09', needs='an effect prepared a second time, for another sample rate and the same block size', breaks='envelopes that already have a value buffer of the right size are not prepared for the new sample rate',
     edits=[(DS, '        m_envelopeBuffers.clear();  // TODO: Remove only unused buffers\n', '        EnvelopeBuffers previousBuffers = std::move (m_envelopeBuffers);\n        m_envelopeBuffers.clear();\n'),
            (DS, '            item.second->prepare (sampleRateHz, maxBlockSizeFrames);\n            m_envelopeBuffers', '            const auto previous = previousBuffers.find (paramId);\n\n            if (previous == previousBuffers.end() || previous->second.size() != maxBlockSizeFrames)\n                item.second->prepare (sampleRateHz, maxBlockSizeFrames);\n\n            m_envelopeBuffers')],
     demo=PROBE + """int main() {
  Probe a; a.withEnvelope (0, Curve (1));
  a.prepareWithEnvelopes (8000, 1, 1, 2); a.run (2); a.prepareWithEnvelopes (44100, 1, 1, 2); a.resetWithEnvelopes(); a.run (2);
  REQUIRE (a.seen[0][0] == 1000.0 + 44100.0);
}
"""),
]

SG = 'include/signals/hart_signal.hpp'
DELAY = '''
#include <cmath>
// one frame of delay; supports one sample rate only if asked to
struct Delay : public DSP<float> {
  template <typename T> using DSP = hart::DSP<T>; using SampleType = float;
  float last = 0; double only = 0;
  void prepare (double, size_t, size_t, size_t) override {}
  void process (const AudioBuffer<float>& i, AudioBuffer<float>& o, const EnvelopeBuffers&) override { for (size_t f = 0; f < o.getNumFrames(); ++f) { float x = i[0][f]; o[0][f] = last; last = x; } }
  void reset() override { last = 0; }
  void setValue (int, double) override {}
  double getValue (int) const override { return 0; }
  bool supportsChannelLayout (size_t, size_t) const override { return true; }
  bool supportsSampleRate (double r) const override { return only == 0 || r == only; }
  void represent (std::ostream&) const override {}
  bool supportsEnvelopeFor (int) const override { return true; }
  std::unique_ptr<hart::DSP<float>> copy() const override { return hart::make_unique<Delay> (*this); }
  std::unique_ptr<hart::DSP<float>> move() override { return hart::make_unique<Delay> (std::move (*this)); }
};
// a single 1 at frame 1, then silence
struct Click : public Signal<float> {
  template <typename T> using Signal = hart::Signal<T>; using SampleType = float;
  size_t pos = 0;
  void prepare (double, size_t, size_t) override {}
  void renderNextBlock (AudioBuffer<float>& o) override { for (size_t f = 0; f < o.getNumFrames(); ++f) o[0][f] = pos++ == 1 ? 1.0f : 0.0f; }
  void reset() override { pos = 0; }
  void represent (std::ostream&) const override {}
  std::unique_ptr<hart::Signal<float>> copy() const override { return hart::make_unique<Click> (*this); }
  std::unique_ptr<hart::Signal<float>> move() override { return hart::make_unique<Click> (std::move (*this)); }
};
'''
SEEDS += [
dict(id='s15a', property='P15', needs='copy assignment of a signal without effects to one that has some', breaks='the previous effects stay in the chain',
     edits=[(SG, '        m_numChannels = other.m_numChannels;\n        dspChain.clear();\n\n        if (other.dspChain.size() == 0)\n            return *this;\n', '        m_numChannels = other.m_numChannels;\n\n        if (other.dspChain.size() == 0)\n            return *this;\n\n        dspChain.clear();\n')],
     demo=DELAY + """int main() {
  Click a, b; a.followedBy (Delay()); a = b;
  a.prepareWithDSPChain (44100, 1, 4); a.resetWithDSPChain(); AudioBuffer<float> o (1, 4); a.renderNextBlockWithDSPChain (o);
  REQUIRE (o[0][1] == 1.0f && o[0][2] == 0.0f);
}
"""),
dict(id='s15b', property='P15', needs='a silent block in front of an effect that still has a tail to play', breaks='effects are skipped for blocks in which their input is silent',
     edits=[(SG, '        for (auto& dsp : dspChain)\n            dsp->processWithEnvelopes (inputReplacing, output);\n', '        for (auto& dsp : dspChain)\n        {\n            if (output.getNumFrames() > 0 && output.getMagnitude (0, output.getNumFrames()) == (SampleType) 0)\n                break;\n\n            dsp->processWithEnvelopes (inputReplacing, output);\n        }\n')],
     demo=DELAY + """int main() {
  Click a; a.followedBy (Delay());
  a.prepareWithDSPChain (44100, 1, 2); a.resetWithDSPChain(); AudioBuffer<float> o (1, 2); a.renderNextBlockWithDSPChain (o); a.renderNextBlockWithDSPChain (o);
  REQUIRE (o[0][0] == 1.0f && o[0][1] == 0.0f);
}
"""),
dict(id='s15c', property='P15', needs='an effect that does not support the sample rate behind one that does', breaks='only the first effect of the chain is asked whether it supports the sample rate',
     edits=[(SG, '            if (! dsp->supportsSampleRate (sampleRateHz))\n', '            if (&dsp == &dspChain.front() && ! dsp->supportsSampleRate (sampleRateHz))\n')],
     demo=DELAY + """int main() {
  Click a; Delay d; a.followedBy (d); d.only = 8000; a.followedBy (d);
  bool refused = false; try { a.prepareWithDSPChain (44100, 1, 2); } catch (const SampleRateError&) { refused = true; }
  REQUIRE (refused);
}
"""),
dict(id='s15d', property='P15', needs='a named effect with an envelope that is appended to a signal and used again', breaks='appending a named effect moves from it, so that the caller\'s effect loses its envelopes',
     edits=[(SG, 'hart::make_unique<typename std::decay<DerivedDSP>::type> (std::forward<DerivedDSP> (dsp))', 'hart::make_unique<typename std::decay<DerivedDSP>::type> (std::move (dsp))')],
     demo=DELAY + """
struct Flat : public Envelope {
  void renderNextBlock (size_t, std::vector<double>&) override {} void prepare (double, size_t) override {} void reset() override {}
  std::unique_ptr<Envelope> copy() const override { return hart::make_unique<Flat> (*this); }
};
int main() {
  Click a; Delay d; d.withEnvelope (0, Flat()); a.followedBy (d);
  REQUIRE (d.hasEnvelopeFor (0));
}
"""),
]

HP = 'include/hart_process_audio.hpp'
# a host fixture: effect and signal that record what they are given
HOST = r'''
#include <sstream>
#include <memory>
#include <cmath>
struct Rec { double rate = 0; size_t ni = 0, no = 0, block = 0, frames = 0; int prepares = 0, resets = 0, blocks = 0; std::vector<double> sets; std::string order; };
struct Probe : public DSP<float> {
  std::shared_ptr<Rec> r; double only = 0; size_t maxOut = 999; Probe (std::shared_ptr<Rec> r) : r (r) {}
  void prepare (double s, size_t ni, size_t no, size_t b) override { r->rate = s; r->ni = ni; r->no = no; r->block = b; r->prepares++; r->order += "p"; }
  void process (const AudioBuffer<float>& i, AudioBuffer<float>& o, const EnvelopeBuffers&) override
  { for (size_t c = 0; c < o.getNumChannels(); ++c) for (size_t f = 0; f < o.getNumFrames(); ++f) o[c][f] = i[0][f]; r->frames += i.getNumFrames(); r->blocks++; r->order += "b"; }
  void reset() override { r->resets++; r->order += "r"; }
  void setValue (int, double v) override { r->sets.push_back (v); r->order += "s"; }
  double getValue (int) const override { return 0; }
  bool supportsChannelLayout (size_t, size_t o) const override { return o <= maxOut; }
  bool supportsSampleRate (double s) const override { return only == 0 || s == only; }
  void represent (std::ostream&) const override {}
  std::unique_ptr<hart::DSP<float>> copy() const override { return hart::make_unique<Probe> (*this); }
  std::unique_ptr<hart::DSP<float>> move() override { return hart::make_unique<Probe> (std::move (*this)); }
};
// 1, 2, 3, ... / 1024
struct Count : public Signal<float> {
  template <typename T> using Signal = hart::Signal<T>; using SampleType = float;
  size_t pos = 0; std::shared_ptr<Rec> r;
  Count (std::shared_ptr<Rec> r = std::make_shared<Rec>()) : r (r) {}
  void prepare (double s, size_t ni, size_t b) override { r->rate = s; r->ni = ni; r->block = b; r->prepares++; r->order += "p"; }
  void renderNextBlock (AudioBuffer<float>& o) override
  { for (size_t f = 0; f < o.getNumFrames(); ++f) { ++pos; for (size_t c = 0; c < o.getNumChannels(); ++c) o[c][f] = pos / 1024.0f; } r->frames += o.getNumFrames(); r->blocks++; }
  void reset() override { pos = 0; r->resets++; r->order += "r"; }
  void represent (std::ostream&) const override {}
  std::unique_ptr<hart::Signal<float>> copy() const override { return hart::make_unique<Count> (*this); }
  std::unique_ptr<hart::Signal<float>> move() override { return hart::make_unique<Count> (std::move (*this)); }
};
// fails for the calls listed in bad
struct Judge : public Matcher<float> {
  struct Seen { int prepares = 0, resets = 0, calls = 0; double rate = 0; size_t ch = 0, max = 0; std::vector<size_t> sizes; std::vector<float> audio; };
  std::shared_ptr<Seen> s = std::make_shared<Seen>(); bool perBlock = true; std::vector<int> bad; MatcherFailureDetails d;
  Judge() { d.channel = 0; d.frame = 0; d.description = "details"; }
  void prepare (double r, size_t c, size_t m) override { s->rate = r; s->ch = c; s->max = m; s->prepares++; }
  bool match (const AudioBuffer<float>& b) override
  { s->sizes.push_back (b.getNumFrames()); for (size_t f = 0; f < b.getNumFrames(); ++f) s->audio.push_back (b[0][f]); const int k = s->calls++; for (int x : bad) if (x == k) return false; return true; }
  bool canOperatePerBlock() override { return perBlock; }
  void reset() override { s->resets++; }
  MatcherFailureDetails getFailureDetails() const override { return d; }
  void represent (std::ostream& o) const override { o << "Judge"; }
  std::unique_ptr<Matcher<float>> copy() const override { return hart::make_unique<Judge> (*this); }
  std::unique_ptr<Matcher<float>> move() override { return hart::make_unique<Judge> (std::move (*this)); }
};
'''
SEEDS += [
dict(id='s06a', property='P06', needs='a sample rate the effect refuses, followed by more of the test', breaks='a refused sample rate is stored all the same',
     edits=[(HP, '        if (! m_processor->supportsSampleRate (sampleRateHz))\n            HART_THROW_OR_RETURN (hart::SampleRateError, "Sample rate is not supported by the tested DSP", *this);\n\n        m_sampleRateHz = sampleRateHz;\n', '        m_sampleRateHz = sampleRateHz;\n\n        if (! m_processor->supportsSampleRate (sampleRateHz))\n            HART_THROW_OR_RETURN (hart::SampleRateError, "Sample rate is not supported by the tested DSP", *this);\n\n')],
     demo=HOST + """int main() {
  auto r = std::make_shared<Rec>(); Probe p (r); p.only = 44100; auto t = processAudioWith (p);
  bool refused = false; try { t.withSampleRate (8000); } catch (const SampleRateError&) { refused = true; }
  REQUIRE (refused); t.withInputSignal (Count());
  try { t.process(); } catch (const std::exception&) { REQUIRE (! "the configuration was left alone"); }
  REQUIRE (r->rate == 44100);
}
"""),
dict(id='s06b', property='P06', needs='exactly 128 output channels', breaks='the largest legal number of output channels is refused',
     edits=[(HP, '        if (numOutputChannels > 128)\n', '        if (numOutputChannels >= 128)\n')],
     demo=HOST + """int main() {
  auto r = std::make_shared<Rec>(); auto t = processAudioWith (Probe (r)); t.withInputSignal (Count());
  try { t.withOutputChannels (128); } catch (const std::exception&) { REQUIRE (! "128 channels are legal"); }
  t.process(); REQUIRE (r->no == 128 && r->ni == 1);
}
"""),
dict(id='s06c', property='P06', needs='two values for the same parameter', breaks='a second value for a parameter takes the place of the first, before the values requested in between',
     edits=[(HP, '        // TODO: Handle cases when processor already has an envelope for this id\n        paramValues.emplace_back (ParamValue { id, value });\n', '        const auto existing = std::find_if (paramValues.begin(), paramValues.end(), [id] (const ParamValue& p) { return p.id == id; });\n\n        if (existing != paramValues.end())\n            existing->value = value;\n        else\n            paramValues.emplace_back (ParamValue { id, value });\n')],
     demo=HOST + """int main() {
  auto r = std::make_shared<Rec>(); auto t = processAudioWith (Probe (r)); t.withInputSignal (Count());
  t.withValue (1, 1.0).withValue (2, 2.0).withValue (1, 3.0).process();
  REQUIRE (r->sets == (std::vector<double> { 1.0, 2.0, 3.0 }));
}
"""),
dict(id='s06d', property='P06', needs='the mono or stereo shortcut for the input after a channel count for the output', breaks='the stereo shortcut for the input also changes the number of output channels when that is still mono',
     edits=[(HP, '    AudioTestBuilder& withStereoInput()\n    {\n        return this->withInputChannels (2);\n', '    AudioTestBuilder& withStereoInput()\n    {\n        m_numOutputChannels = std::max<size_t> (m_numOutputChannels, 2);\n        return withInputChannels (2);\n')],
     demo=HOST + """int main() {
  auto r = std::make_shared<Rec>(); auto t = processAudioWith (Probe (r)); t.withInputSignal (Count());
  t.withStereoInput().process();
  REQUIRE (r->ni == 2 && r->no == 1);
}
"""),
]
SEEDS += [
dict(id='s04a', property='P04', needs='a check that fails in one block and another that would fail in a later one', breaks='once some check has failed, later blocks are not checked any more',
     edits=[(HP, '            const bool allChecksPassed = processChecks (perBlockChecks, outputBlock);\n', '            const bool allChecksPassed = atLeastOneCheckFailed ? false : processChecks (perBlockChecks, outputBlock);\n')],
     demo=HOST + """int main() {
  Judge a, b; a.bad = { 0 }; b.bad = { 2 }; auto t = processAudioWith (Probe (std::make_shared<Rec>()));
  ExpectationFailureMessages::get().clear();
  t.withInputSignal (Count()).withSampleRate (1000).withDuration (0.03).withBlockSize (10).expectTrue (a).expectTrue (b).process();
  REQUIRE (ExpectationFailureMessages::get().size() == 2); REQUIRE (b.s->calls == 3);
}
"""),
dict(id='s04b', property='P04', needs='two failing checks with the same report', breaks='a failure whose text was recorded before is dropped',
     edits=[(HP, '                    hart::ExpectationFailureMessages::get().emplace_back (stream.str());\n', '                    auto& messages = hart::ExpectationFailureMessages::get();\n\n                    if (messages.empty() || messages.back() != stream.str())\n                        messages.emplace_back (stream.str());\n')],
     demo=HOST + """int main() {
  Judge a, b; auto t = processAudioWith (Probe (std::make_shared<Rec>()));
  ExpectationFailureMessages::get().clear();
  t.withInputSignal (Count()).expectFalse (a).expectFalse (b).process();
  REQUIRE (ExpectationFailureMessages::get().size() == 2);
}
"""),
dict(id='s04c', property='P04', needs='a failing assertion after an expectation that failed in the same block', breaks='the assertion is recorded like an expectation and the test goes on',
     edits=[(HP, '                if (assertionLevel == SignalAssertionLevel::assert)\n', '                if (assertionLevel == SignalAssertionLevel::assert && allChecksPassed)\n')],
     demo=HOST + """int main() {
  Judge a, b; a.bad = { 1 }; b.bad = { 1 }; auto t = processAudioWith (Probe (std::make_shared<Rec>()));
  t.withInputSignal (Count()).withSampleRate (1000).withDuration (0.03).withBlockSize (10).expectTrue (a).assertTrue (b);
  bool ended = false; try { t.process(); } catch (const TestAssertException&) { ended = true; }
  REQUIRE (ended);
}
"""),
dict(id='s04d', property='P04', needs='assertFalse with a matcher that can work block by block', breaks='inverted assertions are applied to each block instead of the whole output',
     edits=[(HP, '''(std::forward<MatcherType> (matcher));
        const bool forceFullSignal = ! shouldPass;  // No per-block checks for inverted matchers
''', '''(std::forward<MatcherType> (matcher));
        const bool forceFullSignal = ! shouldPass && signalAssertionLevel == SignalAssertionLevel::expect;  // No per-block checks for inverted matchers
''')],
     demo=HOST + """int main() {
  auto t = processAudioWith (Probe (std::make_shared<Rec>()));
  t.withInputSignal (Count()).withSampleRate (1000).withDuration (0.03).withBlockSize (10).assertFalse (PeaksBelow<float> (-35.0, 0.0));
  try { t.process(); } catch (const TestAssertException&) { REQUIRE (! "the whole output is not below -35 dB"); }
}
"""),
dict(id='s04e', property='P04', needs='a check that comes right after one that failed in an earlier block', breaks='a check that is skipped ends the round of checks for the block',
     edits=[(HP, '            if (check.shouldSkip)\n                continue;\n', '            if (check.shouldSkip && &check == &checksGroup.front())\n                continue;\n\n            if (check.shouldSkip)\n                break;\n')],
     demo=HOST + """int main() {
  Judge a, b, d; b.bad = { 0 }; auto t = processAudioWith (Probe (std::make_shared<Rec>()));
  t.withInputSignal (Count()).withSampleRate (1000).withDuration (0.03).withBlockSize (10).expectTrue (a).expectTrue (b).expectTrue (d).process();
  REQUIRE (a.s->calls == 3); REQUIRE (d.s->calls == 3);
}
"""),
dict(id='s05a', property='P05', needs='a single frame left after the last full block', breaks='that frame is rendered together with the block before it, which gets larger than the configured size',
     edits=[(HP, '            const size_t blockSizeFrames = std::min (m_blockSizeFrames, m_durationFrames - offsetFrames);\n', '            const size_t remainingFrames = m_durationFrames - offsetFrames;\n            const size_t blockSizeFrames = remainingFrames <= m_blockSizeFrames + 1 ? remainingFrames : m_blockSizeFrames;\n')],
     demo=HOST + """int main() {
  Judge a; auto r = std::make_shared<Rec>(); auto t = processAudioWith (Probe (r));
  t.withInputSignal (Count()).withSampleRate (1000).withDuration (0.021).withBlockSize (10).expectTrue (a).process();
  REQUIRE (r->blocks == 3); REQUIRE (a.s->sizes.back() == 1);
}
"""),
dict(id='s05b', property='P05', needs='an effect whose preparation forgets earlier parameter values', breaks='parameter values are set before the effect is prepared',
     edits=[(HP, '''        m_processor->prepareWithEnvelopes (m_sampleRateHz, m_numInputChannels, m_numOutputChannels, m_blockSizeFrames);

        for (const ParamValue& paramValue : paramValues)
        {
            // TODO: Add true/false return to indicate if setting the parameter was successful
            m_processor->setValue (paramValue.id, paramValue.value);
        }
''', '''
        for (const ParamValue& paramValue : paramValues)
        {
            // TODO: Add true/false return to indicate if setting the parameter was successful
            m_processor->setValue (paramValue.id, paramValue.value);
        }

        m_processor->prepareWithEnvelopes (m_sampleRateHz, m_numInputChannels, m_numOutputChannels, m_blockSizeFrames);
''')],
     demo=HOST + """int main() {
  auto r = std::make_shared<Rec>(); auto t = processAudioWith (Probe (r));
  t.withInputSignal (Count()).withValue (0, 1.0).process();
  REQUIRE (r->order.find ('s') > r->order.rfind ('p'));
}
"""),
dict(id='s05c', property='P05', needs='an input signal that was rendered before it was handed to the test', breaks='the input signal is not rewound',
     edits=[(HP, '        m_inputSignal->resetWithDSPChain();\n', '        if (offsetFrames > 0)\n            m_inputSignal->resetWithDSPChain();\n\n')],
     demo=HOST + """int main() {
  Count s; AudioBuffer<float> b (1, 5); s.renderNextBlock (b);
  Judge a; auto t = processAudioWith (Probe (std::make_shared<Rec>()));
  t.withInputSignal (s).expectTrue (a).process();
  REQUIRE (a.s->audio[0] == 1 / 1024.0f);
}
"""),
dict(id='s05d', property='P05', needs='a duration whose number of frames has a fraction just above one half', breaks='such durations lose a frame',
     edits=[(HP, '        m_durationFrames = (size_t) std::round (m_sampleRateHz * m_durationSeconds);\n', '        m_durationFrames = (size_t) (m_sampleRateHz * m_durationSeconds + 0.49);\n')],
     demo=HOST + """int main() {
  auto r = std::make_shared<Rec>(); auto t = processAudioWith (Probe (r));
  t.withInputSignal (Count()).withSampleRate (1000).withDuration (0.020505).process();
  REQUIRE (r->frames == 21);
}
"""),
dict(id='s05e', property='P05', needs='different numbers of input and output channels and a check that works block by block', breaks='matchers are prepared for the input instead of the output',
     edits=[(HP, '            check.matcher->prepare (m_sampleRateHz, m_numOutputChannels, m_blockSizeFrames);\n', '            check.matcher->prepare (m_sampleRateHz, m_numInputChannels, m_blockSizeFrames);\n')],
     demo=HOST + """int main() {
  Judge a; auto t = processAudioWith (Probe (std::make_shared<Rec>()));
  t.withInputSignal (Count()).withOutputChannels (3).expectTrue (a).process();
  REQUIRE (a.s->ch == 3);
}
"""),
dict(id='s18a', property='P18', needs='a failure in the first block, or in a full-signal check', breaks='the position of a failure is that of the beginning of the block unless enough audio came before it',
     edits=[(HP, '        const double timestampSeconds = static_cast<double> (offsetFrames + details.frame) / m_sampleRateHz;\n', '        const double timestampSeconds = static_cast<double> (offsetFrames) / m_sampleRateHz + static_cast<double> (details.frame % observedAudioBlock.getNumFrames() < offsetFrames ? details.frame : 0) / m_sampleRateHz;\n')],
     demo=HOST + """int main() {
  Judge a; a.bad = { 0 }; a.d.frame = 7; auto t = processAudioWith (Probe (std::make_shared<Rec>()));
  ExpectationFailureMessages::get().clear(); CLIConfig::getInstance().initCommandLineArgs();
  t.withInputSignal (Count()).withSampleRate (1000).withDuration (0.03).withBlockSize (10).expectTrue (a).process();
  REQUIRE (ExpectationFailureMessages::get().at (0).find ("Timestamp: 0.007") != std::string::npos);
}
"""),
dict(id='s18b', property='P18', needs='a failed sample with a negative value', breaks='the level of negative samples is reported as silence',
     edits=[(HP, '            << dbPrecision << " (" << ratioToDecibels (std::abs (sampleValue)) << " dB)" << std::endl\n', '            << dbPrecision << " (" << ratioToDecibels (sampleValue) << " dB)" << std::endl\n')],
     demo=HOST + """struct Flip : public Probe { Flip() : Probe (std::make_shared<Rec>()) {} };
int main() {
  Judge a; a.bad = { 0 }; a.d.frame = 0; ExpectationFailureMessages::get().clear(); CLIConfig::getInstance().initCommandLineArgs();
  auto t = processAudioWith (GainLinear<float> (-1024.0));
  t.withInputSignal (Count()).expectTrue (a).process();
  REQUIRE (ExpectationFailureMessages::get().at (0).find ("-120") == std::string::npos);
}
"""),
dict(id='s18c', property='P18', needs='a failure in another channel than the first when channels differ', breaks='the sample value is always taken from the first channel',
     edits=[(HP, '        const SampleType sampleValue = observedAudioBlock[details.channel][details.frame];\n', '        const SampleType sampleValue = observedAudioBlock[0][details.frame];\n')],
     demo=HOST + """struct Wide : public Probe {
  using Probe::Probe;
  void process (const AudioBuffer<float>& i, AudioBuffer<float>& o, const EnvelopeBuffers&) override
  { for (size_t c = 0; c < o.getNumChannels(); ++c) for (size_t f = 0; f < o.getNumFrames(); ++f) o[c][f] = 0.25f * (c + 1) + 0 * i[0][f]; }
  std::unique_ptr<hart::DSP<float>> copy() const override { return hart::make_unique<Wide> (*this); }
  std::unique_ptr<hart::DSP<float>> move() override { return hart::make_unique<Wide> (std::move (*this)); }
};
int main() {
  Judge a; a.bad = { 0 }; a.d.channel = 1; ExpectationFailureMessages::get().clear(); CLIConfig::getInstance().initCommandLineArgs();
  auto t = processAudioWith (Wide (std::make_shared<Rec>()));
  t.withInputSignal (Count()).withOutputChannels (2).expectTrue (a).process();
  REQUIRE (ExpectationFailureMessages::get().at (0).find ("0.50") != std::string::npos);
}
"""),
dict(id='s18d', property='P18', needs='an expected value and an observed value of opposite signs', breaks='the described difference is that of the absolute values',
     edits=[('include/matchers/hart_equalsto.hpp', '        const SampleType m_differenceLinear = std::abs (m_failedExpectedValue - m_failedObservedValue);\n', '        const SampleType m_differenceLinear = std::abs (std::abs (m_failedExpectedValue) - std::abs (m_failedObservedValue));\n')],
     demo=HOST + """int main() {
  ExpectationFailureMessages::get().clear(); CLIConfig::getInstance().initCommandLineArgs();
  EqualsTo<float> m (Count(), 1e-6); AudioBuffer<float> b (1, 1); b[0][0] = -0.5f;
  m.prepare (44100.0, 1, 1); m.reset(); REQUIRE (! m.match (b));
  const std::string d = m.getFailureDetails().description;
  REQUIRE (d.find ("0.50097") != std::string::npos);
}
"""),
dict(id='s18e', property='P18', needs='a label and a failing inverted expectation', breaks='failed inverted expectations are reported without the label',
     edits=[(HP, '                    if (!m_testLabel.empty())\n', '                    if (! m_testLabel.empty() && check.shouldPass)\n')],
     demo=HOST + """int main() {
  Judge a; ExpectationFailureMessages::get().clear();
  auto t = processAudioWith (Probe (std::make_shared<Rec>()));
  t.withInputSignal (Count()).withLabel ("my label").expectFalse (a).process();
  REQUIRE (ExpectationFailureMessages::get().at (0).find ("my label") != std::string::npos);
}
"""),
]
FILES = '''
#include <fstream>
#include <cstdlib>
#include <cstdio>
#include <unistd.h>
static std::string scratchDir() { char t[] = "/tmp/demoXXXXXX"; return mkdtemp (t); }
static bool exists (const std::string& p) { return std::ifstream (p.c_str()).good(); }
static std::string slurp (const std::string& p) { std::ifstream f (p.c_str(), std::ios::binary); std::ostringstream s; s << f.rdbuf(); return s.str(); }
'''
SEEDS += [
dict(id='s19a', property='P19', needs='a check that fails in some block while all checks of the full signal pass', breaks='saving when failed looks only at the checks of the full signal',
     edits=[(HP, '        atLeastOneCheckFailed |= ! allChecksPassed;\n\n        if (m_saveOutputMode', '        atLeastOneCheckFailed = ! allChecksPassed;\n\n        if (m_saveOutputMode')],
     demo=HOST + FILES + """int main() {
  const std::string d = scratchDir(), p = d + "/a.wav"; Judge a, b; a.bad = { 0 }; b.perBlock = false;
  auto t = processAudioWith (Probe (std::make_shared<Rec>()));
  t.withInputSignal (Count()).expectTrue (a).expectTrue (b).saveOutputTo (p, Save::whenFails).process();
  const bool ok = exists (p); std::remove (p.c_str()); rmdir (d.c_str()); REQUIRE (ok);
}
"""),
dict(id='s19b', property='P19', needs='a request for an output file followed by one with an empty path', breaks='a request with an empty path takes back an earlier one',
     edits=[(HP, '''        if (path.empty())
            return *this;

        m_saveOutputPath = toAbsolutePath (path);
        m_saveOutputMode = mode;
''', '''        m_saveOutputMode = path.empty() ? Save::never : mode;

        if (path.empty())
            return *this;

        m_saveOutputPath = toAbsolutePath (path);
''')],
     demo=HOST + FILES + """int main() {
  const std::string d = scratchDir(), p = d + "/a.wav";
  auto t = processAudioWith (Probe (std::make_shared<Rec>()));
  t.withInputSignal (Count()).saveOutputTo (p).saveOutputTo ("").process();
  const bool ok = exists (p); std::remove (p.c_str()); rmdir (d.c_str()); REQUIRE (ok);
}
"""),
dict(id='s19c', property='P19', needs='output saved when failed, plot saved always or the other way round, and a failure', breaks='whether a plot is saved when failed depends on the mode for the output',
     edits=[(HP, '(m_savePlotMode == Save::whenFails && atLeastOneCheckFailed)', '(m_saveOutputMode == Save::whenFails && atLeastOneCheckFailed)')],
     demo=HOST + FILES + """int main() {
  const std::string d = scratchDir(), p = d + "/a.svg"; Judge a; a.bad = { 0 };
  auto t = processAudioWith (Probe (std::make_shared<Rec>()));
  t.withInputSignal (Count()).expectTrue (a).savePlotTo (p, Save::whenFails).process();
  const bool ok = exists (p); std::remove (p.c_str()); rmdir (d.c_str()); REQUIRE (ok);
}
"""),
dict(id='s19d', property='P19', needs='a path that begins with a dot', breaks='such paths resolve under the working directory instead of the data root',
     edits=[('include/hart_utils.hpp', "    if (path[0] == '/' || path[0] == '\\\\')\n", "    if (path[0] == '/' || path[0] == '\\\\' || path.compare (0, 2, \"./\") == 0)\n")],
     demo=HOST + """int main() { REQUIRE (toAbsolutePath ("./x.wav") == CLIConfig::getInstance().getDataRootPath() + "/./x.wav"); REQUIRE (toAbsolutePath ("/x") == "/x"); }
"""),
dict(id='s19e', property='P19', needs='a plot of a test with more than one block', breaks='the input in the plot lacks the last, shorter block',
     edits=[(HP, '            fullInputBuffer.appendFrom (inputBlock);\n', '            if (inputBlock.getNumFrames() < m_blockSizeFrames && offsetFrames == 0)\n                fullInputBuffer = inputBlock;\n            else if (fullInputBuffer.getNumFrames() < m_durationFrames - m_durationFrames % m_blockSizeFrames)\n                fullInputBuffer.appendFrom (inputBlock);\n\n')],
     demo=HOST + FILES + """int main() {
  const std::string d = scratchDir(), p = d + "/a.svg", q = d + "/b.svg";
  auto t = processAudioWith (Probe (std::make_shared<Rec>()));
  t.withInputSignal (Count()).withSampleRate (1000).withDuration (0.025).withBlockSize (10).savePlotTo (p).process();
  AudioBuffer<float> b (1, 25); for (int i = 0; i < 25; ++i) b[0][i] = (i + 1) / 1024.0f; plotData (b, b, 1000.0, q);
  const bool ok = slurp (p) == slurp (q); std::remove (p.c_str()); std::remove (q.c_str()); rmdir (d.c_str()); REQUIRE (ok);
}
"""),
]


RUN = """#define HART_IMPLEMENTATION
#include "hart.hpp"
#include <cstdio>
#include <sstream>
#define REQUIRE(c) do { if (!(c)) { std::printf ("violated: %s\\n", #c); return 1; } } while (0)
using namespace hart;
static std::string text;
static int runAll() { std::ostringstream s; auto* b = std::cout.rdbuf (s.rdbuf()); const int r = TestRegistry::getInstance().runAll(); std::cout.rdbuf (b); text = s.str(); return r; }
static void add (const std::string& n, void (*f)(), TaskCategory k = TaskCategory::test) { TestRegistry::getInstance().add (n, "", k, f); }
static bool said (const std::string& t) { return text.find (t) != std::string::npos; }
static int calls = 0;
static void good() { ++calls; }
static void bad() { ++calls; ExpectationFailureMessages::get().emplace_back ("bad"); }
"""
RP = 'include/hart_test_registry.hpp'
SEEDS += [
dict(id='s17a', property='P17', needs='a task that fails an expectation and then raises an error, and a task after it', breaks='the next task inherits the recorded failures',
     edits=[(RP, '        ExpectationFailureMessages::clear();\n\n        try\n', '        try\n'),
            (RP, '            std::cout << separator << std::endl;\n            ++tasksFailed;\n', '            std::cout << separator << std::endl;\n            ++tasksFailed;\n\n            if (! assertionFailed)\n                ExpectationFailureMessages::clear();\n')],
     demo=RUN + """static void both() { bad(); throw std::runtime_error ("x"); }
int main() { add ("a", bad); add ("b", good); add ("c", both); add ("d", good); REQUIRE (runAll() != 0); REQUIRE (calls == 4); REQUIRE (said ("d - passed")); REQUIRE (said ("2/4")); }
"""),
dict(id='s17b', property='P17', needs='256 failing tasks', breaks='the exit status is the number of failed tasks, which the system truncates to zero',
     edits=[(RP, '        return (int) (tasksFailed != 0);', '        return (int) tasksFailed;')],
     demo=RUN + """int main() { for (int i = 0; i < 256; ++i) add ("t" + std::to_string (i), bad); const int r = runAll(); REQUIRE ((r & 0xff) != 0); }
"""),
dict(id='s17c', property='P17', needs='a duplicate name that was refused, then the registration of another task', breaks='a refused duplicate is run all the same',
     edits=[(RP, '        if (isDuplicate)\n            HART_THROW_OR_RETURN_VOID (hart::ValueError, std::string ("Duplicate test case name found: ") + name);\n\n', ''),
            (RP, '        tasks.emplace_back (TaskInfo {name, tags, func});', '        tasks.emplace_back (TaskInfo {name, tags, func});\n\n        if (isDuplicate)\n            HART_THROW_OR_RETURN_VOID (hart::ValueError, std::string ("Duplicate test case name found: ") + name);')],
     demo=RUN + """int main() { add ("a", good); bool refused = false; try { add ("a", bad); } catch (const std::exception&) { refused = true; } REQUIRE (refused); REQUIRE (runAll() == 0); REQUIRE (calls == 1); }
"""),
dict(id='s17d', property='P17', needs='an error with an empty message', breaks='a task that raised it is reported as passed',
     edits=[(RP, '        bool assertionFailed = false;\n', ''),
            (RP, '        catch (const hart::TestAssertException& e)\n        {\n            assertionFailMessage = e.what();\n            assertionFailed = true;\n        }', '        catch (const hart::TestAssertException& e)\n        {\n            assertionFailMessage = e.what();\n        }'),
            (RP, '        catch (const hart::ConfigurationError& e)\n        {\n            assertionFailMessage = e.what();\n            assertionFailed = true;\n        }', '        catch (const hart::ConfigurationError& e)\n        {\n            assertionFailMessage = e.what();\n        }'),
            (RP, '        catch (const std::exception& e)\n        {\n            assertionFailMessage = e.what();\n            assertionFailed = true;\n        }', '        catch (const std::exception& e)\n        {\n            assertionFailMessage = e.what();\n        }'),
            (RP, "        std::cout << '\\r';\n", "        const bool assertionFailed = ! assertionFailMessage.empty();\n        std::cout << '\\r';\n")],
     demo=RUN + """static void silent() { throw std::runtime_error (""); }
static void loud() { throw std::runtime_error ("x"); }
int main() { add ("a", loud); add ("b", silent); REQUIRE (runAll() != 0); REQUIRE (said ("a - failed")); REQUIRE (said ("b - failed")); }
"""),
dict(id='s17e', property='P17', needs='the same run twice in one process, the first with a failure, or a failed task before', breaks='a task with as many failures as the task before had is reported as passed',
     edits=[(RP, '        ExpectationFailureMessages::clear();\n\n        try\n', '        const size_t numFailuresBefore = ExpectationFailureMessages::get().size();\n        ExpectationFailureMessages::clear();\n\n        try\n'),
            (RP, 'ExpectationFailureMessages::get().size() > 0;', 'ExpectationFailureMessages::get().size() != numFailuresBefore;')],
     demo=RUN + """int main() { add ("a", bad); add ("b", bad); add ("c", good); REQUIRE (runAll() != 0); REQUIRE (said ("a - failed")); REQUIRE (said ("b - failed")); REQUIRE (said ("c - passed")); }
"""),
]


BUF = """#define HART_IMPLEMENTATION
#include "hart.hpp"
#include <cstdio>
#define REQUIRE(c) do { if (!(c)) { std::printf ("violated: %s\\n", #c); return 1; } } while (0)
using namespace hart;
using B = AudioBuffer<float>;
template <typename F> static bool refused (F f) { try { f(); return false; } catch (const std::exception&) { return true; } }
"""
AB = 'include/hart_audio_buffer.hpp'
SEEDS += [
dict(id='s01a', property='P01', needs='a move assignment into a buffer that has frames', breaks='the source keeps the old frames of the destination instead of being empty',
     edits=[(AB, '        m_numFrames = other.m_numFrames;\n        m_frames = std::move (other.m_frames);\n        m_channelPointers = std::move (other.m_channelPointers);\n        other.clear();\n\n        return *this;',
             '        std::swap (m_numFrames, other.m_numFrames);\n        m_frames.swap (other.m_frames);\n        m_channelPointers.swap (other.m_channelPointers);\n\n        return *this;')],
     demo=BUF + """int main() { B a (1, 2), b (1, 3); b[0][2] = 1; a = std::move (b); REQUIRE (a.getNumFrames() == 3 && a[0][2] == 1); REQUIRE (b.getNumFrames() == 0 && b.getNumChannels() == 1); }
"""),
dict(id='s01b', property='P01', needs='copy assignment of a shorter buffer with more than one channel', breaks='the channel pointers of the longer layout are kept',
     edits=[(AB, '        m_numFrames = other.m_numFrames;\n        m_frames = other.m_frames;\n        m_channelPointers.resize (m_numChannels);\n        updateChannelPointers();',
             '        const bool mayReallocate = other.m_numFrames > m_numFrames;\n        m_numFrames = other.m_numFrames;\n        m_frames = other.m_frames;\n\n        if (mayReallocate)\n            updateChannelPointers();')],
     demo=BUF + """int main() { B a (2, 4), b (2, 2); b[1][1] = 0.5f; a = b; REQUIRE (a.getNumFrames() == 2); REQUIRE (a[1][1] == 0.5f); REQUIRE (a.getMagnitude (0, 2) == 0.5f); }
"""),
dict(id='s01c', property='P01', needs='a negative peak that is not the first sample, asked over all channels', breaks='the comparison for the peak sees only positive samples as larger',
     edits=[(AB, '                start + numFrames,\n                [] (SampleType a, SampleType b) { return std::abs (a) < std::abs (b); }\n                );\n            peakSampleAcrossAllChannels',
             '                start + numFrames,\n                [] (SampleType a, SampleType b) { return std::abs (a) < b; }\n                );\n            peakSampleAcrossAllChannels')],
     demo=BUF + """int main() { B a (2, 3); a[1][0] = 0.25f; a[1][2] = -0.75f; REQUIRE (a.getMagnitude (0, 3) == 0.75f); }
"""),
dict(id='s01d', property='P01', needs='appending an empty buffer with another channel count', breaks='it is accepted',
     edits=[(AB, '        if (otherBuffer.getNumChannels() != m_numChannels)\n            HART_THROW_OR_RETURN_VOID (hart::ChannelLayoutError, "Channel count mismatch");\n\n        const size_t thisNumFrames = m_numFrames;\n        const size_t otherNumFrames = otherBuffer.getNumFrames();\n',
             '        const size_t thisNumFrames = m_numFrames;\n        const size_t otherNumFrames = otherBuffer.getNumFrames();\n\n        if (otherNumFrames == 0)\n            return;\n\n        if (otherBuffer.getNumChannels() != m_numChannels)\n            HART_THROW_OR_RETURN_VOID (hart::ChannelLayoutError, "Channel count mismatch");\n')],
     demo=BUF + """int main() { B a (2, 4), b (1, 0), d (2, 0); REQUIRE (! refused ([&] { a.appendFrom (d); })); REQUIRE (refused ([&] { a.appendFrom (b); })); REQUIRE (a.getNumFrames() == 4); }
"""),
dict(id='s01e', property='P01', needs='appending a buffer to itself, or a longer one', breaks='the frames are grown in place, so the own samples move before they are read',
     edits=[(AB, '        std::vector<SampleType> combinedFrames (m_numChannels * (thisNumFrames + otherNumFrames));\n', '        std::vector<SampleType> combinedFrames (m_frames);\n        combinedFrames.resize (m_numChannels * (thisNumFrames + otherNumFrames));\n'),
            (AB, '            std::copy (m_channelPointers[channel], m_channelPointers[channel] + thisNumFrames, newChannelStart);\n', '            std::copy (combinedFrames.data() + channel * thisNumFrames, combinedFrames.data() + (channel + 1) * thisNumFrames, newChannelStart);\n')],
     demo=BUF + """int main() { B a (3, 2), b (3, 1); for (int c = 0; c < 3; ++c) { a[c][0] = c + 1; a[c][1] = c + 11; b[c][0] = c + 21; } a.appendFrom (b);
  for (int c = 0; c < 3; ++c) { REQUIRE (a[c][0] == c + 1); REQUIRE (a[c][1] == c + 11); REQUIRE (a[c][2] == c + 21); } }
"""),
]


WW = 'include/hart_wavwriter.hpp'
CC = 'include/hart_cliconfig.hpp'
PR = 'include/hart_precision.hpp'
TRIP = """#define HART_IMPLEMENTATION
#include "hart.hpp"
#include <cstdio>
#include <cmath>
#include <string>
#include <unistd.h>
#define REQUIRE(c) do { if (!(c)) { std::printf ("violated: %s\\n", #c); return 1; } } while (0)
using namespace hart;
using B = AudioBuffer<float>;
static B trip (const B& b, double rate, WavFormat format)
{
    char cwd[4000];
    if (getcwd (cwd, sizeof cwd) == nullptr) return B (1, 0);
    const std::string path = std::string (cwd) + "/trip.wav";
    WavWriter<float>::writeBuffer (b, path, rate, format);
    WavFile<float> w (path);
    w.prepare (rate, b.getNumChannels(), b.getNumFrames());
    w.reset();
    B o (b.getNumChannels(), b.getNumFrames());
    w.renderNextBlock (o);
    return o;
}
"""
OPT = """#define HART_IMPLEMENTATION
#include "hart.hpp"
#include <cstdio>
#include <sstream>
#include <string>
#define REQUIRE(c) do { if (!(c)) { std::printf ("violated: %s\\n", #c); return 1; } } while (0)
using namespace hart;
static int runs = 0;
HART_TEST ("counts") { ++runs; }
static int program (int argc, char** argv) { HART_RUN_ALL_TESTS (argc, argv); }
template <size_t N> static int start (const char* (&a)[N]) { return program ((int) N, const_cast<char**> (a)); }
static CLIConfig& cfg() { return CLIConfig::getInstance(); }
"""
SEEDS += [
dict(id='s21a', property='P21', needs='a sample rate above 65535 Hz', breaks='the saved file has another sample rate, so it cannot be played at the rate it was saved with',
     edits=[(WW, 'drWavFormat.sampleRate = static_cast<drwav_uint32> (sampleRateHz);', 'drWavFormat.sampleRate = static_cast<drwav_uint16> (sampleRateHz);')],
     demo=TRIP + """int main() { B b (1, 3); b[0][1] = 0.5f; for (double r : { 44100.0, 96000.0 }) { try { B o = trip (b, r, WavFormat::float32); REQUIRE (o[0][1] == 0.5f); } catch (const std::exception& e) { std::puts (e.what()); return 1; } } }
"""),
dict(id='s21b', property='P21', needs='32 bit format and a sample at positive full scale', breaks='the scale is rounded up by single precision, so full scale wraps around to the negative end',
     edits=[(WW, 'constexpr double scale = 2147483647.0;', 'constexpr double scale = 2147483647.0f;')],
     demo=TRIP + """int main() { B b (1, 3); b[0][0] = 0.25f; b[0][1] = 1.0f; b[0][2] = -1.0f; B o = trip (b, 44100.0, WavFormat::pcm32); for (int i = 0; i < 3; ++i) REQUIRE (std::abs (o[0][i] - b[0][i]) < 1e-6f); }
"""),
dict(id='s21c', property='P21', needs='24 bit format and a negative sample', breaks='the upper bytes of negative numbers are taken by division instead of a shift',
     edits=[(WW, 'pcmData[idx + 1] = static_cast<uint8_t> ((pcmValue >> 8) & 0xff);', 'pcmData[idx + 1] = static_cast<uint8_t> ((pcmValue / 256) & 0xff);')],
     demo=TRIP + """int main() { B b (2, 2); b[0][0] = 0.3f; b[0][1] = 0.7f; b[1][0] = -0.3f; b[1][1] = -0.123f; B o = trip (b, 44100.0, WavFormat::pcm24); for (int c = 0; c < 2; ++c) for (int i = 0; i < 2; ++i) REQUIRE (std::abs (o[c][i] - b[c][i]) < 1e-6f); }
"""),
dict(id='s22a', property='P22', needs='different decimals for hertz and radians', breaks='radians are shown with the decimals of hertz (their defaults are the same)',
     edits=[(PR, 'std::setprecision (CLIConfig::getInstance().getRadDecimals());', 'std::setprecision (CLIConfig::getInstance().getHzDecimals());')],
     demo=OPT + """int main() { const char* a[] = { "x", "--rad-decimals", "4", "--hz-decimals=2" }; REQUIRE (start (a) == 0); std::ostringstream s; s << radPrecision << 0.5; REQUIRE (s.str() == "0.5000"); std::ostringstream t; t << hzPrecision << 0.5; REQUIRE (t.str() == "0.50"); }
"""),
dict(id='s22b', property='P22', needs='--db-decimals or --hz-decimals given', breaks='the two options are registered with each other\'s variable (their defaults are the same)',
     edits=[(CC, '            m_hzDecimals,\n            "Number of displayed decimal places for values in hertz', '            m_dbDecimals,\n            "Number of displayed decimal places for values in hertz'), (CC, '            m_dbDecimals,\n            "Number of displayed decimal places for values in decidels', '            m_hzDecimals,\n            "Number of displayed decimal places for values in decidels')],
     demo=OPT + """int main() { const char* a[] = { "x", "--db-decimals", "5" }; REQUIRE (start (a) == 0); REQUIRE (cfg().getDbDecimals() == 5); REQUIRE (cfg().getHzDecimals() == 1); REQUIRE (cfg().getSecDecimals() == 3); }
"""),
dict(id='s22c', property='P22', needs='a misspelt option or a stray word on the command line', breaks='it is ignored and the run goes on',
     edits=[(CC, '        app.add_option ("--data-root-path,-d", m_dataRootPath, "Data root path");\n', '        app.allow_extras()->add_option ("--data-root-path,-d", m_dataRootPath, "Data root path");\n')],
     demo=OPT + """int main() { const char* a[] = { "x", "--sed", "5" }; REQUIRE (start (a) != 0); REQUIRE (runs == 0); }
"""),
dict(id='s22d', property='P22', needs='a command line the parser refuses', breaks='the refusal is reported but the status is that of success',
     edits=[('include/hart.hpp', '        CLI11_PARSE (hart::CLIConfig::getInstance().getCLIApp(), argc, argv); \\\n', '        try { hart::CLIConfig::getInstance().getCLIApp().parse (argc, argv); } \\\n        catch (const CLI::ParseError& e) { return hart::CLIConfig::getInstance().getCLIApp().exit (e) == 0; } \\\n')],
     demo=OPT + """int main() { const char* a[] = { "x", "--seed", "many" }; REQUIRE (start (a) != 0); REQUIRE (runs == 0); }
"""),
]
TEXT = """#include <sstream>
template <typename T> std::string text (const T& x) { static bool once = (CLIConfig::getInstance().initCommandLineArgs(), true); (void) once; const char* a[] = { "x" }; CLIConfig::getInstance().getCLIApp().parse (1, a); std::ostringstream s; s << x; return s.str(); }
"""
SEEDS += [
dict(id='s17f', property='P17', needs='a task that fails an expectation and then raises an error', breaks='its report shows the error only',
     edits=[(RP, '                std::cout << separator << std::endl << expectationFailureMessage << std::endl;\n', '                if (! assertionFailed)\n                    std::cout << separator << std::endl << expectationFailureMessage << std::endl;\n')],
     demo=RUN + """static void both() { ExpectationFailureMessages::get().emplace_back ("first reason"); throw std::runtime_error ("second reason"); }
int main() { add ("a", both); REQUIRE (runAll() != 0); REQUIRE (said ("first reason")); REQUIRE (said ("second reason")); }
"""),
dict(id='s17g', property='P17', needs='a random seed given without --shuffle', breaks='tasks are shuffled although that was not asked for',
     edits=[(RP, 'if (CLIConfig::getInstance().shouldShuffleTasks())', 'if (CLIConfig::getInstance().shouldShuffleTasks() || CLIConfig::getInstance().getRandomSeed() != 0)')],
     demo=RUN + """#include <vector>
static std::vector<int> order;
template <int N> static void t() { order.push_back (N); }
int main() { const char* a[] = { "x", "--seed", "7" }; CLIConfig::getInstance().initCommandLineArgs(); CLIConfig::getInstance().getCLIApp().parse (3, a);
  add ("a", t<0>); add ("b", t<1>); add ("c", t<2>); add ("d", t<3>); add ("e", t<4>); add ("f", t<5>); REQUIRE (runAll() == 0); REQUIRE ((order == std::vector<int> { 0, 1, 2, 3, 4, 5 })); }
"""),
dict(id='s23a', property='P23', needs='a parameter changed after construction', breaks='GainDb describes itself with the gain it has by now',
     edits=[('include/dsp/hart_gaindb.hpp', '"GainDb (" << m_initialGainDb << "_dB)"', '"GainDb (" << ratioToDecibels (m_gainLinear) << "_dB)"')],
     demo=TEXT + """int main() { GainDb<float> g (-3.0); g.setValue (GainDb<float>::gainDb, -9.0); REQUIRE (text (g) == "GainDb (-3.0_dB)"); }
"""),
dict(id='s23b', property='P23', needs='a different number of decimals for hertz and seconds (the default)', breaks='the duration of a sweep is shown with the decimals of frequencies',
     edits=[('include/signals/hart_sine_sweep.hpp', '            << secPrecision\n            << m_durationSeconds << "_s, "\n            << hzPrecision\n', '            << hzPrecision\n            << m_durationSeconds << "_s, "\n')],
     demo=TEXT + """int main() { SineSweep<float> s (0.125, 100.0, 200.0); REQUIRE (text (s).find ("0.125_s") != std::string::npos); }
"""),
dict(id='s23c', property='P23', needs='a reference signal with effects', breaks='EqualsTo shows its reference signal without the effects',
     edits=[('include/matchers/hart_equalsto.hpp', '        stream << "EqualsTo (" << *m_referenceSignal\n            << linPrecision', '        stream << "EqualsTo (";\n        m_referenceSignal->represent (stream);\n        stream << linPrecision')],
     demo=TEXT + """int main() { Silence<float> s; s.followedBy (GainDb<float> (-3.0)); REQUIRE (text (EqualsTo<float> (s, 0.5)).find ("GainDb (-3.0_dB)") != std::string::npos); }
"""),
dict(id='s23d', property='P23', needs='a tolerance that is not a multiple of the last decibel digit', breaks='PeaksAt shows its tolerance with the decimals of levels',
     edits=[('include/matchers/hart_peaksat.hpp', '            << linPrecision << m_toleranceLinear << \')\';', '            << m_toleranceLinear << \')\';')],
     demo=TEXT + """int main() { REQUIRE (text (PeaksAt<double> (-3.0, 0.015625)).find ("0.015625") != std::string::npos); }
"""),
dict(id='s23e', property='P23', needs='a signal with three effects or more', breaks='the text of a signal leaves out its middle effects',
     edits=[('include/signals/hart_signal.hpp', '        for (const auto& dsp : dspChain)\n            stream << " >> " << *dsp;', '        for (const auto& dsp : dspChain)\n            if (dsp == dspChain.front() || dsp == dspChain.back())\n                stream << " >> " << *dsp;')],
     demo=TEXT + """int main() { Silence<float> s; s.followedBy (GainDb<float> (-3.0)); s.followedBy (GainDb<float> (-4.0)); s.followedBy (GainDb<float> (-5.0)); REQUIRE (text (s).find ("GainDb (-4.0_dB)") != std::string::npos); }
"""),
dict(id='s08c', property='P08', needs='reading the threshold back', breaks='getValue tells the linear threshold instead of decibels',
     edits=[('include/dsp/hart_hardclip.hpp', '            return ratioToDecibels (m_thresholdLinear);', '            return m_thresholdLinear;')],
     demo=TEXT + """int main() { HardClip<float> h (-6.0); REQUIRE (h.getValue (HardClip<float>::thresholdDb) < -5.99); }
"""),
]
