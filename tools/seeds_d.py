SW = 'include/signals/hart_sinewave.hpp'
WN = 'include/signals/hart_whitenoise.hpp'
SEEDS = [
dict(id='s11b', property='P11', needs='noise with more than one channel and a block split', breaks='white noise draws whole channels instead of frames, so the audio depends on the block size',
     edits=[(WN, '''        for (size_t frame = 0; frame < output.getNumFrames(); ++frame)
            for (size_t channel = 0; channel < this->getNumChannels(); ++channel)
''', '''        for (size_t channel = 0; channel < this->getNumChannels(); ++channel)
            for (size_t frame = 0; frame < output.getNumFrames(); ++frame)
''')],
     demo='''int main() {
  WhiteNoise<float> a (7), b (7);
  a.prepareWithDSPChain (44100.0, 2, 4); b.prepareWithDSPChain (44100.0, 2, 4);
  AudioBuffer<float> x (2, 4), y (2, 2);
  a.renderNextBlock (x); b.renderNextBlock (y);
  REQUIRE (x[0][1] == y[0][1]); REQUIRE (x[1][0] == y[1][0]);
}
'''),
dict(id='s11c', property='P11', needs='a wave with a start phase, prepared again after it has been rendered or reset', breaks='preparing a sine wave for another sample rate throws its start phase away',
     edits=[(SW, '''        m_sampleRateHz = sampleRateHz;
''', '''        if (m_sampleRateHz > 0 && m_sampleRateHz != sampleRateHz)
            m_phaseRadians = 0;

        m_sampleRateHz = sampleRateHz;
'''), (SW, 'double m_sampleRateHz;', 'double m_sampleRateHz = 0;')],
     demo='''int main() {
  SineWave<double> s (1000.0, 1.0);
  s.reset(); s.prepareWithDSPChain (44100.0, 1, 1); s.reset(); s.prepareWithDSPChain (48000.0, 1, 1);
  AudioBuffer<double> b (1, 1); s.renderNextBlockWithDSPChain (b);
  REQUIRE (std::abs (b[0][0] - std::sin (1.0)) < 1e-9);
}
'''),
]
WF = 'include/signals/hart_wavfile.hpp'
WAVSIG = '''
#include <fstream>
#include <cstdint>
#include <cstring>
static void put (std::string& s, uint32_t v, int n) { for (int i = 0; i < n; ++i) s += (char) ((v >> (8 * i)) & 255); }
static std::string wav (std::vector<std::vector<float>> t)
{
  const uint32_t nc = t.size(), n = t[0].size();
  std::string s = "RIFF"; put (s, 36 + n * nc * 4, 4); s += "WAVEfmt "; put (s, 16, 4); put (s, 3, 2); put (s, nc, 2); put (s, 44100, 4); put (s, 44100 * nc * 4, 4); put (s, nc * 4, 2); put (s, 32, 2);
  s += "data"; put (s, n * nc * 4, 4);
  for (uint32_t f = 0; f < n; ++f) for (uint32_t c = 0; c < nc; ++c) { uint32_t u; std::memcpy (&u, &t[c][f], 4); put (s, u, 4); }
  std::ofstream o ("x.wav", std::ios::binary); o << s; o.close();
  char cwd[4096]; if (! getcwd (cwd, sizeof cwd)) return "";
  return std::string (cwd) + "/x.wav";
}
'''
SEEDS += [
dict(id='s13a', property='P13', needs='a looping file whose end falls exactly on the end of a block', breaks='the wrap around happens at the start of a loop pass only, so a block that ends with the last frame leaves the player at the end and the next block fails or is silent',
     edits=[(WF, '''            ++frameInOutputBuffer;
            ++frameInWavBuffer;
            ++m_wavOffsetFrames;

            if (m_loop == Loop::yes)
            {''', '''            ++frameInOutputBuffer;
            ++frameInWavBuffer;
            ++m_wavOffsetFrames;

            if (m_loop == Loop::yes && frameInOutputBuffer < numFrames)
            {'''), (WF, '            hassert (m_loop == Loop::no);\n\n', '')],
     demo='#include <unistd.h>\n' + WAVSIG + '''int main() {
  WavFile<float> w (wav ({{1, 2}}), WavFile<float>::Loop::yes);
  w.prepareWithDSPChain (44100.0, 1, 2);
  AudioBuffer<float> b (1, 2);
  for (int i = 0; i < 3; ++i) { w.renderNextBlock (b); REQUIRE (b[0][0] == 1 && b[0][1] == 2); }
}
'''),
dict(id='s13c', property='P13', needs='a file of another sample rate that differs by less than one hertz', breaks='sample rates are compared as whole numbers',
     edits=[(WF, 'if (floatsNotEqual (sampleRateHz, m_wavSampleRateHz))', 'if (roundToSizeT (sampleRateHz) != roundToSizeT (m_wavSampleRateHz))')],
     demo='#include <unistd.h>\n' + WAVSIG + '''int main() {
  WavFile<float> w (wav ({{1}}));
  bool refused = false;
  try { w.prepareWithDSPChain (44100.25, 1, 1); } catch (const std::exception&) { refused = true; }
  REQUIRE (refused);
}
'''),
]
