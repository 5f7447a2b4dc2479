G = 'include/dsp/hart_gainlinear.hpp'
D = 'include/dsp/hart_gaindb.hpp'
C = 'include/dsp/hart_hardclip.hpp'
SEEDS = [
dict(id='s07a', property='P07', needs='an automated GainLinear fed with mono and producing several channels, automation that changes within a block',
     breaks='the automated mono-to-many path uses the automation value of the previous frame for every channel after the first',
     edits=[(G, 'output[channel][frame] = input[0][frame] * (SampleType) gainEnvelopeValues[frame];',
                'output[channel][frame] = input[0][frame] * (SampleType) gainEnvelopeValues[channel > 0 && frame > 0 ? frame - 1 : frame];')],
     demo='''int main() {
  GainLinear<float> g (1.0);
  AudioBuffer<float> in (1, 4), out (2, 4);
  for (int i = 0; i < 4; ++i) in[0][i] = 1.0f;
  std::unordered_map<int, std::vector<double>> e; e[0] = {1.0, 2.0, 3.0, 4.0};
  g.process (in, out, e);
  for (int c = 0; c < 2; ++c) for (int i = 0; i < 4; ++i) REQUIRE (out[c][i] == (float) (i + 1));
}
'''),
dict(id='s07b', property='P07', needs='a GainDb automated with a value that equals the one before it inside a block after a different first value',
     breaks='automation values are converted to linear gain only when they differ from the first value of the block',
     edits=[(D, 'm_gainEnvelopeValuesLinear[i] = decibelsToRatio (gainEnvelopeValuesDb[i]);',
                'if (i == 0 || gainEnvelopeValuesDb[i] != gainEnvelopeValuesDb[0])\n                    m_gainEnvelopeValuesLinear[i] = decibelsToRatio (gainEnvelopeValuesDb[i]);')],
     demo='''int main() {
  GainDb<double> g (0.0);
  g.withEnvelope (0, SegmentedEnvelope (0.0));
  g.prepareWithEnvelopes (44100.0, 1, 1, 3);
  AudioBuffer<double> in (1, 3), out (1, 3);
  for (int i = 0; i < 3; ++i) in[0][i] = 1.0;
  std::unordered_map<int, std::vector<double>> e;
  for (int k = 0; k < 2; ++k) {
    e[0] = {-20.0, k == 0 ? 0.0 : -20.0, -20.0};
    g.process (in, out, e);
    for (int i = 0; i < 3; ++i) REQUIRE (std::abs (out[0][i] - std::pow (10.0, e[0][i] / 20.0)) < 1e-9);
  }
}
'''),
dict(id='s07c', property='P07', needs='a value set for a parameter id the effect does not have',
     breaks='GainDb takes values of unknown negative parameter ids as its gain',
     edits=[(D, '''    void setValue (int id, double value) override
    {
        if (id == Params::gainDb)''', '''    void setValue (int id, double value) override
    {
        if (id <= Params::gainDb)''')],
     demo='''int main() {
  GainDb<float> g (0.0);
  g.setValue (-1, -40.0);
  AudioBuffer<float> in (1, 1), out (1, 1); in[0][0] = 0.5f;
  g.process (in, out, {});
  REQUIRE (out[0][0] == 0.5f);
}
'''),
dict(id='s08a', property='P08', needs='a low threshold and a negative sample whose magnitude is more than a thousand times the threshold',
     breaks='very large negative samples are clipped to the positive threshold',
     edits=[(C, 'output[channel][frame] = std::min (std::max (input[channel][frame], (SampleType) -m_thresholdLinear), (SampleType) m_thresholdLinear);',
                '''{
                const SampleType x = input[channel][frame];
                const SampleType t = (SampleType) m_thresholdLinear;
                output[channel][frame] = std::abs (x) <= t ? x : (x > 0 || x < -1000 * t ? t : -t);
            }''')],
     demo='''int main() {
  HardClip<float> h (-60.0);
  AudioBuffer<float> in (1, 2), out (1, 2); in[0][0] = -0.5f; in[0][1] = -1.5f;
  h.process (in, out, {});
  REQUIRE (std::abs (out[0][0] + 0.001f) < 1e-6f);
  REQUIRE (std::abs (out[0][1] + 0.001f) < 1e-6f);
}
'''),
dict(id='s08b', property='P08', needs='a threshold set after construction',
     breaks='a threshold set with setValue() is converted with the power ratio and later used as if it were the amplitude ratio when it is above 0 dB',
     edits=[(C, '''            m_thresholdLinear = decibelsToRatio (value);''', '''            m_thresholdLinear = value > 0.0 ? decibelsToRatio (value / 2.0) : decibelsToRatio (value);''')],
     demo='''int main() {
  HardClip<double> h;
  h.setValue (0, 6.0);
  AudioBuffer<double> in (1, 1), out (1, 1); in[0][0] = 1.9;
  h.process (in, out, {});
  REQUIRE (out[0][0] == 1.9);
}
'''),
]
