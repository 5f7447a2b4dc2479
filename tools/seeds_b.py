E_ = 'include/matchers/hart_equalsto.hpp'
PA = 'include/matchers/hart_peaksat.hpp'
PB = 'include/matchers/hart_peaksbelow.hpp'
SIG = '''
template <typename T> struct Tab : Signal<T>
{
  using SampleType = T;
  std::vector<std::vector<T>> t; size_t pos = 0;
  Tab (std::vector<std::vector<T>> x) : t (x) {}
  bool supportsNumChannels (size_t) const override { return true; }
  void prepare (double, size_t, size_t) override {}
  void renderNextBlock (AudioBuffer<T>& b) override { for (size_t c = 0; c < b.getNumChannels(); ++c) for (size_t f = 0; f < b.getNumFrames(); ++f) b[c][f] = t[c][pos + f]; pos += b.getNumFrames(); }
  void reset() override { pos = 0; }
  void represent (std::ostream&) const override {}
  std::unique_ptr<Signal<T>> copy() const override { return std::unique_ptr<Signal<T>> (new Tab (*this)); }
  std::unique_ptr<Signal<T>> move() override { return std::unique_ptr<Signal<T>> (new Tab (std::move (*this))); }
};
template <typename T> AudioBuffer<T> buf (std::vector<std::vector<T>> t)
{
  AudioBuffer<T> b (t.size(), t[0].size());
  for (size_t c = 0; c < t.size(); ++c) for (size_t f = 0; f < t[0].size(); ++f) b[c][f] = t[c][f];
  return b;
}
'''
SEEDS = [
dict(id='s02a', property='P02', needs='a mismatch at the last frame of a channel that is not the last one',
     breaks='the last frame of every channel but the last is not compared',
     edits=[(E_, 'frame < referenceAudio.getNumFrames(); ++frame)', 'frame + (channel + 1 < referenceAudio.getNumChannels() ? 1 : 0) < referenceAudio.getNumFrames(); ++frame)')],
     demo=SIG + '''int main() {
  EqualsTo<float> m (Tab<float> ({{0, 0, 0}, {0, 0, 0}}));
  m.prepare (44100.0, 2, 3); m.reset();
  REQUIRE (! m.match (buf<float> ({{0, 0, 1}, {0, 0, 0}})));
}
'''),
dict(id='s02b', property='P02', needs='a tolerance of full scale or more and a silent block before a non-silent one',
     breaks='silent audio is accepted without advancing the reference, so that later blocks are compared with the wrong part of it',
     edits=[(E_, '''        auto referenceAudio = AudioBuffer<SampleType>::emptyLike (observedAudio);
        m_referenceSignal->''', '''        auto referenceAudio = AudioBuffer<SampleType>::emptyLike (observedAudio);

        if (m_toleranceLinear >= (SampleType) 1 && observedAudio.getMagnitude (0, observedAudio.getNumFrames()) == (SampleType) 0)
            return true;  // Silence is close enough to anything within full scale

        m_referenceSignal->''')],
     demo=SIG + '''int main() {
  EqualsTo<double> m (Tab<double> ({{0, 0, 3, 3}}), 1.0);
  m.prepare (44100.0, 1, 2); m.reset();
  REQUIRE (m.match (buf<double> ({{0, 0}})));
  REQUIRE (m.match (buf<double> ({{3, 3}})));
}
'''),
dict(id='s02c', property='P02', needs='a rejected block of more than one channel, failing in a channel other than 0',
     breaks='the expected value of the report is taken from the first channel of the reference',
     edits=[(E_, 'm_failedExpectedValue = referenceAudio[channel][frame];', 'm_failedExpectedValue = referenceAudio[0][frame];')],
     demo=SIG + '''int main() {
  EqualsTo<float> m (Tab<float> ({{1.0f}, {3.0f}}));
  m.prepare (44100.0, 2, 1); m.reset();
  REQUIRE (! m.match (buf<float> ({{1.0f}, {1.0f}})));
  REQUIRE (m.getFailureDetails().description.find ("sample value: 3") != std::string::npos);
}
'''),
dict(id='s03a', property='P03', needs='a signal whose peak occurs in a later channel and is negative',
     breaks='PeaksAt compares channels after the first by their signed value',
     edits=[(PA, 'const SampleType currentPeakLinear = std::abs (observedAudio[channel][frame]);', 'const SampleType currentPeakLinear = channel == 0 ? std::abs (observedAudio[channel][frame]) : observedAudio[channel][frame];')],
     demo=SIG + '''int main() {
  PeaksAt<float> m (0.0);
  REQUIRE (m.match (buf<float> ({{0.0f, 0.5f}, {0.25f, -1.0f}})));
}
'''),
dict(id='s03b', property='P03', needs='more than one frame above the peak position, the largest sample preceded by a larger-than-threshold one; position of the report',
     breaks='PeaksAt reports the first frame at which the channel exceeded half of the peak instead of the peak itself',
     edits=[(PA, '''                    observedPeakLinear = currentPeakLinear;
                    frameOfObservedPeakLinear = frame;''', '''                    if (currentPeakLinear > (SampleType) 2 * observedPeakLinear || channel != channelOfObservedPeakLinear)
                        frameOfObservedPeakLinear = frame;

                    observedPeakLinear = currentPeakLinear;''')],
     demo=SIG + '''int main() {
  PeaksAt<double> m (-20.0);
  REQUIRE (! m.match (buf<double> ({{0.5, 0.6, 0.1}})));
  REQUIRE (m.getFailureDetails().frame == 1);
}
'''),
dict(id='s03c', property='P03', needs='a block whose loud sample is the last one of an odd-length channel',
     breaks='PeaksBelow inspects samples in pairs and forgets the odd one at the end of a channel',
     edits=[(PB, 'for (size_t frame = 0; frame < observedAudio.getNumFrames(); ++frame)', 'for (size_t frame = 0; frame < observedAudio.getNumFrames() - (observedAudio.getNumFrames() > 1 ? observedAudio.getNumFrames() % 2 : 0); ++frame)')],
     demo=SIG + '''int main() {
  PeaksBelow<float> m (-6.0);
  REQUIRE (! m.match (buf<float> ({{0.0f, 0.0f, 1.0f}})));
}
'''),
]
