"""The translation unit whose AST is verified: it includes the real headers and only forces instantiation."""
from .frontend import Unit

CLASSES = ['AudioBuffer', 'DSP', 'Signal', 'Matcher', 'GainDb', 'GainLinear', 'HardClip', 'Silence', 'SineWave', 'SineSweep', 'WhiteNoise',
           'WavFile', 'PeaksAt', 'PeaksBelow', 'EqualsTo', 'WavWriter']


def main_source():
    s = ['#include "hart.hpp"', 'namespace hart {']
    for t in ('float', 'double'):
        for c in CLASSES:
            s.append('template class %s<%s>;' % (c, t))
    s.append('inline void verif_driver() {')
    for t in ('float', 'double'):
        s.append('''{ AudioTestBuilder<%(t)s> b (std::unique_ptr<DSP<%(t)s>> (new GainDb<%(t)s>()));
  b.withSampleRate (1.0).withBlockSize (1).withValue (0, 0.0).withDuration (1.0).withInputSignal (Silence<%(t)s>())
   .withInputChannels (1).withOutputChannels (1).withStereoInput().withStereoOutput().withMonoInput().withMonoOutput().inMono().inStereo()
   .expectTrue (PeaksAt<%(t)s> (0)).expectFalse (PeaksAt<%(t)s> (0)).assertTrue (PeaksAt<%(t)s> (0)).assertFalse (PeaksAt<%(t)s> (0))
   .saveOutputTo ("x").savePlotTo ("x").withLabel ("x");
  { PeaksAt<%(t)s> m (0); const PeaksAt<%(t)s> k (0); const Matcher<%(t)s>& r = m;
    b.expectTrue (m).expectTrue (k).expectTrue (r).expectFalse (m).expectFalse (k).expectFalse (r)
     .assertTrue (m).assertTrue (k).assertTrue (r).assertFalse (m).assertFalse (k).assertFalse (r); }
  { GainDb<%(t)s> g; const GainDb<%(t)s> k; const DSP<%(t)s>& r = g; Silence<%(t)s> q;
    processAudioWith (g); processAudioWith (k); processAudioWith (std::move (g)); processAudioWith (std::unique_ptr<GainDb<%(t)s>> (new GainDb<%(t)s>()));
    AudioTestBuilder<%(t)s> x (g), y (k), z (r), u (std::move (g)); }
  b.process();
  { Silence<%(t)s> s; GainDb<%(t)s> g; const GainDb<%(t)s> k; Signal<%(t)s>& r = s; const DSP<%(t)s>& d = g;
    s.followedBy (g); s.followedBy (k); s.followedBy (std::move (g)); s.followedBy (d); s.followedBy (std::unique_ptr<DSP<%(t)s>> (new GainDb<%(t)s>()));
    r >> d; std::move (r) >> d; r >> std::unique_ptr<DSP<%(t)s>> (new GainDb<%(t)s>()); std::move (r) >> std::unique_ptr<DSP<%(t)s>> (new GainDb<%(t)s>()); }
  AudioBuffer<%(t)s> i, o; plotData (i, o, 1.0, std::string());
  %(t)s x = (%(t)s) 1;
  decibelsToRatio (x); ratioToDecibels (x); clamp (x, x, x); floatsEqual (x, x); floatsNotEqual (x, x); roundToSizeT (x); wrapPhase (x);
}''' % {'t': t})
    s.append('toAbsolutePath (std::string()); TestRegistry::getInstance(); }')
    s.append('}')
    return '\n'.join(s) + '\n'


def units_source():
    """the unit literals are global; including their header inside the namespace makes them part of the filtered AST"""
    return '#include "hart_utils.hpp"\nnamespace hart {\n#include "hart_units.hpp"\n}\n'


def macros_source():
    """the macros of the public interface, each used once in a function or at namespace scope"""
    return '''#include "hart.hpp"
namespace hart {
inline void verif_expect (bool observed) { HART_EXPECT_TRUE (observed) }
inline void verif_assert (bool observed) { HART_ASSERT_TRUE (observed) }
inline void verif_fail() { HART_FAIL_TEST(); }
inline void verif_fail_msg (const std::string& why) { HART_FAIL_TEST_MSG (why); }
inline int verif_main (int argc, char** argv) { HART_RUN_ALL_TESTS (argc, argv) }
inline void verif_needs_data() { HART_REQUIRES_DATA_PATH_ARG }
HART_TEST ("first name") { HART_EXPECT_TRUE (false) }
HART_TEST_WITH_TAGS ("second name", "second tags") { HART_EXPECT_TRUE (false) }
HART_GENERATE ("third name") { HART_EXPECT_TRUE (false) }
HART_GENERATE_WITH_TAGS ("fourth name", "fourth tags") { HART_EXPECT_TRUE (false) }
}
'''


_unit = {}
SOURCES = {'main': main_source, 'units': units_source, 'macros': macros_source}


def unit(name='main'):
    if name not in _unit:
        _unit[name] = Unit(SOURCES[name]())
    return _unit[name]
