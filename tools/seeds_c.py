U = 'include/hart_utils.hpp'
SEEDS = [
dict(id='s16a', property='P16', needs='a level of exactly -120 dB', breaks='-120 dB is converted to zero instead of 1e-6',
     edits=[(U, 'if (valueDb < -120)', 'if (valueDb <= -120)')],
     demo='''int main() { REQUIRE (decibelsToRatio (-120.0) > 0.9e-6); REQUIRE (decibelsToRatio (-121.0) == 0.0); }
'''),
dict(id='s16c', property='P16', needs='a phase a tiny bit below a multiple of 2 pi', breaks='tiny negative phases are not wrapped into 0..2*pi',
     edits=[(U, 'if (wrappedPhaseRadians < 0.0)', 'if (wrappedPhaseRadians < -std::numeric_limits<SampleType>::epsilon())')],
     demo='''int main() { REQUIRE (wrapPhase (-1.0e-17) >= 0.0); REQUIRE (wrapPhase (-1.0e-3) >= 0.0); REQUIRE (wrapPhase (7.0) < twoPi); }
'''),
]
