#include "common.hpp"
using namespace hart;
namespace H {

static double ratio (double db) { return db < -120 ? 0.0 : std::pow (10.0, db / 20.0); }

template <typename T, template <class> class Fx> void one (bool isDb)
{
    const double tol = sizeof (T) == 4 ? 3e-7 : 1e-13;
    const size_t ni = channelCount(), no = coin (60) ? ni : channelCount(), n = frameCount(), maxB = std::max<size_t> (1, n + (coin() ? 0 : pick (0, 20)));
    const double g0 = isDb ? (coin (10) ? -200.0 : coin(8) ? -120.0 : uni (-60, 24)) : (coin (10) ? 0.0 : uni (-3, 3));
    const bool viaSet = coin(), automated = coin (50), inPlace = ni == no && coin (30), unknownId = coin (30);
    const double g1 = isDb ? (coin (10) ? -120.1 : uni (-70, 12)) : uni (-2, 2);
    const double g = viaSet ? g1 : g0;
    begin (std::string (isDb ? "GainDb<" : "GainLinear<") + (sizeof (T) == 4 ? "float" : "double") + "> in=" + str (ni) + " out=" + str (no) + " frames=" + str (n)
           + " gain=" + str (g) + (viaSet ? " set by setValue" : "") + (automated ? " automated" : "") + (inPlace ? " in place" : "") + (unknownId ? " unknown id set" : "") + " max block=" + str (maxB));
    const int ID = isDb ? (int) GainDb<T>::gainDb : (int) GainLinear<T>::gainLinear;
    Fx<T> fx (g0);
    const double before = fx.getValue (ID);
    check (isDb ? (g0 < -120 ? before <= -119.9 : closeTo (before, g0, 1e-9)) : before == g0, "getValue() after construction");
    if (viaSet) { fx.setValue (ID, g1); check (isDb ? (g1 < -120 ? fx.getValue (ID) <= -119.9 : closeTo (fx.getValue (ID), g1, 1e-9)) : fx.getValue (ID) == g1, "getValue() after setValue()"); }
    if (unknownId) { fx.setValue (ID + pick (1, 9), uni (-5, 5)); fx.setValue (ID - pick (1, 9), uni (-5, 5)); check (fx.getValue (ID + pick (1, 9)) == 0 && fx.getValue (ID - pick (1, 9)) == 0, "getValue() of an unknown id is 0"); }
    for (int id = -3; id < 6; ++id) check (fx.supportsEnvelopeFor (id) == (id == ID), "supportsEnvelopeFor(" + str (id) + ")");
    for (size_t a = 0; a < 6; ++a) for (size_t b = 0; b < 6; ++b) check (fx.supportsChannelLayout (a, b) == (a == b || a == 1), "supportsChannelLayout");
    if (automated) fx.withEnvelope (ID, SegmentedEnvelope (0.0));
    fx.prepareWithEnvelopes (44100.0, ni, no, maxB);
    fx.resetWithEnvelopes();
    const int rounds = pick (1, 3);
    for (int r = 0; r < rounds; ++r)
    {
        const size_t m = r == 0 ? n : (size_t) pick (0, (int) maxB);
        const auto x = randomTable<T> (ni, m);
        const auto y0 = randomTable<T> (no, m, false, false);
        AudioBuffer<T> in = buffer (x, ni, m), out = buffer (y0, no, m);
        std::unordered_map<int, std::vector<double>> env;
        if (automated)
        {
            std::vector<double> v (maxB);
            const bool plateaus = coin (40);
            const double level[2] = { uni (-20, 2), uni (-2, 2) };
            for (auto& e : v) e = plateaus ? level[rnd() % 2] : isDb ? (coin (10) ? uni (-130, -110) : uni (-60, 20)) : uni (-2, 2);
            env[ID] = v;
        }
        else if (coin (20)) env[ID + 7] = std::vector<double> (maxB, 0.3);
        const bool ok = ni == no || ni == 1;
        const std::string e = thrown ([&] { if (inPlace) fx.process (in, in, env); else fx.process (in, out, env); });
        check (ok ? e.empty() : e == "ChannelLayoutError", "unsupported layouts, and only they, are refused (got '" + e + "')");
        const auto y = table (inPlace ? in : out);
        if (! ok) { check (sameTable (y, y0), "a refused layout leaves the output untouched"); continue; }
        check (y.size() == no, "channel count of the output");
        for (size_t c = 0; c < no; ++c)
        {
            check (y[c].size() == m, "frame count of the output");
            for (size_t f = 0; f < m; ++f)
            {
                const T s = ni == no ? x[c][f] : x[0][f];
                const double gain = automated ? (isDb ? ratio (env[ID][f]) : env[ID][f]) : (isDb ? ratio (g) : g);
                const T want = s * (T) gain;
                const bool good = isDb ? (sameValue (want, y[c][f]) || std::fabs ((double) want - (double) y[c][f]) <= tol * std::fabs ((double) want) + (double) std::numeric_limits<T>::min())
                                       : sameValue (want, y[c][f]);
                check (good, "channel " + str (c) + " frame " + str (f) + " (block " + str (r) + "): input " + str (s) + " gain " + str (gain) + " expected " + str (want) + " got " + str (y[c][f]));
            }
        }
        if (! inPlace) check (sameTable (table (in), x), "the input is untouched");
        if (coin (30)) fx.reset();
        if (coin (20)) fx.setValue (ID + pick (1, 5), 0.25);
    }
    check (isDb ? (g < -120 ? fx.getValue (ID) <= -119.9 : closeTo (fx.getValue (ID), g, 1e-9)) : fx.getValue (ID) == g, "the gain is still the one set");
}

void run()
{
    for (int i = 0; i < 1500 * g_scale; ++i)
    {
        one<float, GainLinear> (false); one<double, GainLinear> (false);
        one<float, GainDb> (true); one<double, GainDb> (true);
    }
}
}
