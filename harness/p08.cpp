#include "common.hpp"
using namespace hart;
namespace H {

static double ratio (double db) { return db < -120 ? 0.0 : std::pow (10.0, db / 20.0); }

template <typename T> void one()
{
    const size_t ni = channelCount(), no = coin (80) ? ni : channelCount(), n = frameCount();
    const double d0 = coin (10) ? -300.0 : coin (10) ? 0.0 : uni (-40, 12), d1 = coin (10) ? -121.0 : uni (-40, 12);
    const bool viaSet = coin(), inPlace = ni == no && coin (40), unknown = coin (30);
    const double db = viaSet ? d1 : d0;
    begin (std::string ("HardClip<") + (sizeof (T) == 4 ? "float" : "double") + "> in=" + str (ni) + " out=" + str (no) + " frames=" + str (n) + " threshold dB=" + str (db)
           + (viaSet ? " by setValue" : "") + (inPlace ? " in place" : "") + (unknown ? " unknown id set" : ""));
    const int ID = HardClip<T>::thresholdDb;
    HardClip<T> fx (d0);
    if (viaSet) fx.setValue (ID, d1);
    if (unknown) { fx.setValue (ID + pick (1, 9), uni (-5, 5)); fx.setValue (ID - pick (1, 9), -3.0); check (fx.getValue (ID + pick (1, 9)) == 0 && fx.getValue (ID - pick (1, 9)) == 0, "getValue() of an unknown id is 0"); }
    check (db < -120 ? fx.getValue (ID) <= -119.9 : closeTo (fx.getValue (ID), db, 1e-9), "getValue() tells the threshold: " + str (fx.getValue (ID)));
    for (int id = -3; id < 6; ++id) check (! fx.supportsEnvelopeFor (id), "no parameter accepts automation");
    for (size_t a = 0; a < 6; ++a) for (size_t b = 0; b < 6; ++b) check (fx.supportsChannelLayout (a, b) == (a == b), "supportsChannelLayout");
    fx.prepareWithEnvelopes (44100.0, ni, no, std::max<size_t> (n, 1));
    fx.resetWithEnvelopes();
    const double th = ratio (db);
    const T t = (T) th;
    const double eps = (sizeof (T) == 4 ? 3e-7 : 1e-13) * th;
    for (int r = 0; r < 2; ++r)
    {
        auto x = randomTable<T> (ni, n);
        for (auto& c : x) for (auto& s : c)   // samples at and around the threshold
        {
            if (coin (6)) s = t; else if (coin (6)) s = -t; else if (coin (4)) s = std::nextafter (t, (T) 0); else if (coin (4)) s = -std::nextafter (t, (T) 1e9);
        }
        const auto y0 = randomTable<T> (no, n, false, false);
        AudioBuffer<T> in = buffer (x, ni, n), out = buffer (y0, no, n);
        const std::string e = thrown ([&] { if (inPlace) fx.process (in, in, {}); else fx.process (in, out, {}); });
        check (ni == no ? e.empty() : e == "ChannelLayoutError", "layouts with different channel counts, and only they, are refused (got '" + e + "')");
        const auto y = table (inPlace ? in : out);
        if (ni != no) { check (sameTable (y, y0), "a refused layout leaves the output untouched"); continue; }
        for (size_t c = 0; c < no; ++c)
            for (size_t f = 0; f < n; ++f)
            {
                const T s = x[c][f], o = y[c][f];
                const std::string at = "channel " + str (c) + " frame " + str (f) + " input " + str (s) + " output " + str (o) + " threshold " + str (t);
                if (s != s) continue;
                if (std::fabs ((double) s) <= th - eps) check (sameValue (s, o), "unclipped sample changed: " + at);
                else if (std::fabs ((double) s) >= th + eps) check (std::fabs ((double) o) <= th + eps && std::fabs ((double) o) >= th - eps && (o == 0 || std::signbit (o) == std::signbit (s)), "clipped sample is not the nearest threshold: " + at);
                else check (std::fabs ((double) o - (double) s) <= 2 * eps, "sample at the threshold: " + at);
            }
        if (! inPlace) check (sameTable (table (in), x), "the input is untouched");
        if (coin (30)) fx.reset();
    }
}

void run()
{
    for (int i = 0; i < 2500 * g_scale; ++i) { one<float>(); one<double>(); }
}
}
