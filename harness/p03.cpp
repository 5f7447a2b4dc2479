#include "common.hpp"
using namespace hart;
namespace H {

static double ratio (double db) { return db < -120 ? 0.0 : std::pow (10.0, db / 20.0); }

template <typename T> void one()
{
    const size_t nc = channelCount(), nf = coin (3) ? 0 : std::max<size_t> (1, frameCount());
    const int kind = pick (0, 9);
    Table<T> x (nc, std::vector<T> (nf));
    const double peak = coin (10) ? 0.0 : std::pow (10.0, uni (-3, 0.3));
    for (auto& c : x) for (auto& s : c) s = (T) uni (-peak, peak);
    double maxAbs = 0;
    if (kind >= 3 && nf) { x[rnd() % nc][rnd() % nf] = (T) (coin() ? peak : -peak); if (coin (20)) x[rnd() % nc][rnd() % nf] = (T) -peak; }
    if (kind == 8 && nf) x[rnd() % nc][rnd() % nf] = std::numeric_limits<T>::quiet_NaN();
    if (kind == 9 && nf && coin()) x[rnd() % nc][rnd() % nf] = std::numeric_limits<T>::infinity() * (coin() ? 1 : -1);
    bool nan = false;
    for (auto& c : x) for (auto& s : c) { if (s != s) nan = true; else maxAbs = std::max (maxAbs, std::fabs ((double) s)); }
    const double tol = coin() ? 1e-3 : std::pow (10.0, uni (-5, -0.5));
    // targets around the real peak
    double targetLin = std::isinf (maxAbs) ? 1.0 : maxAbs + (coin() ? 1 : -1) * tol * (coin() ? uni (0, 0.98) : uni (1.02, 2.5));
    if (targetLin < 2e-6) targetLin = 2e-6;
    if (coin (10)) targetLin = std::pow (10.0, uni (-2, 1));
    const double db = 20 * std::log10 (targetLin);
    const double lin = (double) (T) ratio (db), t = (double) (T) tol;
    begin (std::string (sizeof (T) == 4 ? "float" : "double") + " channels=" + str (nc) + " frames=" + str (nf) + " peak=" + str (maxAbs) + " target=" + str (lin) + " tolerance=" + str (tol) + (nan ? " with NaN" : ""));
    const AudioBuffer<T> b = buffer (x, nc, nf);
    const double slack = (sizeof (T) == 4 ? 4e-7 : 1e-12) * (1 + lin + (std::isinf (maxAbs) ? 0 : maxAbs));
    {
        PeaksAt<T> m (db, tol);
        check (! m.canOperatePerBlock(), "PeaksAt wants the full signal");
        m.prepare (44100.0, nc, std::max<size_t> (1, nf)); m.reset();
        const bool r = m.match (b);
        if (nan) check (! r, "PeaksAt accepted audio with a NaN");
        else
        {
            const double dev = std::fabs (maxAbs - lin);
            if (dev < t - slack) check (r, "PeaksAt rejected audio whose peak is within the tolerance");
            if (dev > t + slack) check (! r, "PeaksAt accepted audio whose peak is not within the tolerance");
        }
        if (! r && nf)
        {
            const auto d = m.getFailureDetails();
            check (d.channel < nc && d.frame < nf, "PeaksAt reports a position inside the audio");
            const double v = std::fabs ((double) x[d.channel][d.frame]);
            check (nan ? v != v : v == maxAbs, "PeaksAt points at channel " + str (d.channel) + " frame " + str (d.frame) + " value " + str (v) + ", which does not attain the peak");
        }
    }
    {
        PeaksBelow<T> m (db, tol);
        check (m.canOperatePerBlock(), "PeaksBelow can take blocks");
        m.prepare (44100.0, nc, std::max<size_t> (1, nf)); m.reset();
        for (int again = 0; again < 2; ++again)
        {
            const bool r = m.match (b);
            if (nan) check (! r, "PeaksBelow accepted audio with a NaN");
            else
            {
                if (maxAbs < lin + t - slack) check (r, "PeaksBelow rejected audio below the threshold");
                if (maxAbs > lin + t + slack) check (! r, "PeaksBelow accepted audio above the threshold");
            }
            if (! r)
            {
                const auto d = m.getFailureDetails();
                check (d.channel < nc && d.frame < nf, "PeaksBelow reports a position inside the audio");
                const double v = std::fabs ((double) x[d.channel][d.frame]);
                check (! (v <= lin + t - slack), "PeaksBelow points at a sample that is not above the threshold: " + str (v));
            }
            m.reset();
        }
    }
    check (sameTable (table (b), x), "the audio is untouched");
}

void run() { for (int i = 0; i < 6000 * g_scale; ++i) { one<float>(); one<double>(); } }
}
