#include "mocks.hpp"
#include <fstream>
using namespace hart;
namespace H {

static int d_lin = 6, d_db = 1, d_sec = 3, d_hz = 1, d_rad = 1;

static std::string num (double x, int decimals) { char t[512]; std::snprintf (t, sizeof t, "%.*f", decimals, x); return t; }

static void decimals()
{
    CLIConfig& c = CLIConfig::getInstance();
    static bool once = (c.initCommandLineArgs(), true);
    (void) once;
    d_lin = pick (0, 8); d_db = pick (0, 8); d_sec = pick (0, 8); d_hz = pick (0, 8); d_rad = pick (0, 8);
    c.getCLIApp().parse ("--lin-decimals " + str (d_lin) + " --db-decimals " + str (d_db) + " --sec-decimals " + str (d_sec) + " --hz-decimals " + str (d_hz) + " --rad-decimals " + str (d_rad));
}

template <typename T> std::string shown (const T& x)
{
    std::ostringstream s;
    if (coin (30)) s.precision (pick (0, 12));
    if (coin (20)) s << std::scientific;
    s << x;
    return s.str();
}

static std::string bare (const std::string& s) { std::string r; bool quoted = false; for (char c : s) { if (c == '"') quoted = ! quoted; if (c != ' ' || quoted) r += c; } return r; }
static void expect (const std::string& got, const std::string& want)
{
    check (bare (got) == bare (want), "the text is \"" + got + "\", expected \"" + want + "\"");
}

static std::string scratch() { const char* p = std::getenv ("HART_VERIF_SCRATCH"); return p ? p : "."; }

static void writeWav (const std::string& path)
{
    auto put = [] (std::string& s, uint32_t v, int bytes) { for (int i = 0; i < bytes; ++i) s += (char) ((v >> (8 * i)) & 255); };
    std::string s = "RIFF";
    put (s, 36 + 8, 4); s += "WAVEfmt ";
    put (s, 16, 4); put (s, 1, 2); put (s, 1, 2); put (s, 44100, 4); put (s, 88200, 4); put (s, 2, 2); put (s, 16, 2);
    s += "data"; put (s, 8, 4);
    for (int i = 0; i < 4; ++i) put (s, (uint32_t) (i * 1000), 2);
    std::ofstream o (path.c_str(), std::ios::binary);
    o << s;
}

// a value away from the rounding boundaries of up to eight decimals
static double value (double lo, double hi) { return std::floor (uni (lo, hi) * 1e3) / 1e3 + 0.000123412; }

template <typename T> struct Thing { std::unique_ptr<Signal<T>> s; std::string text; };

template <typename T> Thing<T> someSignal()
{
    Thing<T> r;
    const int k = pick (0, 4);
    if (k == 0) { r.s.reset (new Silence<T>()); r.text = "Silence ()"; }
    else if (k == 1)
    {
        const double f = value (1, 20000), p = value (0.01, 6.2);
        r.s.reset (new SineWave<T> (f, p));
        r.text = "SineWave (" + num (f, d_hz) + "_Hz, " + num (p, d_rad) + "_rad)";
    }
    else if (k == 2)
    {
        const uint_fast32_t seed = (uint_fast32_t) (coin (10) ? 0 : rnd() >> (32 + rnd() % 28));
        r.s.reset (new WhiteNoise<T> (seed));
        r.text = "WhiteNoise (" + str (seed) + ")";
    }
    else if (k == 3)
    {
        const double d = value (0.01, 3), a = value (10, 20000), b = value (10, 20000), p = value (0.01, 6.2);
        const bool linear = coin(), loop = coin();
        using S = SineSweep<T>;
        S* s = new S (d, a, b, linear ? S::SweepType::linear : S::SweepType::log, loop ? S::Loop::yes : S::Loop::no, p);
        r.s.reset (s);
        r.text = "SineSweep (" + num (d, d_sec) + "_s, " + num (a, d_hz) + "_Hz, " + num (b, d_hz) + "_Hz, SweepType::" + (linear ? "linear" : "log") + ", Loop::" + (loop ? "yes" : "no") + ")";
        const std::string got = shown (*s);
        if (bare (got) != bare (r.text))            // the phase may be shown as well
            r.text = "SineSweep (" + num (d, d_sec) + "_s, " + num (a, d_hz) + "_Hz, " + num (b, d_hz) + "_Hz, SweepType::" + (linear ? "linear" : "log") + ", Loop::" + (loop ? "yes" : "no") + (bare (got).find ("_rad") != std::string::npos ? ", " + num (p, d_rad) + "_rad)" : ")");
    }
    else
    {
        const bool loop = coin();
        const std::string path = scratch() + (coin() ? "/p23.wav" : "/p 23 b.wav");
        writeWav (path);
        r.s.reset (new WavFile<T> (path, loop ? WavFile<T>::Loop::yes : WavFile<T>::Loop::no));
        std::remove (path.c_str());
        r.text = "WavFile (\"" + path + "\", Loop::" + (loop ? "yes" : "no") + ")";
    }
    return r;
}

template <typename T> std::pair<std::unique_ptr<DSP<T>>, std::string> someEffect()
{
    const int k = pick (0, 2);
    std::unique_ptr<DSP<T>> d;
    std::string text;
    if (k == 0) { const double x = value (-40, 20); d.reset (new GainDb<T> (x)); text = "GainDb (" + num (x, d_db) + "_dB)"; if (coin (30)) d->setValue (GainDb<T>::gainDb, uni (-9, 9)); }
    else if (k == 1) { const double x = value (-2, 2); d.reset (new GainLinear<T> (x)); text = "GainLinear (" + num (x, d_lin) + ")"; if (coin (30)) d->setValue (GainLinear<T>::gainLinear, uni (-2, 2)); }
    else { const double x = value (-40, 20); d.reset (new HardClip<T> (x)); text = "HardClip (" + num (x, d_db) + "_dB)"; if (coin (30)) d->setValue (HardClip<T>::thresholdDb, uni (-9, 9)); }
    return { std::move (d), text };
}

// T rounds the values matchers keep
template <typename T> std::string numT (double x, int decimals) { return num ((double) (T) x, decimals); }

template <typename T> void one()
{
    decimals();
    Thing<T> a = someSignal<T>();
    const int n = pick (0, 4);
    std::string text = a.text;
    begin (std::string (sizeof (T) == 4 ? "float " : "double ") + a.text + " with " + str (n) + " effects, decimals lin " + str (d_lin) + " db " + str (d_db) + " sec " + str (d_sec) + " hz " + str (d_hz) + " rad " + str (d_rad));
    expect (shown (*a.s), a.text);
    for (int i = 0; i < n; ++i)
    {
        auto e = someEffect<T>();
        expect (shown (*e.first), e.second);
        std::unique_ptr<DSP<T>> cp = e.first->copy();
        expect (shown (*cp), e.second);
        text += " >> " + e.second;
        if (coin()) a.s->followedBy (std::move (e.first));
        else a.s->followedBy ((const DSP<T>&) *cp);
        expect (shown (*a.s), text);
    }
    // copies, and a signal that has been played, say the same
    std::unique_ptr<Signal<T>> c = coin() ? a.s->copy() : nullptr;
    Signal<T>& s = c ? *c : *a.s;
    if (coin())
    {
        s.prepareWithDSPChain (44100.0, 1, 16);
        AudioBuffer<T> b (1, 16);
        for (int i = pick (1, 3); i > 0; --i) s.renderNextBlockWithDSPChain (b);
        if (coin()) s.resetWithDSPChain();
    }
    expect (shown (s), text);

    const double level = value (-60, 6), tol = value (0, 1);
    expect (shown (PeaksAt<T> (level, tol)), "PeaksAt (" + numT<T> (level, d_db) + "_dB, " + numT<T> (tol, d_lin) + ")");
    expect (shown (PeaksBelow<T> (level, tol)), "PeaksBelow (" + numT<T> (level, d_db) + "_dB, " + numT<T> (tol, d_lin) + ")");
    expect (shown (EqualsTo<T> (s, tol)), "EqualsTo (" + text + ", " + numT<T> (tol, d_lin) + ")");
    EqualsTo<T> m (s, tol);
    AudioBuffer<T> b (1, 8);
    b.clear();
    m.prepare (44100.0, 1, 8);
    m.match (b);
    expect (shown (*std::unique_ptr<Matcher<T>> (m.copy())), "EqualsTo (" + text + ", " + numT<T> (tol, d_lin) + ")");
}

void run() { for (int i = 0, n = 3000 * g_scale; i < n; ++i) { one<float>(); one<double>(); } }
}
