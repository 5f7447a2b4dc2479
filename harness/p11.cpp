#include "mocks.hpp"
using namespace hart;
namespace H {

// renders n frames in the given blocks and returns them
template <typename T> Table<T> render (Signal<T>& s, size_t nc, const std::vector<size_t>& bl)
{
    Table<T> t (nc);
    for (size_t len : bl)
    {
        AudioBuffer<T> b (nc, len);
        for (size_t c = 0; c < nc; ++c) for (size_t f = 0; f < len; ++f) b[c][f] = (T) 77;
        s.renderNextBlock (b);
        check (b.getNumChannels() == nc && b.getNumFrames() == len, "the block keeps its shape");
        for (size_t c = 0; c < nc; ++c) for (size_t f = 0; f < len; ++f) t[c].push_back (b[c][f]);
    }
    return t;
}

template <typename T> void one (int kind)
{
    const size_t nc = channelCount(), n = std::max<size_t> (1, frameCount (80)), maxB = (size_t) pick (1, 30);
    const double sr = coin() ? 44100.0 : uni (8000, 200000);
    std::unique_ptr<Signal<T>> s;
    double hz = 0, phase = 0;
    uint_fast32_t seed = 0;
    std::string name;
    if (kind == 0) { s.reset (new Silence<T>()); name = "Silence"; }
    else if (kind == 1)
    {
        hz = coin (15) ? sr * uni (0.5, 3) : coin (10) ? uni (1e-3, 1) : uni (20, sr / 2);
        phase = coin (30) ? 0 : coin (60) ? uni (0, twoPi) : uni (-40, 40);
        s.reset (new SineWave<T> (hz, phase));
        name = "SineWave " + str (hz) + " phase " + str (phase);
    }
    else { seed = (uint_fast32_t) (coin (20) ? 0 : rnd() & 0xffffffffu); s.reset (new WhiteNoise<T> (seed)); name = "WhiteNoise " + str (seed); }
    begin (std::string (sizeof (T) == 4 ? "float " : "double ") + name + " channels=" + str (nc) + " frames=" + str (n) + " max block=" + str (maxB) + " rate=" + str (sr));
    check (s->supportsNumChannels (nc), "any channel count is supported");
    Table<T> want (nc, std::vector<T> (n));
    if (kind == 2)
    {
        std::mt19937 g ((uint_fast32_t) seed);
        std::uniform_real_distribution<T> d ((T) -1, (T) 1);
        for (size_t f = 0; f < n; ++f) for (size_t c = 0; c < nc; ++c) want[c][f] = d (g);
    }
    auto verify = [&] (Signal<T>& x, size_t have, size_t upto, const std::string& when, const Table<T>& t)
    {
        (void) x;
        for (size_t c = 0; c < nc; ++c) for (size_t f = have; f < upto; ++f)
        {
            const T y = t[c][f - have];
            if (kind == 1)
            {
                const long double e = std::sin ((long double) phase + (long double) f * (2.0L * 3.14159265358979323846264338327950288L * (long double) hz / (long double) sr));
                const double tol = 1e-9 + (double) f * 1e-12 * (1 + hz / sr) + (sizeof (T) == 4 ? 2e-7 : 0);
                check (std::fabs ((long double) y - e) <= tol, when + ": channel " + str (c) + " frame " + str (f) + " is " + str (y) + ", expected " + str ((double) e));
                check (y == t[0][f - have], when + ": channels differ at frame " + str (f));
            }
            else check (same (y, want[c][f]), when + ": channel " + str (c) + " frame " + str (f) + " is " + str (y) + ", expected " + str (want[c][f]));
        }
    };
    if (coin (30)) s->prepareWithDSPChain (sr * 0.5, 1, 7);
    if (coin()) s->resetWithDSPChain();
    s->prepareWithDSPChain (sr, nc, maxB);
    if (coin (30)) s->resetWithDSPChain();
    const auto bl = blocks (n, maxB);
    verify (*s, 0, n, "first run", render (*s, nc, bl));
    s->reset();
    // part of the stream, then a copy and a move go on with the rest
    const size_t part = (size_t) (rnd() % (n + 1));
    verify (*s, 0, part, "after reset", render (*s, nc, blocks (part, maxB)));
    auto k = s->copy();
    verify (*k, part, n, "copy", render (*k, nc, blocks (n - part, maxB)));
    auto m = s->move();
    verify (*m, part, n, "moved", render (*m, nc, blocks (n - part, maxB)));
    k->reset();
    verify (*k, 0, n, "copy after reset", render (*k, nc, blocks (n, maxB)));
}

template <typename T> void refusals()
{
    const double bad[] = { 0.0, -0.0, -1.0, -1e-300, -1e9, -std::numeric_limits<double>::infinity() };
    for (double b : bad) { begin ("SineWave with frequency " + str (b)); check (thrown ([&] { SineWave<T> s (b); }) == "ValueError", "a non-positive frequency is refused"); }
    for (double g : { 1e-300, 1e-3, 1.0, 1e9 }) { begin ("SineWave with frequency " + str (g)); check (thrown ([&] { SineWave<T> s (g); }) == "", "a positive frequency is accepted"); }
}

// long runs: phase errors, wrapping and draws far into the stream
template <typename T> void longRun()
{
    const double hz = uni (100, 5000), sr = 48000;
    begin ("long SineWave " + str (hz));
    SineWave<T> s (hz, 1.0);
    s.prepareWithDSPChain (sr, 1, 1000);
    for (size_t f0 = 0; f0 < 40000; f0 += 1000)
    {
        AudioBuffer<T> b (1, 1000);
        s.renderNextBlock (b);
        for (size_t f = 0; f < 1000; ++f)
        {
            const long double e = std::sin (1.0L + (long double) (f0 + f) * (2.0L * 3.14159265358979323846264338327950288L * (long double) hz / (long double) sr));
            check (std::fabs ((long double) b[0][f] - e) < 1e-6, "frame " + str (f0 + f) + " is " + str (b[0][f]) + ", expected " + str ((double) e));
        }
    }
}

void run()
{
    refusals<float>(); refusals<double>();
    for (int i = 0; i < 2 * g_scale; ++i) { longRun<float>(); longRun<double>(); }
    for (int i = 0; i < 1500 * g_scale; ++i) { one<float> (pick (0, 2)); one<double> (pick (0, 2)); }
}
}
