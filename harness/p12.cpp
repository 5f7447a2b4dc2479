#include "mocks.hpp"
using namespace hart;
namespace H {

static const long double PI2 = 6.28318530717958647692528676655900577L;

struct Setting { double dur, s, e, ph; bool lin, loop; };

// the sweep's samples, phase accumulated frame by frame in long double; f(n) is the frequency that leads to frame n
template <typename T> std::vector<long double> oracle (const Setting& q, double sr, size_t n)
{
    std::vector<long double> r (n, 0.0L);
    const size_t D = (size_t) std::llround (q.dur * sr);
    if (D == 0) return r;
    long double ph = q.ph;
    for (size_t i = 0; i < n; ++i)
    {
        if (! q.loop && i >= D) break;
        if (i > 0)
        {
            const size_t pos = i % D;
            const bool back = (i / D) % 2 == 1;
            long double x = (long double) pos / sr / q.dur;
            if (back) x = 1 - x;
            const long double f = q.lin ? q.s + ((long double) q.e - q.s) * x : q.s * std::pow ((long double) q.e / q.s, x);
            ph = std::fmod (ph + PI2 * f / sr, PI2);
        }
        r[i] = std::sin (ph);
    }
    return r;
}

template <typename T> Table<T> render (Signal<T>& s, size_t nc, const std::vector<size_t>& bl)
{
    Table<T> t (nc);
    for (size_t len : bl)
    {
        AudioBuffer<T> b (nc, len);
        for (size_t c = 0; c < nc; ++c) for (size_t f = 0; f < len; ++f) b[c][f] = (T) 77;
        s.renderNextBlock (b);
        check (b.getNumChannels() == nc && b.getNumFrames() == len, "the block keeps its shape");
        for (size_t c = 0; c < nc; ++c) for (size_t f = 0; f < len; ++f) t[c].push_back (b[c][f]);
    }
    return t;
}

template <typename T> void one()
{
    using S = SineSweep<T>;
    const size_t nc = channelCount(3), n = std::max<size_t> (1, frameCount (120)), maxB = (size_t) pick (1, 40);
    const double sr = coin() ? 44100.0 : uni (8000, 200000);
    Setting q;
    const int len = coin (8) ? 0 : coin (20) ? pick (1, 3) : coin (20) ? (int) maxB * pick (1, 3) : pick (1, 90);
    q.dur = len == 0 ? (coin() ? 0.0 : 0.3 / sr) : (len + (coin() ? 0.0 : uni (-0.4, 0.4))) / sr;
    q.s = coin (10) ? 1.0 : uni (20, sr / 2);
    q.e = coin (10) ? q.s : uni (20, sr / 2);
    q.ph = coin (30) ? 0 : coin (60) ? uni (0, twoPi) : uni (-40, 40);
    q.lin = coin(); q.loop = coin();
    begin (std::string (sizeof (T) == 4 ? "float" : "double") + " sweep " + str (q.s) + "-" + str (q.e) + " Hz " + (q.lin ? "linear" : "log") + (q.loop ? " looping" : "") + " duration=" + str (q.dur) + " phase=" + str (q.ph)
           + " channels=" + str (nc) + " frames=" + str (n) + " max block=" + str (maxB) + " rate=" + str (sr));
    const auto ty = q.lin ? S::SweepType::linear : S::SweepType::log;
    const auto lo = q.loop ? S::Loop::yes : S::Loop::no;
    S direct (q.dur, q.s, q.e, ty, lo, q.ph);
    // the same settings reached through the with...() functions, in a random order and from other values
    S other (0.5, 33.0, 44.0, q.lin ? S::SweepType::log : S::SweepType::linear, q.loop ? S::Loop::no : S::Loop::yes, 1.0);
    std::unique_ptr<S> built (new S (other));
    std::vector<int> order = { 0, 1, 2, 3, 4, 5 };
    std::shuffle (order.begin(), order.end(), g_rng);
    for (int k : order)
        switch (k)
        {
            case 0: built.reset (new S (built->withDuration (q.dur))); break;
            case 1: built.reset (new S (built->withStartFrequency (q.s))); break;
            case 2: built.reset (new S (built->withEndFrequency (q.e))); break;
            case 3: built.reset (new S (built->withType (ty))); break;
            case 4: built.reset (new S (built->withLoop (lo))); break;
            default: built.reset (new S (built->withPhase (q.ph))); break;
        }
    const auto want = oracle<T> (q, sr, n);
    auto verify = [&] (size_t have, size_t upto, const std::string& when, const Table<T>& t)
    {
        for (size_t c = 0; c < nc; ++c) for (size_t f = have; f < upto; ++f)
        {
            const T y = t[c][f - have];
            check (std::fabs ((long double) y - want[f]) <= 1e-7 + (sizeof (T) == 4 ? 2e-7 : 0), when + ": channel " + str (c) + " frame " + str (f) + " is " + str (y) + ", expected " + str ((double) want[f]));
            check (y == t[0][f - have], when + ": channels differ at frame " + str (f));
        }
    };
    S& s = coin() ? direct : *built;
    check (s.supportsNumChannels (nc), "any channel count is supported");
    if (coin (30)) s.prepareWithDSPChain (sr * 0.5, 1, 7);
    if (coin()) s.resetWithDSPChain();
    s.prepareWithDSPChain (sr, nc, maxB);
    if (coin (30)) s.resetWithDSPChain();
    verify (0, n, "first run", render (s, nc, blocks (n, maxB)));
    s.reset();
    if (coin (30)) s.prepare (sr, nc, maxB);
    const size_t part = (size_t) (rnd() % (n + 1));
    verify (0, part, "after reset", render (s, nc, blocks (part, maxB)));
    auto k = s.copy();
    verify (part, n, "copy", render (*k, nc, blocks (n - part, maxB)));
    auto m = s.move();
    verify (part, n, "moved", render (*m, nc, blocks (n - part, maxB)));
    k->reset();
    verify (0, n, "copy after reset", render (*k, nc, blocks (n, maxB)));
}

template <typename T> void refusals()
{
    using S = SineSweep<T>;
    const double inf = std::numeric_limits<double>::infinity();
    for (double b : { 0.0, -0.0, -1.0, -1e-300, -1e9, -inf })
    {
        begin ("SineSweep with a frequency of " + str (b));
        check (thrown ([&] { S s (1.0, b, 100.0); }) == "ValueError", "a non-positive start frequency is refused");
        check (thrown ([&] { S s (1.0, 100.0, b); }) == "ValueError", "a non-positive end frequency is refused");
        S ok;
        check (thrown ([&] { ok.withStartFrequency (b); }) == "ValueError", "a non-positive start frequency is refused");
        check (thrown ([&] { ok.withEndFrequency (b); }) == "ValueError", "a non-positive end frequency is refused");
    }
    for (double b : { -1.0, -1e-300, -1e-9, -1e9, -inf })
    {
        begin ("SineSweep of duration " + str (b));
        check (thrown ([&] { S s (b); }) == "ValueError", "a negative duration is refused");
        S ok;
        check (thrown ([&] { ok.withDuration (b); }) == "ValueError", "a negative duration is refused");
    }
    for (double g : { 1e-300, 1e-3, 1.0, 1e9 })
    {
        begin ("SineSweep with a frequency of " + str (g));
        check (thrown ([&] { S s (0.0, g, g); S t (1.0, g, 10.0); S u (1.0, 10.0, g); }) == "", "a positive frequency is accepted");
    }
}

// a sweep of a second: the end frame, the reversal frame and the law far from the start
template <typename T> void longRun()
{
    using S = SineSweep<T>;
    const double sr = coin() ? 44100.0 : 48000.0;
    Setting q;
    q.dur = uni (0.2, 0.5); q.s = uni (20, 2000); q.e = uni (20, 8000); q.ph = 0.5; q.lin = coin(); q.loop = coin();
    begin ("long sweep " + str (q.s) + "-" + str (q.e) + " duration " + str (q.dur) + (q.lin ? " linear" : " log") + (q.loop ? " looping" : ""));
    S s (q.dur, q.s, q.e, q.lin ? S::SweepType::linear : S::SweepType::log, q.loop ? S::Loop::yes : S::Loop::no, q.ph);
    s.prepareWithDSPChain (sr, 1, 512);
    const size_t n = 512 * 120;
    const auto want = oracle<T> (q, sr, n);
    for (size_t f0 = 0; f0 < n; f0 += 512)
    {
        AudioBuffer<T> b (1, 512);
        s.renderNextBlock (b);
        for (size_t f = 0; f < 512; ++f)
            check (std::fabs ((long double) b[0][f] - want[f0 + f]) < 1e-5, "frame " + str (f0 + f) + " is " + str (b[0][f]) + ", expected " + str ((double) want[f0 + f]));
    }
}

void run()
{
    refusals<float>(); refusals<double>();
    for (int i = 0; i < 1 * g_scale; ++i) { longRun<float>(); longRun<double>(); }
    for (int i = 0; i < 1200 * g_scale; ++i) { one<float>(); one<double>(); }
}
}
