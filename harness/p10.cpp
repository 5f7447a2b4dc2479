#include "mocks.hpp"
using namespace hart;
namespace H {

struct Seg { double dur, target; SegmentedEnvelope::Shape shape; bool hold; };
struct Curve { double start; std::vector<Seg> segs; };
using Sh = SegmentedEnvelope::Shape;

// value at time tau of the curve, with the segment that starts at or before tau
static long double in (const Curve& q, size_t k, long double T)
{
    const long double b = k == 0 ? q.start : q.segs[k - 1].target;
    if (k == q.segs.size()) return q.segs.empty() ? q.start : q.segs.back().target;
    const Seg& s = q.segs[k];
    if (s.hold) return b;
    const long double x = T / s.dur, g = s.target;
    if (s.shape == Sh::linear) return b + (g - b) * x;
    if (s.shape == Sh::sCurve) return b + (g - b) * x * x * (3 - 2 * x);
    return b * std::pow (g / b, x);
}

static bool matches (const Curve& q, long double tau, double y)
{
    long double at = 0;
    for (size_t k = 0; k <= q.segs.size(); ++k)
    {
        const bool last = k == q.segs.size();
        const long double end = last ? 1e30L : at + q.segs[k].dur;
        if (tau >= at - 1e-11L && (last || tau < end + 1e-11L) && ! (! last && q.segs[k].dur == 0))
        {
            const long double v = in (q, k, std::max (0.0L, tau - at));
            const long double tol = 1e-9L * (1 + std::fabs (v));
            if (std::fabs ((long double) y - v) <= tol) return true;
            // the slope may be large: allow the rounding of the time
            if (! last && std::fabs ((long double) y - v) <= 1e-6L * std::fabs (q.segs[k].target - in (q, k, 0)) && q.segs[k].dur < 1e-3) return true;
        }
        if (! last) at = end;
    }
    return false;
}

static std::string describe (const Curve& q)
{
    std::string s = "start " + str (q.start);
    for (auto& x : q.segs) s += x.hold ? "; hold " + str (x.dur) : "; " + std::string (x.shape == Sh::linear ? "linear" : x.shape == Sh::sCurve ? "s" : "exp") + " to " + str (x.target) + " in " + str (x.dur);
    return s;
}

static std::vector<double> render (Envelope& e, const std::vector<size_t>& bl)
{
    std::vector<double> r;
    for (size_t n : bl)
    {
        std::vector<double> v;
        if (coin (30)) v = e.renderNextBlock (n);
        else { v.assign (n, 777.0); e.renderNextBlock (n, v); }
        check (v.size() == n, "a block of values has the block's size");
        r.insert (r.end(), v.begin(), v.end());
    }
    return r;
}

static void add (SegmentedEnvelope& e, const Seg& s)
{
    SegmentedEnvelope& r = s.hold ? e.hold (s.dur) : s.shape == Sh::linear && coin() ? e.rampTo (s.target, s.dur) : e.rampTo (s.target, s.dur, s.shape);
    check (&r == &e, "adding a segment can be chained");
}

static void one()
{
    const double sr = coin() ? 44100.0 : uni (1000, 200000);
    const size_t maxB = (size_t) pick (1, 40), n = std::max<size_t> (1, frameCount (150));
    Curve q;
    const bool positive = coin (70);
    auto level = [&] { return positive ? uni (1e-3, 4) : uni (-4, 4); };
    q.start = coin (20) ? 1.0 : level();
    const int k = coin (8) ? 0 : pick (1, 5);
    double prev = q.start;
    for (int i = 0; i < k; ++i)
    {
        Seg s;
        s.hold = coin (25);
        s.dur = coin (10) ? 0.0 : coin (25) ? pick (1, 60) / sr : uni (0.2, 60) / sr;
        s.target = s.hold ? prev : coin (10) ? prev : level();
        s.shape = s.hold ? Sh::linear : (Sh) pick (0, 2);
        if (s.shape == Sh::exponential && ! (s.target / prev > 0)) s.shape = Sh::sCurve;
        prev = s.target;
        q.segs.push_back (s);
    }
    begin (describe (q) + "; rate " + str (sr) + " frames " + str (n) + " max block " + str (maxB));
    SegmentedEnvelope e (q.start);
    for (auto& s : q.segs) add (e, s);
    auto verify = [&] (const Curve& c, const std::vector<double>& v, size_t from, const std::string& when)
    {
        for (size_t i = 0; i < v.size(); ++i)
            check (matches (c, (long double) (from + i + 1) / sr, v[i]), when + ": frame " + str (from + i) + " is " + str (v[i]));
    };
    if (coin (30)) e.prepare (sr * 2, 3);
    e.prepare (sr, maxB);
    if (coin (30)) e.reset();
    verify (q, render (e, blocks (n, maxB)), 0, "first run");
    e.reset();
    const size_t part = (size_t) (rnd() % (n + 1));
    verify (q, render (e, blocks (part, maxB)), 0, "after reset");
    std::unique_ptr<Envelope> c = e.copy();
    verify (q, render (*c, blocks (n - part, maxB)), part, "copy");
    // a segment added to the original goes after the others and leaves the copy alone
    Seg x { uni (1, 40) / sr, coin() ? level() : prev, Sh::linear, false };
    Curve longer = q;
    longer.segs.push_back (x);
    double total = 0;
    for (auto& s : q.segs) total += s.dur;
    if ((double) part / sr < total - 1e-9) { add (e, x); verify (longer, render (e, blocks (n - part, maxB)), part, "with a segment added on the way"); }
    else { e.reset(); add (e, x); verify (longer, render (e, blocks (n, maxB)), 0, "with a segment added"); }
    e.reset();
    verify (longer, render (e, blocks (n, maxB)), 0, "with a segment added, after reset");
    c->reset();
    verify (q, render (*c, blocks (n, maxB)), 0, "copy after reset");
    const double bad[] = { 0.0, -0.0, -1.0, -44100.0, -1e-300, -std::numeric_limits<double>::infinity() };
    if (coin (10)) for (double b : bad) check (thrown ([&] { c->prepare (b, 4); }) == "ValueError", "a sample rate of " + str (b) + " is refused");
    c->reset();
    verify (q, render (*c, blocks (n, maxB)), 0, "after a refused sample rate");
}

// a hold keeps the last target whatever comes before
void run()
{
    for (int i = 0; i < 6000 * g_scale; ++i) one();
}
}
