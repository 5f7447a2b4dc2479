#include "mocks.hpp"
using namespace hart;
namespace H {

template <typename T> void one()
{
    const size_t nc = channelCount(), n = std::max<size_t> (1, frameCount (60)), maxB = (size_t) pick (1, 25);
    auto ref = std::make_shared<Table<T>> (randomTable<T> (nc, n, coin (10), coin (20)));
    Table<T> x = *ref;
    const double tol = coin (10) ? 0.0 : coin (15) ? uni (0.5, 3) : coin() ? 1e-5 : std::pow (10.0, uni (-6, -1));
    const int changes = coin (40) ? 0 : pick (1, 3);
    std::string what;
    if (coin (15)) { for (auto& c : x) for (auto& s : c) s = (T) 0; what += " silent"; }
    for (int k = 0; k < changes; ++k)
    {
        T& s = x[rnd() % nc][rnd() % n];
        const int kind = pick (0, 7);
        if (kind < 3) s = (T) (s + (coin() ? 1 : -1) * tol * uni (1.1, 3));
        else if (kind == 3) s = (T) (s + (coin() ? 1 : -1) * tol * uni (0, 0.9));
        else if (kind == 4) s = std::numeric_limits<T>::quiet_NaN();
        else if (kind == 5) s = -s;
        else if (kind == 6) s = std::numeric_limits<T>::infinity() * (coin() ? 1 : -1);
        else s = sampleValue<T>();
        what += " change" + str (kind);
    }
    begin (std::string (sizeof (T) == 4 ? "float" : "double") + " channels=" + str (nc) + " frames=" + str (n) + " max block=" + str (maxB) + " tolerance=" + str (tol) + what);
    TableSignal<T> sig (ref);
    const bool chain = coin (20);
    const T g = chain ? (T) 0.5 : (T) 1;
    if (chain) { sig.followedBy (GainLinear<T> (0.5)); for (auto& c : x) for (auto& s : c) s *= g; }
    EqualsTo<T> m0 (sig, tol);
    EqualsTo<T> m1 (m0);
    std::unique_ptr<Matcher<T>> m = coin() ? m1.copy() : m1.move();
    check (m->canOperatePerBlock(), "EqualsTo can take blocks");
    m->prepare (44100.0, nc, maxB);
    const T t = (T) tol;
    for (int pass = 0; pass < 2; ++pass)
    {
        m->reset();
        size_t pos = 0;
        for (size_t len : blocks (n, maxB))
        {
            AudioBuffer<T> b (nc, len);
            fill (b, x, pos);
            const bool r = m->match (b);
            bool sure = true, want = true;
            auto verdict = [&] (size_t c, size_t f)   // 1 match, 0 mismatch, -1 on the edge
            {
                const T a = x[c][pos + f], e = (T) ((*ref)[c][pos + f] * g);
                if (a != a || e != e) return 0;
                if (a == e) return 1;
                if (std::isinf (a) || std::isinf (e)) return 0;
                const long double d = std::fabs ((long double) a - (long double) e), slack = (sizeof (T) == 4 ? 4e-7L : 1e-14L) * (std::fabs ((long double) a) + std::fabs ((long double) e));
                return d > t + slack ? 0 : d <= t - slack ? 1 : -1;
            };
            for (size_t c = 0; c < nc; ++c) for (size_t f = 0; f < len; ++f)
            {
                const int v = verdict (c, f);
                if (v == 0) want = false;
                if (v < 0) sure = false;
            }
            if (! want) check (! r, "accepted audio that mismatches, block at frame " + str (pos) + " pass " + str (pass));
            else if (sure) check (r, "rejected audio that matches everywhere, block at frame " + str (pos) + " pass " + str (pass));
            if (! r)
            {
                const auto d = m->getFailureDetails();
                check (d.channel < nc && d.frame < len, "the reported position is inside the block");
                check (verdict (d.channel, d.frame) != 1, "the reported sample (channel " + str (d.channel) + ", frame " + str (d.frame) + ") does not mismatch");
                std::ostringstream e;
                e << linPrecision << (T) ((*ref)[d.channel][pos + d.frame] * g);
                check (d.description.find (e.str()) != std::string::npos, "the report does not name the expected value " + e.str() + ": " + d.description);
            }
            check (sameTable (table (b), [&] { Table<T> q (nc, std::vector<T> (len)); for (size_t c = 0; c < nc; ++c) for (size_t f = 0; f < len; ++f) q[c][f] = x[c][pos + f]; return q; }()), "the audio is untouched");
            pos += len;
        }
        if (coin()) m->prepare (44100.0, nc, maxB);
    }
}

void run() { for (int i = 0; i < 3000 * g_scale; ++i) { one<float>(); one<double>(); } }
}
