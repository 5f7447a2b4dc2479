#include "common.hpp"
using namespace hart;
namespace H {

template <typename T> T anyNumber()
{
    switch (pick (0, 7))
    {
        case 0: return sampleValue<T> (false, false);
        case 1: return (T) uni (-300, 300);
        case 2: return (T) std::pow (10.0, uni (-12, 12)) * (T) (coin() ? 1 : -1);
        case 3: return (T) pick (-200, 200);
        case 4: { T x = (T) pick (-130, 130); return std::nextafter (x, (T) (coin() ? 1e9 : -1e9)); }
        case 5: { static const double s[] = { 1e-6, -120, 120, 0.5, 6.283185307179586, 3.141592653589793 }; T x = (T) s[rnd() % 6]; return coin() ? x : std::nextafter (x, (T) (coin() ? 1e9 : -1e9)); }
        case 6: return (T) uni (-1e-5, 1e-5);
        default: return (T) (std::ldexp (uni (-1, 1), pick (-60, 60)));
    }
}

template <typename T> void one()
{
    const std::string n = sizeof (T) == 4 ? "float" : "double";
    const T eps = std::numeric_limits<T>::epsilon();
    {
        const T x = anyNumber<T>();
        begin (n + " decibelsToRatio (" + str (x) + ")");
        const T r = decibelsToRatio (x);
        if (x < (T) -120) check (r == 0, "ratio below -120 dB is " + str (r));
        else
        {
            const T e = std::pow ((T) 10, x / (T) 20);
            check (r == e || std::fabs (r - e) <= 8 * eps * std::fabs (e) * std::max ((T) 1, std::fabs (x)), "ratio is " + str (r) + ", expected " + str (e));
        }
        begin (n + " ratioToDecibels (" + str (x) + ")");
        const T d = ratioToDecibels (x);
        if ((double) x < 1e-6) check (d == -120, "level is " + str (d));
        else { const T e = (T) (20 * std::log10 ((long double) x)); check (std::fabs (d - e) <= 8 * eps * std::max ((T) 1, std::fabs (e)), "level is " + str (d) + ", expected " + str (e)); }
    }
    {
        T lo = anyNumber<T>(), hi = coin (10) ? lo : anyNumber<T>();
        if (hi < lo) std::swap (lo, hi);
        const T x = coin (10) ? lo : coin (10) ? hi : coin (10) ? std::numeric_limits<T>::infinity() * (T) (coin() ? 1 : -1) : anyNumber<T>();
        begin (n + " clamp (" + str (x) + ", " + str (lo) + ", " + str (hi) + ")");
        const T r = clamp (x, lo, hi);
        check (r == (x < lo ? lo : x > hi ? hi : x), "clamped value is " + str (r));
    }
    {
        const T a = anyNumber<T>(), e = coin (30) ? (T) 1e-8 : (T) std::pow (10.0, uni (-9, 1)) * (T) (coin (5) ? 0 : 1);
        const T b = coin (40) ? a : coin (60) ? (T) (a + (coin() ? 1 : -1) * e * (T) (coin (40) ? 1.0 : uni (0, 2))) : anyNumber<T>();
        begin (n + " floatsEqual/floatsNotEqual (" + str (a) + ", " + str (b) + ", " + str (e) + ")");
        const bool eq = floatsEqual (a, b, e) != 0, ne = floatsNotEqual (a, b, e) != 0;
        check (eq != ne, "equal and not equal are not complements");
        const T d = std::fabs (a - b);
        if (d < e * (1 - 4 * eps)) check (eq, "numbers within the tolerance are not equal");
        if (d > e * (1 + 4 * eps) || (e == 0)) check (! eq, "numbers outside the tolerance are equal");
        if (d == e) check (! eq, "a difference of exactly the tolerance counts as equal");
        check ((floatsEqual (a, b) != 0) == (d < (T) 1e-8), "default tolerance of equality");
        check ((floatsNotEqual (a, b) != 0) == ! (d < (T) 1e-8), "default tolerance of inequality");
    }
    {
        T x;
        const int k = pick (0, 5);
        const double big = std::ldexp (1.0, std::numeric_limits<T>::digits);
        if (k == 0) x = (T) uni (0, 10);
        else if (k == 1) x = (T) pick (0, 1000) + (T) 0.5;
        else if (k == 2) x = std::nextafter ((T) pick (0, 1000) + (T) 0.5, (T) (coin() ? 1e9 : 0));
        else if (k == 3) x = (T) std::floor (uni (0, big));
        else if (k == 4) x = (T) (big / 2 + pick (0, 1000));
        else x = (T) uni (0, 1e6);
        begin (n + " roundToSizeT (" + str (x) + ")");
        const size_t r = roundToSizeT (x);
        const T fl = std::floor (x);
        const size_t e = (size_t) fl + (x - fl >= (T) 0.5 ? 1 : 0);
        check (r == e, "rounded to " + str (r) + " instead of " + str (e));
    }
    {
        const int k = pick (0, 5);
        const T x = k == 0 ? (T) uni (-7, 7) : k == 1 ? (T) uni (-1000, 1000) : k == 2 ? (T) (pick (-40, 40) * pi / 4) : k == 3 ? anyNumber<T>() : k == 4 ? (T) uni (-1e-6, 1e-6) : (T) uni (-1e4, 1e4);
        begin (n + " wrapPhase (" + str (x) + ")");
        const T r = wrapPhase (x);
        check (r >= 0 && r <= (T) twoPi, "wrapped phase is " + str (r));
        if (std::fabs (x) < 1e4)
        {
            const double tol = (double) eps * 4 * (std::fabs (x) + 10);
            check (std::fabs (std::remainder ((double) r - (double) x, 2 * 3.14159265358979323846)) <= tol + (sizeof (T) == 4 ? std::fabs (x) * 1e-6 : 0), "wrapped phase " + str (r) + " is another angle");
        }
    }
}

void literals()
{
    for (int i = 0; i < 300; ++i)
    {
        const long double v = i < 4 ? (long double) i : (long double) std::pow (10.0, uni (-6, 6));
        const unsigned long long u = i < 4 ? (unsigned long long) i : rnd() % (1ull << pick (1, 52));
        begin ("unit literals of " + str (v) + " and " + str (u));
        auto near = [] (double a, long double b, const char* n) { check (std::fabs ((long double) a - b) <= 1e-15L * 4 * std::fabs (b), std::string (n) + " literal gives " + str (a) + ", expected " + str (b)); };
        near (operator"" _s (v), v, "_s");         near (operator"" _s (u), u, "_s");
        near (operator"" _ms (v), v / 1000, "_ms");      near (operator"" _ms (u), u / 1000.0L, "_ms");
        near (operator"" _us (v), v / 1000000, "_us");   near (operator"" _us (u), u / 1000000.0L, "_us");
        near (operator"" _dB (v), v, "_dB");       near (operator"" _dB (u), u, "_dB");
        near (operator"" _Hz (v), v, "_Hz");       near (operator"" _Hz (u), u, "_Hz");
        near (operator"" _kHz (v), v * 1000, "_kHz");    near (operator"" _kHz (u), u * 1000.0L, "_kHz");
        near (operator"" _rad (v), v, "_rad");     near (operator"" _rad (u), u, "_rad");
        const long double p = 3.14159265358979323846L / 180;
        near (operator"" _deg (v), v * p, "_deg"); near (operator"" _deg (u), u * p, "_deg");
    }
    check (std::isinf (inf_dB) && std::isinf (oo_dB) && pi_rad == 3.14159265358979323846 && twoPi_rad == 2 * pi_rad && halfPi_rad == pi_rad / 2, "constants");
}

void run() { literals(); for (int i = 0; i < 60000 * g_scale; ++i) { one<float>(); one<double>(); } }
}
