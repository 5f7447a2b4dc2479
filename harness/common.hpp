// Replay and bounded-check support: the real headers of the repository, driven through their public interface.
#pragma once
#define HART_IMPLEMENTATION
#include "hart.hpp"
#include <cstdio>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <limits>
#include <random>
#include <string>
#include <vector>
#include <sstream>
#include <functional>
#include <typeinfo>
#include <unistd.h>

namespace H {

static unsigned long long g_cases = 0, g_nontrivial = 0;
static std::vector<std::string> g_samples;
static std::mt19937_64 g_rng (1);
static int g_scale = 1;
static std::vector<long long> g_hints;      // integers taken from the verifier's counterexample

inline uint64_t rnd() { return g_rng(); }
inline int pick (int lo, int hi) { return lo + (int) (rnd() % (uint64_t) (hi - lo + 1)); }
inline bool coin (int pct = 50) { return (int) (rnd() % 100) < pct; }
inline double uni (double lo, double hi) { return lo + (hi - lo) * ((double) (rnd() >> 11) / 9007199254740992.0); }

// the case under way, written out before it runs so that a crash or a hang names it
static char g_current[4096];
inline void begin (const std::string& text, bool nontrivial = true)
{
    ++g_cases;
    alarm (40);
    if (nontrivial) ++g_nontrivial;
    std::snprintf (g_current, sizeof g_current, "%s", text.c_str());
    if (g_samples.size() < 6 && (g_cases & (g_cases - 1)) == 0) g_samples.push_back (text.substr (0, 400));
    if (const char* p = std::getenv ("H_TRACE")) { (void) p; std::fprintf (stderr, "CASE %s\n", g_current); }
}

[[noreturn]] inline void fail (const std::string& what)
{
    std::printf ("FAIL %s || case: %s\n", what.c_str(), g_current);
    std::fflush (stdout);
    std::_Exit (1);
}

inline void check (bool ok, const std::string& what) { if (! ok) fail (what); }

template <typename T> std::string str (const T& x) { std::ostringstream s; s.precision (17); s << x; return s.str(); }

template <typename T> bool same (T a, T b)   // same value, any NaN equals any NaN
{
    if (a != a || b != b) return a != a && b != b;
    return a == b && std::signbit (a) == std::signbit (b);
}
template <typename T> bool sameValue (T a, T b) { if (a != a || b != b) return a != a && b != b; return a == b; }

inline bool closeTo (double a, double b, double rel = 1e-9, double abs = 1e-12)
{
    if (a != a || b != b) return a != a && b != b;
    if (a == b) return true;
    return std::fabs (a - b) <= abs + rel * std::max (std::fabs (a), std::fabs (b));
}

// sample values: ordinary ones most of the time, special ones often enough
template <typename T> T sampleValue (bool nan = true, bool inf = true)
{
    static const double sp[] = { 0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1e-30, -1e-30, 2.0, -2.0, 1e-8, 0.999999, -0.999999, 100.0, -100.0 };
    const int k = pick (0, 99);
    if (k < 62) return (T) uni (-1.5, 1.5);
    if (k < 82) return (T) sp[rnd() % (sizeof sp / sizeof *sp)];
    if (k < 88) return (T) uni (-1e6, 1e6);
    if (k < 92) return (T) (std::ldexp (uni (-1, 1), pick (-40, 40)));
    if (k < 94) return std::numeric_limits<T>::denorm_min() * (T) pick (-9, 9);
    if (k < 95) return std::numeric_limits<T>::max() * (coin() ? (T) 1 : (T) -1);
    if (k < 97 && inf) return std::numeric_limits<T>::infinity() * (coin() ? (T) 1 : (T) -1);
    if (k < 99 && nan) return std::numeric_limits<T>::quiet_NaN();
    return (T) uni (-0.1, 0.1);
}

inline size_t channelCount (size_t hi = 5)
{
    if (! g_hints.empty() && coin (10)) { const long long h = g_hints[rnd() % g_hints.size()]; if (h >= 1 && h <= 16) return (size_t) h; }
    return (size_t) (1 + rnd() % hi);
}
inline size_t frameCount (size_t hi = 40)
{
    if (! g_hints.empty() && coin (10)) { const long long h = g_hints[rnd() % g_hints.size()]; if (h >= 0 && h <= 4096) return (size_t) h; }
    if (coin (5)) return 0;
    if (coin (10)) return 1;
    return (size_t) (1 + rnd() % hi);
}

template <typename T> using Table = std::vector<std::vector<T>>;

template <typename T> Table<T> randomTable (size_t channels, size_t frames, bool nan = true, bool inf = true)
{
    Table<T> t (channels, std::vector<T> (frames));
    const int mode = pick (0, 9);
    T palette[3];
    for (auto& x : palette) x = coin (70) ? (T) uni (-1.2, 1.2) : sampleValue<T> (nan, inf);
    for (auto& c : t) for (auto& x : c) x = mode < 5 ? (T) uni (-1.2, 1.2) : mode < 8 ? sampleValue<T> (nan, inf) : palette[rnd() % 3];
    // silence, repeated values and equal channels
    if (frames > 0 && channels > 0)
    {
        for (int k = coin (30) ? pick (1, 3) : 0; k > 0; --k)
        {
            const size_t a = rnd() % frames, b = a + rnd() % (frames - a + 1), c0 = coin() ? 0 : rnd() % channels, c1 = coin() ? channels : c0 + 1;
            for (size_t c = c0; c < c1; ++c) for (size_t f = a; f < b; ++f) t[c][f] = coin (80) ? (T) 0 : t[c][a];
        }
        if (coin (10)) for (size_t c = 1; c < channels; ++c) t[c] = t[0];
        if (coin (4)) for (auto& c : t) for (auto& x : c) x = (T) 0;
    }
    return t;
}
template <typename T> void fill (hart::AudioBuffer<T>& b, const Table<T>& t, size_t off = 0)
{
    for (size_t c = 0; c < b.getNumChannels(); ++c)
        for (size_t f = 0; f < b.getNumFrames(); ++f)
            b[c][f] = t[c][off + f];
}
template <typename T> hart::AudioBuffer<T> buffer (const Table<T>& t, size_t channels, size_t frames, size_t off = 0)
{
    hart::AudioBuffer<T> b (channels, frames);
    fill (b, t, off);
    return b;
}
template <typename T> Table<T> table (const hart::AudioBuffer<T>& b)
{
    Table<T> t (b.getNumChannels(), std::vector<T> (b.getNumFrames()));
    for (size_t c = 0; c < t.size(); ++c) for (size_t f = 0; f < b.getNumFrames(); ++f) t[c][f] = b[c][f];
    return t;
}
template <typename T> bool sameTable (const Table<T>& a, const Table<T>& b)
{
    if (a.size() != b.size()) return false;
    for (size_t c = 0; c < a.size(); ++c)
    {
        if (a[c].size() != b[c].size()) return false;
        for (size_t f = 0; f < a[c].size(); ++f) if (! same (a[c][f], b[c][f])) return false;
    }
    return true;
}

// splits n frames into blocks of at most maxBlock
inline std::vector<size_t> blocks (size_t n, size_t maxBlock)
{
    std::vector<size_t> r;
    const bool fixed = coin (50);
    while (n > 0) { size_t k = fixed ? std::min (n, maxBlock) : std::min (n, (size_t) (1 + rnd() % maxBlock)); r.push_back (k); n -= k; }
    return r;
}

// an object must be usable through the library's own error type
template <typename F> std::string thrown (F f)
{
    try { f(); }
    catch (const hart::SampleRateError&) { return "SampleRateError"; }
    catch (const hart::ChannelLayoutError&) { return "ChannelLayoutError"; }
    catch (const hart::IndexError&) { return "IndexError"; }
    catch (const hart::SizeError&) { return "SizeError"; }
    catch (const hart::ValueError&) { return "ValueError"; }
    catch (const hart::IOError&) { return "IOError"; }
    catch (const hart::StateError&) { return "StateError"; }
    catch (const hart::HartAssertException&) { return "HartAssertException"; }
    catch (const hart::ConfigurationError&) { return "ConfigurationError"; }
    catch (const hart::UnsupportedError&) { return "UnsupportedError"; }
    catch (const hart::TestAssertException&) { return "TestAssertException"; }
    catch (const std::exception& e) { return std::string ("std::exception: ") + e.what(); }
    return "";
}

// a case that does not end is a failure too
inline void hung (int)
{
    char line[4400];
    const int n = std::snprintf (line, sizeof line, "FAIL no termination within 40 s || case: %s\n", g_current);
    if (write (1, line, (size_t) n)) {}
    std::_Exit (1);
}

void run();   // supplied by each property

}  // namespace H

int main (int argc, char** argv)
{
    unsigned long long seed = 1;
    for (int i = 1; i < argc; ++i)
    {
        const std::string a = argv[i];
        if (a == "--seed" && i + 1 < argc) seed = std::strtoull (argv[++i], nullptr, 10);
        else if (a == "--scale" && i + 1 < argc) H::g_scale = std::atoi (argv[++i]);
        else if (a == "--hint" && i + 1 < argc) H::g_hints.push_back (std::atoll (argv[++i]));
    }
    std::signal (SIGALRM, H::hung);
    H::g_rng.seed (seed * 7919 + 17);
    try { H::run(); }
    catch (const std::exception& e) { H::fail (std::string ("unexpected exception: ") + e.what()); }
    std::printf ("OK cases=%llu nontrivial=%llu\n", H::g_cases, H::g_nontrivial);
    for (const auto& s : H::g_samples) std::printf ("SAMPLE %s\n", s.c_str());
    return 0;
}

extern "C" const char* __asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=77"; }
extern "C" void __sanitizer_set_death_callback (void (*) (void));
namespace H {
struct DeathNote {
    static void note() { std::printf ("FAIL sanitizer or crash || case: %s\n", g_current); std::fflush (stdout); }
    DeathNote() { __sanitizer_set_death_callback (note); }
};
static DeathNote g_deathNote;
}
