#include "common.hpp"
#include <fstream>
#include <unistd.h>
using namespace hart;
namespace H {

static std::string scratch() { const char* p = std::getenv ("HART_VERIF_SCRATCH"); return p ? p : "."; }

static uint32_t le (const std::string& s, size_t at, int n) { uint32_t v = 0; for (int i = 0; i < n; ++i) v |= (uint32_t) (unsigned char) s.at (at + i) << (8 * i); return v; }

template <typename T> T value (int bits)
{
    const double full = bits == 0 ? 1.0 : std::pow (2.0, bits - 1) - 1.0;
    switch (rnd() % 12)
    {
        case 0: return (T) (coin() ? 1.0 : -1.0);
        case 1: return (T) (coin() ? 0.0 : -0.0);
        case 2: return (T) (uni (-1.0, 1.0) * 40.0);
        case 3: return coin() ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity();
        case 4: return coin() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest();
        case 5: return std::nextafter ((T) (coin() ? 1 : -1), (T) (coin() ? 0 : coin() ? 2 : -2));
        case 6: return (T) ((pick (-40, 40) + 0.5) / full);                         // on a rounding edge
        case 7: return (T) ((full - 0.5 * pick (0, 6)) / full * (coin() ? 1 : -1)); // near full scale
        case 8: return std::numeric_limits<T>::denorm_min() * (T) pick (-3, 3);
        default: return (T) uni (-1.1, 1.1);
    }
}

template <typename T> void one()
{
    const bool many = coin (2);
    const size_t nc = many ? (size_t) pick (200, 900) : channelCount (6), nf = (size_t) (coin (10) ? 0 : 1 + rnd() % (many ? 3 : 40));
    static const WavFormat formats[] = { WavFormat::pcm16, WavFormat::pcm24, WavFormat::pcm32, WavFormat::float32 };
    static const int widths[] = { 16, 24, 32, 32 };
    const int k = (int) (rnd() % 4);
    const bool isFloat = k == 3;
    const uint32_t rate = coin() ? 44100 : (uint32_t) pick (1, 400000);
    begin (std::string (sizeof (T) == 4 ? "float" : "double") + " format=" + (isFloat ? "float32" : "pcm" + str (widths[k])) + " channels=" + str (nc) + " frames=" + str (nf) + " rate=" + str (rate));
    AudioBuffer<T> b (nc, nf);
    Table<T> t (nc, std::vector<T> (nf));
    for (size_t c = 0; c < nc; ++c) for (size_t f = 0; f < nf; ++f)
    {
        T x = value<T> (isFloat ? 0 : widths[k]);
        if (isFloat && sizeof (T) == 8 && std::fabs (x) > 3e38 && ! std::isinf (x)) x = (T) 1;
        b[c][f] = t[c][f] = x;
    }
    const std::string path = scratch() + "/p14.wav";
    std::remove (path.c_str());
    WavWriter<T>::writeBuffer (b, path, (double) rate, formats[k]);
    std::ifstream in (path.c_str(), std::ios::binary);
    check (in.good(), "a file is created");
    std::string s ((std::istreambuf_iterator<char> (in)), std::istreambuf_iterator<char>());
    in.close();
    std::remove (path.c_str());
    check (s.size() >= 12 && s.substr (0, 4) == "RIFF" && s.substr (8, 4) == "WAVE", "the file is a RIFF wave file");
    size_t at = 12, data = 0, size = 0, fmt = 0;
    while (at + 8 <= s.size())
    {
        const std::string id = s.substr (at, 4);
        const uint32_t n = le (s, at + 4, 4);
        if (id == "fmt ") fmt = at + 8;
        if (id == "data") { data = at + 8; size = n; break; }
        at += 8 + n + (n & 1);
    }
    check (fmt != 0 && data != 0, "the file has a format and data");
    check (le (s, fmt, 2) == (isFloat ? 3u : 1u), "sample encoding " + str (le (s, fmt, 2)));
    check (le (s, fmt + 2, 2) == nc, "the file has " + str (le (s, fmt + 2, 2)) + " channels");
    check (le (s, fmt + 4, 4) == rate, "the file has sample rate " + str (le (s, fmt + 4, 4)));
    check ((int) le (s, fmt + 14, 2) == widths[k], "the file has " + str (le (s, fmt + 14, 2)) + " bits");
    const int w = widths[k] / 8;
    check (size == nc * nf * w && data + size <= s.size(), "the file holds " + str (size) + " bytes of audio");
    for (size_t f = 0; f < nf; ++f) for (size_t c = 0; c < nc; ++c)
    {
        const uint32_t got = le (s, data + (f * nc + c) * w, w);
        uint32_t want;
        if (isFloat) { float x = (float) t[c][f]; std::memcpy (&want, &x, 4); }
        else
        {
            const double full = std::pow (2.0, widths[k] - 1) - 1.0;
            const double x = (double) t[c][f] * full;
            const double y = x >= full ? full : x <= -full ? -full : x;
            // nearest integer, ties away from zero
            long long i = (long long) y; 
            if (std::fabs (y - (double) i) >= 0.5) i += y < 0 ? -1 : 1;
            want = (uint32_t) (int32_t) i & (w == 4 ? 0xffffffffu : (1u << (8 * w)) - 1u);
        }
        check (got == want, "channel " + str (c) + " frame " + str (f) + " value " + str (t[c][f]) + " is stored as " + str (got) + ", expected " + str (want));
    }
    for (size_t c = 0; c < nc; ++c) for (size_t f = 0; f < nf; ++f) check (same (b[c][f], t[c][f]), "the buffer is unchanged");
}

void run()
{
    begin ("a file that cannot be created");
    AudioBuffer<float> b (1, 2);
    check (thrown ([&] { WavWriter<float>::writeBuffer (b, scratch() + "/no-such-directory/x.wav", 44100.0); }) == "IOError", "a file that cannot be created is refused with an input/output error");
    for (int i = 0; i < 3000 * g_scale; ++i) { one<float>(); one<double>(); }
}
}
