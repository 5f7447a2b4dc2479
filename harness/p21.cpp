#include "common.hpp"
#include <unistd.h>
using namespace hart;
namespace H {

static std::string scratch() { const char* p = std::getenv ("HART_VERIF_SCRATCH"); return p ? p : "."; }

template <typename T> void one()
{
    const size_t nc = channelCount (8), nf = (size_t) (coin (5) ? pick (4000, 9000) : 1 + rnd() % 300);
    static const WavFormat formats[] = { WavFormat::pcm16, WavFormat::pcm24, WavFormat::pcm32, WavFormat::float32 };
    static const char* names[] = { "pcm16", "pcm24", "pcm32", "float32" };
    static const int bits[] = { 16, 24, 32, 32 };
    const int k = (int) (rnd() % 4);
    const double rate = coin() ? 44100.0 : (double) pick (1, 384000);
    const size_t more = rnd() % 20;
    begin (std::string (sizeof (T) == 4 ? "float " : "double ") + names[k] + " channels=" + str (nc) + " frames=" + str (nf) + " rate=" + str (rate));
    AudioBuffer<T> b (nc, nf);
    Table<T> t (nc, std::vector<T> (nf));
    for (auto& c : t) for (auto& x : c)
    {
        const int w = pick (0, 9);
        x = w == 0 ? (T) (coin() ? 1 : -1) : w == 1 ? (T) 0 : w == 2 ? (T) std::ldexp (uni (-1, 1), -pick (0, 40)) : (T) uni (-1, 1);
        if (k == 3) { if (w == 3) x = (T) uni (-1e6, 1e6); x = (T) (float) x; }
    }
    fill (b, t);
    const std::string path = scratch() + "/p21.wav";
    std::remove (path.c_str());
    WavWriter<T>::writeBuffer (b, path, rate, formats[k]);
    char cwd[4096];
    check (getcwd (cwd, sizeof cwd) != nullptr, "working folder");
    const std::string full = path[0] == '/' ? path : std::string (cwd) + "/" + path;
    WavFile<T> w (full);
    std::remove (path.c_str());
    check (w.supportsNumChannels (nc), "the file has the channels that were saved");
    check (! w.supportsNumChannels (nc + 1), "the file has no more channels than were saved");
    const size_t block = (size_t) pick (1, 400);
    std::string e = thrown ([&] { w.prepare (rate, nc, block); });
    check (e.empty(), "the file has the sample rate that was saved: " + e);
    w.reset();
    const double step = std::ldexp (1.0, 1 - bits[k]);
    size_t at = 0;
    for (size_t n : blocks (nf + more, block))
    {
        AudioBuffer<T> o (nc, n);
        for (size_t c = 0; c < nc; ++c) for (size_t f = 0; f < n; ++f) o[c][f] = (T) 7;
        w.renderNextBlock (o);
        for (size_t c = 0; c < nc; ++c) for (size_t f = 0; f < n; ++f)
        {
            const double got = (double) o[c][f], want = at + f < nf ? (double) t[c][at + f] : 0.0;
            const bool ok = at + f >= nf || k == 3 ? got == want : std::fabs (got - want) <= 2 * step + (k == 2 ? std::ldexp (1.0, -24) : 0.0);
            check (ok, "channel " + str (c) + " frame " + str (at + f) + " saved as " + str (want) + " plays as " + str (got));
        }
        at += n;
    }
    std::string r = thrown ([&] { WavFile<T> (full, WavFile<T>::Loop::no); });
    check (r == "IOError", "a missing file is refused: " + r);
}

void run()
{
    for (int i = 0; i < 700 * g_scale; ++i) { one<float>(); one<double>(); }
}
}
