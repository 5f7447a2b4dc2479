#include "mocks.hpp"
#include <fstream>
using namespace hart;
namespace H {

static std::string scratch() { const char* p = std::getenv ("HART_VERIF_SCRATCH"); return p ? p : "."; }

static void put (std::string& s, uint32_t v, int bytes) { for (int i = 0; i < bytes; ++i) s += (char) ((v >> (8 * i)) & 255); }

// a wav file written by hand, independent of the library
static void writeWav (const std::string& path, const Table<float>& t, uint32_t rate, bool pcm16)
{
    const uint32_t nc = (uint32_t) t.size(), n = (uint32_t) t[0].size(), bytes = pcm16 ? 2 : 4;
    std::string s = "RIFF";
    put (s, 36 + n * nc * bytes, 4); s += "WAVEfmt ";
    put (s, 16, 4); put (s, pcm16 ? 1 : 3, 2); put (s, nc, 2); put (s, rate, 4); put (s, rate * nc * bytes, 4); put (s, nc * bytes, 2); put (s, bytes * 8, 2);
    s += "data"; put (s, n * nc * bytes, 4);
    for (uint32_t f = 0; f < n; ++f) for (uint32_t c = 0; c < nc; ++c)
    {
        if (pcm16) put (s, (uint32_t) (int) std::lround (t[c][f] * 32768.0f) & 0xffff, 2);
        else { uint32_t u; std::memcpy (&u, &t[c][f], 4); put (s, u, 4); }
    }
    std::ofstream o (path.c_str(), std::ios::binary);
    o << s;
}

template <typename T> void one()
{
    const size_t nc = channelCount (4), n = (size_t) (coin (8) ? 1 : coin (5) ? 2 : 1 + rnd() % 40), total = (size_t) (rnd() % (4 * n + 4)), maxB = (size_t) pick (1, (int) (coin (20) ? 4 * n + 4 : 25));
    const size_t outs = (size_t) (1 + rnd() % nc);
    const bool loop = coin(), pcm16 = coin (30);
    const uint32_t rate = coin() ? 44100 : (uint32_t) pick (1000, 192000);
    begin (std::string (sizeof (T) == 4 ? "float" : "double") + (loop ? " looping" : "") + (pcm16 ? " 16 bit" : "") + " file channels=" + str (nc) + " frames=" + str (n) + " played channels=" + str (outs) + " frames=" + str (total) + " max block=" + str (maxB) + " rate=" + str (rate));
    Table<float> t (nc, std::vector<float> (n));
    for (auto& c : t) for (auto& x : c) x = pcm16 ? (float) pick (-32768, 32767) / 32768.0f : (float) uni (-1.5, 1.5);
    const std::string path = scratch() + "/p13.wav";
    writeWav (path, t, rate, pcm16);
    WavFile<T> w0 (path, loop ? WavFile<T>::Loop::yes : WavFile<T>::Loop::no);
    std::remove (path.c_str());
    WavFile<T> w (w0);
    for (size_t k = 1; k <= nc + 2; ++k) check (w.supportsNumChannels (k) == (k <= nc), "support of " + str (k) + " channels");
    check (thrown ([&] { w.prepareWithDSPChain (rate, nc + 1, maxB); }) == "ChannelLayoutError", "more channels than the file has are refused");
    check (thrown ([&] { w.prepare (rate, nc + 1, maxB); }) == "ChannelLayoutError", "more channels than the file has are refused by prepare itself");
    for (double d : { 1.0, -1.0, 1e-3, -1e-3, 1e-7, (double) rate, -0.5 * rate })
        check (thrown ([&] { w.prepareWithDSPChain (rate + d, outs, maxB); }) == "UnsupportedError", "a sample rate off by " + str (d) + " is refused");
    check (thrown ([&] { w.prepareWithDSPChain (rate, outs, maxB); }) == "", "its own sample rate and channels are accepted");
    auto value = [&] (size_t c, size_t p) { return loop ? (T) t[c][p % n] : p < n ? (T) t[c][p] : (T) 0; };
    for (int pass = 0; pass < 2; ++pass)
    {
        size_t pos = 0;
        Signal<T>* s = &w;
        std::unique_ptr<Signal<T>> k;
        for (size_t len : blocks (total, maxB))
        {
            AudioBuffer<T> b (outs, len);
            for (size_t c = 0; c < outs; ++c) for (size_t f = 0; f < len; ++f) b[c][f] = (T) 77;
            s->renderNextBlockWithDSPChain (b);
            check (b.getNumChannels() == outs && b.getNumFrames() == len, "the block keeps its shape");
            for (size_t c = 0; c < outs; ++c) for (size_t f = 0; f < len; ++f)
                check (same (b[c][f], value (c, pos + f)), "pass " + str (pass) + ": channel " + str (c) + " frame " + str (pos + f) + " is " + str (b[c][f]) + ", expected " + str (value (c, pos + f)));
            pos += len;
            if (coin (20)) { k = s->copy(); s = k.get(); }    // a copy goes on where the original was
        }
        w.reset();
        if (coin()) w.prepareWithDSPChain (rate, outs, maxB);
    }
}

void run()
{
    begin ("missing file");
    check (thrown ([&] { WavFile<float> w (scratch() + "/no-such-file.wav"); }) == "IOError", "a missing file is refused");
    for (int i = 0; i < 1200 * g_scale; ++i) { one<float>(); one<double>(); }
}
}
