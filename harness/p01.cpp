#include "host.hpp"
#include <array>
using namespace hart;
namespace H {

template <typename T> struct Model { size_t nc = 0, nf = 0; std::vector<std::vector<T>> x; };

template <typename T> T value()
{
    static const double special[] = { 0, -0.0, 1, -1, 1e-30, -1e30, 0.5, -0.25, 1e-45 };
    return coin (40) ? (T) special[pick (0, 8)] : (T) uni (-2, 2);
}

template <typename T> struct Story
{
    using B = AudioBuffer<T>;
    std::vector<std::unique_ptr<B>> real;
    std::vector<Model<T>> model;
    std::string what;

    void step (const std::string& s) { what += " " + s + ";"; H::begin (what); }

    static Model<T> blank (size_t nc, size_t nf) { Model<T> m; m.nc = nc; m.nf = nf; m.x.assign (nc, std::vector<T> (nf, (T) 0)); return m; }

    void compare()
    {
        for (size_t i = 0; i < real.size(); ++i)
        {
            B& b = *real[i]; const B& k = b; const Model<T>& m = model[i];
            const std::string n = "buffer " + str (i) + " ";
            check (k.getNumChannels() == m.nc && k.getNumFrames() == m.nf, n + "has " + str (k.getNumChannels()) + "x" + str (k.getNumFrames()) + " instead of " + str (m.nc) + "x" + str (m.nf));
            if (m.nf == 0) continue;
            for (size_t c = 0; c < m.nc; ++c)
                for (size_t f = 0; f < m.nf; ++f)
                {
                    check (same (k[c][f], m.x[c][f]), n + "channel " + str (c) + " frame " + str (f) + " is " + str (k[c][f]) + " instead of " + str (m.x[c][f]));
                    check (&b[c][f] == &k[c][f] && &b.getArrayOfReadPointers()[c][f] == &k[c][f] && &b.getArrayOfWritePointers()[c][f] == &k[c][f], n + "all ways to a sample lead to the same one");
                }
        }
    }

    void fill (size_t i) { for (size_t c = 0; c < model[i].nc; ++c) for (size_t f = 0; f < model[i].nf; ++f) model[i].x[c][f] = (*real[i])[c][f] = value<T>(); }

    void magnitude (size_t i)
    {
        const B& b = *real[i]; const Model<T>& m = model[i];
        const size_t huge = (size_t) -1;
        auto arg = [&] (size_t limit) { return coin (8) ? huge - (size_t) pick (0, 2) : (size_t) pick (0, (int) limit + 2); };
        const size_t ch = arg (m.nc), from = arg (m.nf), n = coin (5) ? huge - from + 1 + (size_t) pick (0, 2) : arg (m.nf);
        const bool range = n > 0 && from < m.nf && n <= m.nf - from;
        const bool one = coin();
        step ("magnitude of " + str (i) + (one ? " channel " + str (ch) : std::string()) + " from " + str (from) + " for " + str (n));
        T got = 0;
        const std::string e = thrown ([&] { got = one ? b.getMagnitude (ch, from, n) : b.getMagnitude (from, n); });
        const bool legal = range && (! one || ch < m.nc);
        check (e == (legal ? "" : "IndexError"), legal ? "a legal range: " + e : "a range outside the buffer or an empty one: " + (e.empty() ? "accepted" : e));
        if (! legal) return;
        T want = 0;
        for (size_t c = 0; c < m.nc; ++c)
            if (! one || c == ch)
                for (size_t f = from; f < from + n; ++f) want = std::max (want, std::abs (m.x[c][f]));
        check (got == want, "the magnitude is " + str (got) + " instead of " + str (want));
    }

    void create (size_t nc, size_t nf) { step ("new " + str (nc) + "x" + str (nf)); real.emplace_back (new B (nc, nf)); model.push_back (blank (nc, nf)); }

    void go (int steps)
    {
        const size_t nc = (size_t) pick (0, 4);
        create (nc, (size_t) pick (0, 7));
        for (int s = 0; s < steps; ++s)
        {
            const size_t i = (size_t) pick (0, (int) real.size() - 1), j = (size_t) pick (0, (int) real.size() - 1);
            B& a = *real[i]; B& b = *real[j];
            const std::string ij = str (i) + " <- " + str (j);
            const bool fits = model[i].nc == model[j].nc;
            switch (pick (0, 11))
            {
                case 0: if (real.size() < 6) create (coin (70) ? nc : (size_t) pick (0, 4), coin (4) ? (size_t) pick (100, 3000) : (size_t) pick (0, 7)); break;
                case 1: if (real.size() < 6) { step ("copy of " + str (j)); real.emplace_back (new B (b)); model.push_back (model[j]); } break;
                case 2: if (real.size() < 6) { step ("moved from " + str (j)); real.emplace_back (new B (std::move (b))); model.push_back (model[j]); model[j] = blank (model[j].nc, 0); } break;
                case 3: if (real.size() < 6) { step ("like " + str (j)); real.emplace_back (new B (B::emptyLike (b))); model.push_back (blank (model[j].nc, model[j].nf)); } break;
                case 4: case 5:
                {
                    step ("assign " + ij);
                    const B& k = b;
                    B* r = nullptr;
                    const std::string e = thrown ([&] { r = &(a = k); });
                    check (e == (fits ? "" : "ChannelLayoutError"), "assignment " + std::string (fits ? "of the same" : "of another") + " channel count: " + e);
                    if (fits) { check (r == &a, "the buffer itself is returned"); model[i] = model[j]; }
                    break;
                }
                case 6:
                {
                    step ("move " + ij);
                    const std::string e = thrown ([&] { a = std::move (b); });
                    check (e == (fits ? "" : "ChannelLayoutError"), "move " + std::string (fits ? "of the same" : "of another") + " channel count: " + e);
                    if (fits && i != j) { model[i] = model[j]; model[j] = blank (model[j].nc, 0); }
                    break;
                }
                case 7: case 8:
                {
                    if (model[i].nf + model[j].nf > 6000) break;
                    step ("append " + ij);
                    const std::string e = thrown ([&] { a.appendFrom (b); });
                    check (e == (fits ? "" : "ChannelLayoutError"), "append " + std::string (fits ? "of the same" : "of another") + " channel count: " + e);
                    if (fits)
                    {
                        const Model<T> o = model[j];
                        for (size_t c = 0; c < o.nc; ++c) model[i].x[c].insert (model[i].x[c].end(), o.x[c].begin(), o.x[c].end());
                        model[i].nf += o.nf;
                    }
                    break;
                }
                case 9: step ("clear " + str (i)); a.clear(); model[i] = blank (model[i].nc, 0); break;
                case 10: step ("fill " + str (i)); fill (i); break;
                case 11: if (i != j && fits) { step ("swap " + ij); std::array<T, 1> pad; (void) pad; B t (std::move (a)); a = std::move (b); b = std::move (t); std::swap (model[i], model[j]); } break;
            }
            if (coin()) { const size_t m = (size_t) pick (0, (int) real.size() - 1); magnitude (m); }
            compare();
            if (coin (10) && real.size() > 1) { const size_t m = (size_t) pick (0, (int) real.size() - 1); step ("delete " + str (m)); real.erase (real.begin() + (long) m); model.erase (model.begin() + (long) m); compare(); }
        }
    }
};

void run()
{
    const int n = 2500 * g_scale;
    for (int i = 0; i < n; ++i)
    {
        if (coin()) { Story<float> s; s.what = "float"; s.go (pick (3, 14)); }
        else { Story<double> s; s.what = "double"; s.go (pick (3, 14)); }
    }
}
}
