#include "common.hpp"
#include <memory>
using namespace hart;
namespace H {

// y[n] = 2 x[n] + x[n-1] + k (per channel): order, number of applications and state all show in the output
struct Shared { int prepares = 0, resets = 0, blocks = 0; double rate = 0; size_t ni = 0, no = 0, m = 0; };

template <typename SampleType>
struct Fx : public DSP<SampleType>
{
    using T = SampleType;
    int k; size_t maxChannels; double onlyRate;
    std::vector<T> prev;
    std::shared_ptr<Shared> info = std::make_shared<Shared>();
    Fx (int k, size_t maxChannels, double onlyRate) : k (k), maxChannels (maxChannels), onlyRate (onlyRate) {}
    void prepare (double r, size_t ni, size_t no, size_t m) override
    {
        check (no <= maxChannels && (onlyRate == 0 || r == onlyRate), "an effect is prepared for settings it does not support");
        ++info->prepares; info->rate = r; info->ni = ni; info->no = no; info->m = m; prev.assign (no, (T) 0);
    }
    void process (const AudioBuffer<T>& i, AudioBuffer<T>& o, const EnvelopeBuffers&) override
    {
        for (size_t c = 0; c < o.getNumChannels(); ++c)
            for (size_t f = 0; f < o.getNumFrames(); ++f)
            {
                const T x = i[c][f];
                o[c][f] = 2 * x + prev[c] + (T) k;
                prev[c] = x;
            }
        ++info->blocks;
    }
    void reset() override { std::fill (prev.begin(), prev.end(), (T) 0); ++info->resets; }
    void setValue (int, double) override {}
    double getValue (int) const override { return 0; }
    bool supportsChannelLayout (size_t i, size_t o) const override { return i == o && o <= maxChannels; }
    bool supportsSampleRate (double r) const override { return onlyRate == 0 || r == onlyRate; }
    void represent (std::ostream& s) const override { s << "Fx " << k; }
    bool supportsEnvelopeFor (int id) const override { return id == 0; }
    HART_DSP_DEFINE_COPY_AND_MOVE (Fx);
};

struct Counter : public Envelope    // automation attached to an effect of the chain
{
    std::shared_ptr<int> resets, prepares;
    void renderNextBlock (size_t n, std::vector<double>& v) override { for (size_t i = 0; i < n; ++i) v[i] = 0; }
    void prepare (double, size_t) override { ++*prepares; }
    void reset() override { ++*resets; }
    std::unique_ptr<Envelope> copy() const override { return hart::make_unique<Counter> (*this); }
};

template <typename SampleType>
struct Ramp : public Signal<SampleType>
{
    using T = SampleType;
    template <typename U> using Signal = hart::Signal<U>;
    size_t pos = 0, maxChannels = 99; double onlyRate = 0; int prepares = 0, resets = 0; size_t ch = 0;
    bool supportsNumChannels (size_t n) const override { return n <= maxChannels; }
    bool supportsSampleRate (double r) const override { return onlyRate == 0 || r == onlyRate; }
    void prepare (double r, size_t n, size_t) override
    {
        check (n <= maxChannels && (onlyRate == 0 || r == onlyRate), "the signal is prepared for settings it does not support");
        ++prepares; ch = n;
    }
    static T at (size_t c, size_t f) { return (T) ((int) (f * 7 + c * 3) % 11 - 5); }
    void renderNextBlock (AudioBuffer<T>& o) override
    {
        for (size_t c = 0; c < o.getNumChannels(); ++c)
            for (size_t f = 0; f < o.getNumFrames(); ++f) o[c][f] = at (c, pos + f);
        pos += o.getNumFrames();
    }
    void reset() override { pos = 0; ++resets; }
    void represent (std::ostream& s) const override { s << "Ramp"; }
    HART_SIGNAL_DEFINE_COPY_AND_MOVE (Ramp);
};

template <typename T> struct Node { int k; size_t maxChannels; double onlyRate; std::shared_ptr<Shared> info; std::shared_ptr<int> envResets, envPrepares; std::vector<T> prev; };
template <typename T> struct Model { Ramp<T> s; std::vector<Node<T>> fx; size_t pos = 0, ch = 0, m = 0; bool ready = false; };

template <typename T> void one()
{
    const int nsig = pick (1, 3), steps = pick (4, 24);
    std::vector<std::unique_ptr<Model<T>>> v;
    for (int i = 0; i < nsig; ++i)
    {
        v.emplace_back (new Model<T>());
        if (coin (20)) v.back()->s.maxChannels = (size_t) pick (1, 2);
        if (coin (15)) v.back()->s.onlyRate = 8000;
    }
    std::string what = std::string (sizeof (T) == 4 ? "float" : "double") + " signals=" + str (nsig) + ":";
    auto note = [&] (const std::string& t) { what += " [" + t + "]"; H::begin (what); };
    H::begin (what);
    // effects keep a shared log; copies of a chain share the logs of the originals, which are compared by difference
    for (int st = 0; st < steps; ++st)
    {
        const int a = pick (0, nsig - 1), b = pick (0, nsig - 1), op = pick (0, 13);
        Model<T>& x = *v[(size_t) a];
        Model<T>& y = *v[(size_t) b];
        if (op <= 4 && x.fx.size() < 6)
        {
            const int way = pick (0, 5);
            Fx<T> e (pick (-4, 4), coin (85) ? 99 : (size_t) pick (1, 2), coin (90) ? 0.0 : 8000.0);
            Node<T> n { e.k, e.maxChannels, e.onlyRate, e.info, nullptr, nullptr, {} };
            note ("signal " + str (a) + " followed by k=" + str (e.k) + " way " + str (way));
            if (coin (30))
            {
                Counter c; c.resets = std::make_shared<int> (0); c.prepares = std::make_shared<int> (0);
                n.envResets = c.resets; n.envPrepares = c.prepares;
                e.withEnvelope (0, c);
            }
            hart::Signal<T>& s = x.s;
            const void* r = nullptr;
            if (way == 0) r = &s.followedBy (e);
            else if (way == 1) r = &s.followedBy ((const DSP<T>&) e);
            else if (way == 2) { Fx<T> t (e); r = &s.followedBy (std::move (t)); }
            else if (way == 3) r = &s.followedBy (std::unique_ptr<DSP<T>> (new Fx<T> (e)));
            else if (way == 4) r = &(s >> (const DSP<T>&) e);
            else r = &(s >> std::unique_ptr<DSP<T>> (new Fx<T> (e)));
            check (r == (const void*) &s, "appending returns the signal");
            check (e.hasEnvelopeFor (0) == (n.envResets != nullptr), "the caller's effect is left alone");
            e.k = 1000; e.maxChannels = 0;     // the chain has its own copy
            x.fx.push_back (n);
            x.ready = false;
        }
        else if (op == 5 && a != b)
        {
            const bool moved = coin();
            note ("signal " + str (a) + " = " + (moved ? "move of " : "") + "signal " + str (b));
            if (moved) x.s = std::move (y.s); else x.s = y.s;
            x.fx = y.fx; x.pos = y.pos; x.ch = y.ch; x.m = y.m; x.ready = false;
            if (moved) v[(size_t) b].reset (new Model<T>());
        }
        else if (op == 6)
        {
            note ("signal " + str (a) + " = itself");
            auto& self = x.s;
            if (coin()) x.s = self; else x.s = std::move (self);
        }
        else if (op == 7)
        {
            const int way = pick (0, 2);
            note ("signal " + str (a) + " is replaced by a copy or the moved signal " + str (b) + ", way " + str (way));
            std::unique_ptr<Ramp<T>> n (way == 0 ? new Ramp<T> (y.s) : way == 1 ? new Ramp<T> (std::move (y.s)) : static_cast<Ramp<T>*> (y.s.copy().release()));
            std::unique_ptr<Model<T>> m (new Model<T>());
            m->fx = y.fx; m->pos = y.pos; m->ch = y.ch; m->m = y.m; m->ready = false;
            m->s = std::move (*n);
            if (way == 1) v[(size_t) b].reset (new Model<T>());
            v[(size_t) a] = std::move (m);
        }
        else if (op == 8 || (op >= 10 && ! x.ready))
        {
            const size_t ch = (size_t) pick (1, 3), m = (size_t) pick (1, 9);
            const double rate = coin() ? 8000 : 44100;
            note ("signal " + str (a) + " prepared for " + str (ch) + " channels, " + str (rate) + " Hz, blocks of " + str (m));
            bool sigOk = ch <= x.s.maxChannels && (x.s.onlyRate == 0 || x.s.onlyRate == rate), ok = sigOk;
            bool layout = ch > x.s.maxChannels, freq = x.s.onlyRate != 0 && x.s.onlyRate != rate;
            for (auto& n : x.fx) { layout = layout || ch > n.maxChannels; freq = freq || (n.onlyRate != 0 && n.onlyRate != rate); }
            ok = ! layout && ! freq;
            std::vector<int> before, envBefore;
            for (auto& n : x.fx) { before.push_back (n.info->prepares); envBefore.push_back (n.envPrepares ? *n.envPrepares : 0); }
            const int sp = x.s.prepares;
            const std::string t = thrown ([&] { x.s.prepareWithDSPChain (rate, ch, m); });
            check (ok == t.empty(), "unsupported settings, and only those, are refused (got '" + t + "')");
            check (ok || (t == "ChannelLayoutError" && layout) || (t == "SampleRateError" && freq), "the refusal names what is unsupported (got '" + t + "')");
            if (! ok) { x.ready = false; continue; }
            check (x.s.prepares == sp + 1, "the signal is prepared once");
            for (size_t i = 0; i < x.fx.size(); ++i)
            {
                auto& n = x.fx[i];
                int times = 0;      // copies within one chain share a log
                for (auto& o : x.fx) times += o.info == n.info;
                check (n.info->prepares == before[i] + times, "effect " + str (i) + " is prepared once");
                check (n.info->rate == rate && n.info->ni == ch && n.info->no == ch && n.info->m == m, "effect " + str (i) + " is prepared for the settings of the signal");
                if (n.envPrepares) check (*n.envPrepares > envBefore[i], "the envelope of effect " + str (i) + " is prepared");
                n.prev.assign (ch, (T) 0);
            }
            x.ch = ch; x.m = m; x.ready = true;
        }
        else if (op == 9)
        {
            note ("signal " + str (a) + " reset");
            std::vector<int> before, envBefore;
            for (auto& n : x.fx) { before.push_back (n.info->resets); envBefore.push_back (n.envResets ? *n.envResets : 0); }
            x.s.resetWithDSPChain();
            for (size_t i = 0; i < x.fx.size(); ++i)
            {
                check (x.fx[i].info->resets > before[i], "effect " + str (i) + " is reset");
                if (x.fx[i].envResets) check (*x.fx[i].envResets > envBefore[i], "the envelope of effect " + str (i) + " is reset");
                std::fill (x.fx[i].prev.begin(), x.fx[i].prev.end(), (T) 0);
            }
            x.pos = 0;
        }
        else if (x.ready)
        {
            const size_t n = x.m;
            note ("signal " + str (a) + " renders " + str (n) + " frames through " + str (x.fx.size()) + " effects");
            AudioBuffer<T> o (x.ch, n);
            x.s.renderNextBlockWithDSPChain (o);
            check (o.getNumChannels() == x.ch && o.getNumFrames() == n, "the block keeps its shape");
            for (size_t c = 0; c < x.ch; ++c)
                for (size_t f = 0; f < n; ++f)
                {
                    T s = Ramp<T>::at (c, x.pos + f);
                    for (auto& e : x.fx) { const T in = s; s = 2 * in + e.prev[c] + (T) e.k; e.prev[c] = in; }
                    check (o[c][f] == s, "channel " + str (c) + " frame " + str (x.pos + f) + " is " + str (o[c][f]) + " instead of " + str (s));
                }
            x.pos += n;
        }
    }
}

// what a signal or effect supports unless it says otherwise
template <typename T> void plain()
{
    const double rate = coin() ? uni (1, 1e6) : uni (1e-3, 1);
    H::begin ("built-in signal and effect at rate " + str (rate), false);
    Silence<T> s; HardClip<T> h;
    check (s.supportsSampleRate (rate) && h.supportsSampleRate (rate), "any sample rate is supported unless overridden");
    check (thrown ([&] { s.followedBy (HardClip<T>()).prepareWithDSPChain (rate, 1, 4); }).empty(), "and the chain can be prepared for it");
}

void run()
{
    for (int i = 0; i < 4000 * g_scale; ++i) { one<float>(); one<double>(); if (i % 50 == 0) { plain<float>(); plain<double>(); } }
}
}
