#include "common.hpp"
#include <map>
#include <memory>
using namespace hart;
namespace H {

// an envelope whose value tells the curve, the frame and the sample rate it was prepared for
struct Curve : public Envelope
{
    int id; double rate = 0; size_t room = 0, pos = 0;
    Curve (int id) : id (id) {}
    static double value (int id, size_t frame, double rate) { return id * 1e6 + (double) frame * (rate / 1000.0); }
    void renderNextBlock (size_t n, std::vector<double>& v) override
    {
        check (n <= room, "an envelope renders no more than the block size it was prepared for");
        check (v.size() >= n, "an envelope is given room for the values");
        for (size_t i = 0; i < n; ++i) v[i] = value (id, pos + i, rate);
        pos += n;
    }
    void prepare (double r, size_t m) override { rate = r; room = m; }
    void reset() override { pos = 0; }
    std::unique_ptr<Envelope> copy() const override { return hart::make_unique<Curve> (*this); }
};

struct Seen { int prepares = 0, resets = 0, processes = 0; double rate = 0; size_t ni = 0, no = 0, m = 0; const void* in = nullptr; const void* out = nullptr; EnvelopeBuffers env; };

template <typename SampleType>
struct Probe : public DSP<SampleType>
{
    using T = SampleType;
    unsigned mask;
    std::shared_ptr<Seen> seen = std::make_shared<Seen>();
    Probe (unsigned mask) : mask (mask) {}
    void prepare (double r, size_t ni, size_t no, size_t m) override { ++seen->prepares; seen->rate = r; seen->ni = ni; seen->no = no; seen->m = m; }
    void process (const AudioBuffer<T>& i, AudioBuffer<T>& o, const EnvelopeBuffers& e) override { ++seen->processes; seen->in = &i; seen->out = &o; seen->env = e; }
    void reset() override { ++seen->resets; }
    void setValue (int, double) override {}
    double getValue (int) const override { return -77.0; }
    bool supportsChannelLayout (size_t, size_t) const override { return true; }
    void represent (std::ostream& s) const override { s << "Probe"; }
    bool supportsEnvelopeFor (int id) const override { return (mask >> (id & 15)) & 1; }
    HART_DSP_DEFINE_COPY_AND_MOVE (Probe);
};

struct State { int id; size_t pos; };
template <typename T> struct Model { Probe<T> fx; std::map<int, State> env; bool ready = false; double rate = 0; size_t m = 0; Model (unsigned mask) : fx (mask) {} };

static int paramId() { const int r = pick (0, 9); return r < 7 ? pick (0, 3) : r < 8 ? pick (-40, 40) : r < 9 ? 2147483647 - pick (0, 3) : -2147483647 - 1 + pick (0, 3); }

template <typename T> void one()
{
    const unsigned mask = coin (20) ? 0xffffu : (unsigned) pick (0, 0xffff) | (coin() ? 3u : 0u);
    const int nfx = pick (1, 3), steps = pick (4, 30);
    std::vector<std::unique_ptr<Model<T>>> v;
    for (int i = 0; i < nfx; ++i) v.emplace_back (new Model<T> (mask));
    std::string what = std::string ("effects=") + str (nfx) + " supported parameters (mod 16) mask=" + str (mask) + ":";
    H::begin (what);
    int curve = 0;
    for (int s = 0; s < steps; ++s)
    {
        const int a = pick (0, nfx - 1), b = pick (0, nfx - 1), op = pick (0, 13);
        Model<T>& x = *v[(size_t) a];
        Model<T>& y = *v[(size_t) b];
        auto note = [&] (const std::string& t) { what += " [" + t + "]"; H::begin (what); };
        if (op <= 3)
        {
            const int p = paramId();
            const bool temp = coin(), ok = (mask >> (p & 15)) & 1;
            note ("attach curve " + str (++curve) + " to parameter " + str (p) + " of effect " + str (a) + (temp ? " (temporary)" : ""));
            Curve e (curve);
            e.pos = (size_t) pick (0, 3);
            const size_t pos = e.pos;
            const void* self = nullptr;
            const std::string t = thrown ([&] { self = temp ? (const void*) &x.fx.withEnvelope (p, Curve (e)) : (const void*) &x.fx.withEnvelope (p, (const Envelope&) e); });
            check (ok ? t.empty() : t == "UnsupportedError", "attaching to an unsupported parameter, and only that, is refused (got '" + t + "')");
            check (! ok || self == (const void*) &x.fx, "the effect itself is returned");
            e.pos = 1000; e.id = -1;    // the effect owns its own copy
            if (ok) { x.env.erase (p); x.env.emplace (p, State { curve, pos }); x.ready = false; }
        }
        else if (op == 4 && a != b)
        {
            note ("effect " + str (a) + " = effect " + str (b));
            x.fx = y.fx; x.fx.seen = std::make_shared<Seen>(); x.env = y.env; x.ready = false;
        }
        else if (op == 5 && a != b)
        {
            note ("effect " + str (a) + " = move (effect " + str (b) + "), which is replaced by a new one");
            x.fx = std::move (y.fx); x.env = y.env; x.ready = false;
            v[(size_t) b].reset (new Model<T> (mask));
        }
        else if (op == 6)
        {
            note ("effect " + str (a) + " = itself");
            auto& self = x.fx;
            if (coin()) x.fx = self; else x.fx = std::move (self);
            x.ready = false;
        }
        else if (op == 7)
        {
            const bool copying = coin();
            note ("effect " + str (a) + (copying ? " is replaced by a copy of effect " : " is replaced by the moved effect ") + str (b));
            std::unique_ptr<Model<T>> n (new Model<T> (mask));
            std::unique_ptr<Probe<T>> fx (copying ? new Probe<T> (y.fx) : new Probe<T> (std::move (y.fx)));
            n->env = y.env;
            n->fx = std::move (*fx); n->fx.seen = std::make_shared<Seen>();
            if (! copying) v[(size_t) b].reset (new Model<T> (mask));
            v[(size_t) a] = std::move (n);
        }
        else if (op == 8)
        {
            note ("effect " + str (a) + " is cloned and the clone processes");
            std::unique_ptr<DSP<T>> c = x.fx.copy();
            auto& p = static_cast<Probe<T>&> (*c);
            p.seen = std::make_shared<Seen>();
            p.prepareWithEnvelopes (8000.0, 1, 1, 4);
            AudioBuffer<T> in (1, 4), out (1, 4);
            p.processWithEnvelopes (in, out);
            check (p.seen->env.size() == x.env.size(), "a clone has automation for the same parameters");
            for (auto& i : x.env)
            {
                auto f = p.seen->env.find (i.first);
                check (f != p.seen->env.end(), "a clone has the envelope of parameter " + str (i.first));
                for (size_t k = 0; k < 4; ++k) check (f->second[k] == Curve::value (i.second.id, i.second.pos + k, 8000.0), "a clone plays the same curve");
            }
        }
        else if (op == 9 || (op >= 11 && ! x.ready))
        {
            x.rate = pick (0, 2) ? (double) pick (1, 48) * 1000.0 : 44100.0;
            x.m = (size_t) (coin (20) ? pick (1, 200) : pick (1, 16));
            note ("effect " + str (a) + " prepared for " + str (x.rate) + " Hz, blocks of " + str (x.m));
            const int n = x.fx.seen->prepares;
            x.fx.prepareWithEnvelopes (x.rate, 2, 3, x.m);
            check (x.fx.seen->prepares == n + 1 && x.fx.seen->rate == x.rate && x.fx.seen->ni == 2 && x.fx.seen->no == 3 && x.fx.seen->m == x.m, "the effect is prepared once with the host's settings");
            x.ready = true;
        }
        else if (op == 10)
        {
            note ("effect " + str (a) + " reset");
            const int n = x.fx.seen->resets;
            x.fx.resetWithEnvelopes();
            check (x.fx.seen->resets == n + 1, "the effect is reset once");
            for (auto& i : x.env) i.second.pos = 0;
        }
        else if (x.ready)
        {
            const size_t n = coin (15) ? (size_t) pick (0, (int) x.m) : x.m;
            note ("effect " + str (a) + " processes " + str (n) + " frames");
            AudioBuffer<T> in ((size_t) pick (0, 2), n), out ((size_t) pick (0, 3), n);
            const int before = x.fx.seen->processes;
            x.fx.processWithEnvelopes (in, out);
            check (x.fx.seen->processes == before + 1 && x.fx.seen->in == &in && x.fx.seen->out == &out, "the effect processes the given buffers once");
            auto& e = x.fx.seen->env;
            check (e.size() == x.env.size(), "the effect gets values for exactly the parameters with an envelope: " + str (e.size()) + " instead of " + str (x.env.size()));
            for (auto& i : x.env)
            {
                auto f = e.find (i.first);
                check (f != e.end(), "the effect gets values for parameter " + str (i.first));
                check (f->second.size() >= n, "the effect gets a value for every frame");
                for (size_t k = 0; k < n; ++k)
                    check (f->second[k] == Curve::value (i.second.id, i.second.pos + k, x.rate), "parameter " + str (i.first) + " at frame " + str (i.second.pos + k) + " is " + str (f->second[k]) + " instead of " + str (Curve::value (i.second.id, i.second.pos + k, x.rate)));
                i.second.pos += n;
            }
            if (n < x.m)    // the last block of a stream: the host starts a new one
            {
                x.fx.resetWithEnvelopes();
                for (auto& i : x.env) i.second.pos = 0;
            }
        }
        for (size_t k = 0; k < v.size(); ++k)
            for (int p = -2; p < 6; ++p)
                check (v[k]->fx.hasEnvelopeFor (p) == (v[k]->env.count (p) != 0), "hasEnvelopeFor (" + str (p) + ") of effect " + str (k));
    }
}

// an effect that overrides nothing it does not have to
template <typename SampleType>
struct Plain : public DSP<SampleType>
{
    void prepare (double, size_t, size_t, size_t) override {}
    void process (const AudioBuffer<SampleType>&, AudioBuffer<SampleType>&, const EnvelopeBuffers&) override {}
    void reset() override {}
    void setValue (int, double) override {}
    double getValue (int) const override { return 0; }
    bool supportsChannelLayout (size_t, size_t) const override { return true; }
    void represent (std::ostream& s) const override { s << "Plain"; }
    HART_DSP_DEFINE_COPY_AND_MOVE (Plain);
};

template <typename T> void plain()
{
    Plain<T> p;
    const int id = paramId();
    H::begin ("a plain effect, parameter " + str (id), false);
    check (! p.supportsEnvelopeFor (id), "no parameter accepts automation unless the effect says so");
    check (thrown ([&] { p.withEnvelope (id, Curve (1)); }) == "UnsupportedError" && ! p.hasEnvelopeFor (id), "attaching is refused");
}

void run()
{
    for (int i = 0; i < 2500 * g_scale; ++i) { one<float>(); one<double>(); if (i % 50 == 0) { plain<float>(); plain<double>(); } }
}
}
