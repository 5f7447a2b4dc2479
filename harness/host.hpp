// Mock effect, signal and matcher for driving the audio test host; they record what the host does with them.
#pragma once
#include "common.hpp"
#include <memory>
#include <map>
namespace H {

struct Trace { std::vector<std::string> lines; void add (const std::string& s) { lines.push_back (s); } };
using TraceP = std::shared_ptr<Trace>;

template <typename T> inline T sampleAt (size_t c, size_t f) { return (T) ((int) ((f * 7 + c * 31 + f / 5) % 23) - 11) / (T) 16; }

template <typename SampleType>
struct HostSignal : public hart::Signal<SampleType>
{
    using T = SampleType;
    template <typename U> using Signal = hart::Signal<U>;
    TraceP log; std::string name; size_t pos = 77;
    HostSignal (TraceP log, std::string name = "S") : log (log), name (name) {}
    bool supportsNumChannels (size_t) const override { return true; }
    void prepare (double r, size_t n, size_t m) override { log->add (name + ".prepare " + str (r) + " " + str (n) + " " + str (m)); }
    void renderNextBlock (hart::AudioBuffer<T>& o) override
    {
        log->add (name + ".render " + str (o.getNumChannels()) + " " + str (o.getNumFrames()));
        for (size_t c = 0; c < o.getNumChannels(); ++c)
            for (size_t f = 0; f < o.getNumFrames(); ++f) o[c][f] = sampleAt<T> (c, pos + f);
        pos += o.getNumFrames();
    }
    void reset() override { log->add (name + ".reset"); pos = 0; }
    void represent (std::ostream& s) const override { s << name; }
    HART_SIGNAL_DEFINE_COPY_AND_MOVE (HostSignal);
};

// out[c][f] = in[c % ni][f] - c / 4 + (sum of the values set) ; offset by nothing until prepared
template <typename SampleType>
struct HostFx : public hart::DSP<SampleType>
{
    using T = SampleType;
    template <typename U> using DSP = hart::DSP<U>;
    TraceP log; std::string name;
    std::function<bool (size_t, size_t)> layouts = [] (size_t, size_t) { return true; };
    std::function<bool (double)> rates = [] (double) { return true; };
    double sum = 0;
    HostFx (TraceP log, std::string name = "E") : log (log), name (name) {}
    void prepare (double r, size_t ni, size_t no, size_t m) override { log->add (name + ".prepare " + str (r) + " " + str (ni) + " " + str (no) + " " + str (m)); }
    void process (const hart::AudioBuffer<T>& i, hart::AudioBuffer<T>& o, const hart::EnvelopeBuffers&) override
    {
        log->add (name + ".process " + str (i.getNumChannels()) + " " + str (i.getNumFrames()) + " " + str (o.getNumChannels()) + " " + str (o.getNumFrames()));
        for (size_t c = 0; c < o.getNumChannels(); ++c)
            for (size_t f = 0; f < o.getNumFrames(); ++f) o[c][f] = outAt (i[c % i.getNumChannels()][f], c);
    }
    static T outAt (T x, size_t c) { return x * (T) 2 + (T) ((int) (c % 3)) / (T) 4; }
    static T expected (size_t ni, size_t c, size_t f) { return outAt (sampleAt<T> (c % ni, f), c); }
    void reset() override { log->add (name + ".reset"); }
    void setValue (int id, double v) override { log->add (name + ".set " + str (id) + " " + str (v)); }
    double getValue (int) const override { return 0; }
    bool supportsChannelLayout (size_t i, size_t o) const override { return layouts (i, o); }
    bool supportsSampleRate (double r) const override { return rates (r); }
    void represent (std::ostream& s) const override { s << name; }
    bool supportsEnvelopeFor (int) const override { return true; }
    HART_DSP_DEFINE_COPY_AND_MOVE (HostFx);
};

// what a matcher has seen is shared by its copies
struct Seen { int prepares = 0, resets = 0, matches = 0, copies = 0; double rate = 0; size_t ch = 0, max = 0; bool order = true; std::vector<std::vector<double>> audio; size_t pos = 0; std::vector<size_t> blocks; };

template <typename SampleType>
struct HostMatcher : public hart::Matcher<SampleType>
{
    using T = SampleType;
    template <typename U> using Matcher = hart::Matcher<U>;
    std::shared_ptr<Seen> seen = std::make_shared<Seen>();
    TraceP log; std::string name; bool perBlock = true;
    std::function<bool (int, const hart::AudioBuffer<T>&)> verdict = [] (int, const hart::AudioBuffer<T>&) { return true; };
    hart::MatcherFailureDetails details;
    int calls = 0;
    HostMatcher (TraceP log, std::string name = "M") : log (log), name (name) { details.channel = 0; details.frame = 0; details.description = "none"; }
    void prepare (double r, size_t n, size_t m) override
    {
        if (log) log->add (name + ".prepare " + str (r) + " " + str (n) + " " + str (m));
        ++seen->prepares; seen->rate = r; seen->ch = n; seen->max = m;
    }
    bool match (const hart::AudioBuffer<T>& b) override
    {
        if (log) log->add (name + ".match " + str (b.getNumChannels()) + " " + str (b.getNumFrames()));
        ++seen->matches;
        seen->blocks.push_back (b.getNumFrames());
        if (seen->audio.size() < b.getNumChannels()) seen->audio.resize (b.getNumChannels());
        for (size_t c = 0; c < b.getNumChannels(); ++c) for (size_t f = 0; f < b.getNumFrames(); ++f) seen->audio[c].push_back ((double) b[c][f]);
        return verdict (calls++, b);
    }
    bool canOperatePerBlock() override { return perBlock; }
    void reset() override { if (log) log->add (name + ".reset"); ++seen->resets; seen->audio.clear(); seen->blocks.clear(); calls = 0; }
    hart::MatcherFailureDetails getFailureDetails() const override { return details; }
    void represent (std::ostream& s) const override { s << name; }
    HART_MATCHER_DEFINE_COPY_AND_MOVE (HostMatcher);
};

inline std::vector<std::string>& failures() { return hart::ExpectationFailureMessages::get(); }
}
