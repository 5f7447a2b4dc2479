#pragma once
#include "common.hpp"
#include <memory>
namespace H {

struct Log { std::vector<std::string> lines; void add (const std::string& s) { lines.push_back (s); } };

// a signal that plays a table (channel 0 for missing channels), then silence
template <typename SampleType>
class TableSignal : public hart::Signal<SampleType>
{
public:
    using T = SampleType;
    template <typename U> using Signal = hart::Signal<U>;
    TableSignal (std::shared_ptr<Table<T>> t, std::shared_ptr<Log> log = nullptr, std::string name = "S") : t (t), log (log), name (name) {}
    bool supportsNumChannels (size_t n) const override { return maxChannels == 0 || n <= maxChannels; }
    bool supportsSampleRate (double r) const override { return onlyRate == 0 || r == onlyRate; }
    void prepare (double sr, size_t ch, size_t n) override { if (log) log->add (name + ".prepare " + str (sr) + " " + str (ch) + " " + str (n)); }
    void renderNextBlock (hart::AudioBuffer<T>& out) override
    {
        if (log) log->add (name + ".render " + str (out.getNumChannels()) + " " + str (out.getNumFrames()));
        for (size_t c = 0; c < out.getNumChannels(); ++c)
            for (size_t f = 0; f < out.getNumFrames(); ++f)
                out[c][f] = c < t->size() && pos + f < (*t)[c].size() ? (*t)[c][pos + f] : (T) 0;
        pos += out.getNumFrames();
    }
    void reset() override { if (log) log->add (name + ".reset"); pos = 0; }
    void represent (std::ostream& s) const override { s << "TableSignal"; }
    HART_SIGNAL_DEFINE_COPY_AND_MOVE (TableSignal);
    std::shared_ptr<Table<T>> t;
    std::shared_ptr<Log> log;
    std::string name;
    size_t pos = 0, maxChannels = 0;
    double onlyRate = 0;
};
}
