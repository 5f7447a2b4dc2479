#include "host.hpp"
using namespace hart;
namespace H {

struct Plan { bool assertion, positive, perBlock; int failAt; std::string name; std::shared_ptr<Seen> seen; };

// any mixture of checks; which of them fail, and when, is decided here; the recorded failures, the audio each check was
// given and the end of the test must follow
template <typename T> void one()
{
    TraceP log = std::make_shared<Trace>();
    const size_t ni = channelCount (3), no = channelCount (3), block = (size_t) pick (1, 12), frames = (size_t) pick (1, 60);
    const size_t nBlocks = (frames + block - 1) / block;
    std::string what = std::string (sizeof (T) == 4 ? "float " : "double ") + str (ni) + "->" + str (no) + " channels, " + str (frames) + " frames, blocks of " + str (block) + ":";
    HostFx<T> fx (log);
    auto host = processAudioWith (fx);
    host.withSampleRate (1000).withDuration ((double) frames / 1000).withBlockSize (block).withInputChannels (ni).withOutputChannels (no).withInputSignal (HostSignal<T> (log));
    if (coin (30)) host.withLabel ("label");
    std::vector<Plan> plan;
    const int n = pick (0, 7);
    const bool calm = coin (40);       // few failures
    for (int i = 0; i < n; ++i)
    {
        Plan p;
        p.assertion = coin (25); p.positive = coin (65); p.perBlock = coin (60);
        const bool byBlock = p.positive && p.perBlock;
        const size_t calls = byBlock ? nBlocks : 1;
        p.failAt = coin (calm ? 15 : 55) ? (int) (rnd() % calls) : -1;
        p.name = "M" + str (i) + ";";
        HostMatcher<T> m (log, p.name);
        p.seen = m.seen;
        m.perBlock = p.perBlock;
        const int failAt = p.failAt; const bool pos = p.positive, again = coin();
        m.verdict = [=] (int call, const AudioBuffer<T>&) { const bool wrong = failAt >= 0 && (call == failAt || (again && call > failAt)); return wrong != pos; };
        const HostMatcher<T>& constant = m;
        const Matcher<T>& base = m;
        const int form = pick (0, 3);
        what += std::string (" ") + (p.assertion ? "assert" : "expect") + (p.positive ? "True" : "False") + (p.perBlock ? "/block" : "/full") + " fails at " + str (p.failAt) + ",";
        H::begin (what);
        AudioTestBuilder<T>* r = nullptr;
        #define ADD(method) r = form == 0 ? &host.method (m) : form == 1 ? &host.method (constant) : form == 2 ? &host.method (base) : &host.method (HostMatcher<T> (m))
        if (p.assertion && p.positive) ADD (assertTrue);
        else if (p.assertion) ADD (assertFalse);
        else if (p.positive) ADD (expectTrue);
        else ADD (expectFalse);
        check (r == &host, "the test itself is returned");
        check (m.name == p.name && m.calls == 0, "a named matcher is not used up");
        plan.push_back (p);
    }
    failures().clear();
    const size_t earlier = (size_t) pick (0, 2);
    for (size_t i = 0; i < earlier; ++i) failures().push_back ("earlier " + str (i));
    log->lines.clear();
    what += " process"; H::begin (what);
    std::unique_ptr<DSP<T>> back;
    const std::string got = thrown ([&] { back = host.process(); });

    // first block (nBlocks: the full signal) in which an assertion fails
    size_t stop = nBlocks + 1;
    for (auto& p : plan) if (p.assertion && p.failAt >= 0) stop = std::min (stop, p.positive && p.perBlock ? (size_t) p.failAt : nBlocks);
    const bool ends = stop <= nBlocks;
    check (got == (ends ? "TestAssertException" : ""), ends ? "a failing assertion ends the test: " + got : "the test runs to its end: " + got);
    check (! ends || back == nullptr, "no effect is returned");
    for (size_t i = 0; i < earlier; ++i) check (failures().size() > i && failures()[i] == "earlier " + str (i), "failures recorded before are kept");
    size_t total = 0;
    for (auto& p : plan)
    {
        const size_t when = p.failAt < 0 ? nBlocks + 2 : p.positive && p.perBlock ? (size_t) p.failAt : nBlocks;
        size_t count = 0;
        for (size_t i = earlier; i < failures().size(); ++i) count += failures()[i].find (p.name) != std::string::npos;
        total += count;
        if (p.assertion || p.failAt < 0) check (count == 0, "no failure is recorded for " + p.name);
        else if (when < stop) check (count == 1, "one failure is recorded for " + p.name + ": " + str (count));
        else if (when > stop) check (count == 0, "no failure is recorded after the test ended: " + p.name);
        else check (count <= 1, "at most one failure is recorded for " + p.name);
        // the audio it saw
        const Seen& s = *p.seen;
        check (s.prepares >= 1 && s.resets >= 1, "the matcher is prepared and reset: " + p.name);
        size_t seen = s.audio.empty() ? 0 : s.audio[0].size();
        const bool byBlock = p.positive && p.perBlock;
        if (when < stop || ! ends)
        {
            const size_t want = when > nBlocks ? frames : byBlock ? std::min (frames, (when + 1) * block) : frames;
            check (seen == want, "the check " + p.name + " sees " + str (seen) + " frames instead of " + str (want));
        }
        if (seen > 0) check (s.audio.size() == no, "the check sees all channels");
        for (size_t c = 0; c < s.audio.size(); ++c)
            for (size_t f = 0; f < seen; ++f)
                check (s.audio[c][f] == (double) HostFx<T>::expected (ni, c, f), "the check " + p.name + " sees the output: channel " + str (c) + " frame " + str (f));
        if (! byBlock) check (s.matches <= 1, "inverted checks and those that need it get the full output at once");
    }
    check (failures().size() == earlier + total, "every recorded failure belongs to a check");
    size_t processed = 0;
    for (auto& l : log->lines) processed += l.compare (0, 10, "E.process ") == 0;
    check (processed == std::min (stop + 1, nBlocks), "a failing assertion ends the test at once: " + str (processed) + " blocks");
}

// the same matcher object in two checks
template <typename T> void twice()
{
    HostMatcher<T> m (nullptr, "twice");
    const bool ok = coin();
    m.verdict = [ok] (int, const AudioBuffer<T>&) { return ok; };
    const std::string what = std::string ("the same matcher expected to pass and to fail, verdict ") + (ok ? "true" : "false");
    H::begin (what);
    TraceP log = std::make_shared<Trace>();
    auto host = processAudioWith (HostFx<T> (log));
    host.withSampleRate (1000).withDuration (0.02).withBlockSize (7).withInputSignal (HostSignal<T> (log));
    // each check counts, also when its report reads like that of another one
    const int positive = pick (0, 3), negative = pick (0, 3);
    for (int i = 0; i < positive; ++i) host.expectTrue (m);
    for (int i = 0; i < negative; ++i) host.expectFalse (m);
    failures().clear();
    check (thrown ([&] { host.process(); }).empty(), "the test runs");
    check (failures().size() == (size_t) (ok ? negative : positive), str (positive) + " times expected to pass and " + str (negative) + " times to fail: " + str (failures().size()) + " failures");
}

void run()
{
    const int n = 2500 * g_scale;
    for (int i = 0; i < n; ++i)
    {
        if (coin()) one<float>(); else one<double>();
        if (i % 50 == 0) { twice<float>(); twice<double>(); }
    }
}
}
