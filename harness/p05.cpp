#include "host.hpp"
using namespace hart;
namespace H {

// any configuration: what the host does with the effect, the input signal and the matchers, in order
template <typename T> void one()
{
    TraceP log = std::make_shared<Trace>();
    static const double rates[] = { 44100, 48000, 96000, 22050, 8000, 1000, 1, 0.5, 999.9, 44099.5, 11025.25 };
    const double rate = coin (70) ? rates[rnd() % (sizeof rates / sizeof *rates)] : uni (0.01, 50000);
    size_t block = coin (30) ? (size_t) pick (1, 4) : coin (60) ? (size_t) pick (1, 200) : (size_t) pick (200, 5000);
    const size_t ni = channelCount (4), no = channelCount (4);
    // durations: whole and fractional numbers of frames, multiples of the block size, almost nothing
    double dur = 0;
    const int kind = pick (0, 9);
    if (kind < 3) dur = (double) pick (0, 400) / rate;
    else if (kind < 6) dur = ((double) pick (0, 400) + uni (-0.5, 0.5)) / rate;
    else if (kind < 8) dur = (double) ((size_t) pick (1, 4) * block) / rate;
    else if (kind < 9) dur = uni (0, 0.7) / rate;
    else dur = uni (0, 0.02);
    if (dur < 0) dur = 0;
    const double exact = rate * dur;
    if (exact > 20000) dur = 100 / rate;
    const size_t frames = (size_t) std::llround (rate * dur);
    const bool layout = ! coin (7), rateOk = ! coin (7), signal = ! coin (7);
    std::string what = std::string (sizeof (T) == 4 ? "float" : "double") + " rate " + str (rate) + " duration " + str (dur) + " (" + str (frames) + " frames) block " + str (block) + " " + str (ni) + "->" + str (no)
        + (layout ? "" : " layout unsupported") + (rateOk ? "" : " rate unsupported") + (signal ? "" : " no signal");
    H::begin (what);
    HostFx<T> fx (log);
    auto allowRate = std::make_shared<bool> (true);
    fx.layouts = [=] (size_t i, size_t o) { return i == ni && o == no ? layout : true; };
    fx.rates = [=] (double r) { return *allowRate || r != rate; };
    const int form = pick (0, 2);
    std::unique_ptr<HostFx<T>> own (new HostFx<T> (fx));
    const DSP<T>* given = own.get();
    auto host = form == 0 ? processAudioWith (fx) : form == 1 ? processAudioWith (HostFx<T> (fx)) : processAudioWith (std::move (own));
    if (rate != 44100 || coin()) host.withSampleRate (rate);
    if (block != 1024 || coin()) host.withBlockSize (block);
    host.withDuration (dur);
    if (ni == no && ni == 2 && coin()) host.inStereo(); else host.withInputChannels (ni).withOutputChannels (no);
    std::vector<std::pair<int, double>> values;
    for (int i = coin (60) ? pick (0, 6) : 0; i > 0; --i) { values.emplace_back (pick (-2, 3), uni (-9, 9)); host.withValue (values.back().first, values.back().second); }
    if (signal) { if (coin (20)) host.withInputSignal (HostSignal<T> (log, "X")); HostSignal<T> s (log); host.withInputSignal (s); }
    HostMatcher<T> a (log, "A"), b (log, "B"), d (log, "D");
    b.perBlock = false;
    d.verdict = [] (int, const AudioBuffer<T>&) { return false; };
    const bool withA = coin (70), withB = coin (50), withD = coin (40);
    if (withA) host.expectTrue (a);
    if (withB) host.expectTrue (b);
    if (withD) host.expectFalse (d);
    *allowRate = rateOk;
    failures().clear();
    log->lines.clear();
    what += " process"; H::begin (what, layout && rateOk && signal && frames > 0);
    std::unique_ptr<DSP<T>> back;
    const std::string got = thrown ([&] { back = host.process(); });
    const std::vector<std::string> L = log->lines;
    auto starts = [] (const std::string& l, const char* p) { return l.compare (0, std::strlen (p), p) == 0; };
    size_t audio = L.size();        // first line that has to do with audio
    for (size_t i = L.size(); i-- > 0;) if (starts (L[i], "E.process") || starts (L[i], "S.render")) audio = i;
    if (frames == 0 || ! layout || ! rateOk || ! signal)
    {
        check (! got.empty(), "an illegal test is run");
        const bool right = (got == "SizeError" && frames == 0) || (got == "ChannelLayoutError" && ! layout) || (got == "SampleRateError" && ! rateOk) || (got == "StateError" && ! signal);
        check (right, "refused with the wrong error: " + got);
        check (audio == L.size(), "audio is processed by a test that is refused");
        check (failures().empty(), "a refused test records no failure");
        return;
    }
    check (got.empty(), "a legal test is refused or fails: " + got);
    check (failures().empty(), "no check failed");
    // lifecycle before the first block
    int er = -1, ep = -1, sr = -1, sp = -1; std::vector<std::string> sets; int firstSet = -1, lastReset = -1;
    for (size_t i = 0; i < audio; ++i)
    {
        if (L[i] == "E.reset") er = lastReset = (int) i;
        if (starts (L[i], "E.prepare")) { ep = (int) i; check (L[i] == "E.prepare " + str (rate) + " " + str (ni) + " " + str (no) + " " + str (block), "the effect is prepared for something else: " + L[i]); }
        if (L[i] == "S.reset") sr = (int) i;
        if (starts (L[i], "S.prepare")) { sp = (int) i; check (L[i] == "S.prepare " + str (rate) + " " + str (ni) + " " + str (block), "the signal is prepared for something else: " + L[i]); }
        if (starts (L[i], "E.set")) { if (firstSet < 0) firstSet = (int) i; sets.push_back (L[i]); }
    }
    check (er >= 0 && ep >= 0, "the effect is reset and prepared before the first block");
    check (sr >= 0 && sp >= 0, "the signal is reset and prepared before the first block");
    check (firstSet < 0 || (firstSet > er && firstSet > ep && firstSet > lastReset), "values are set after preparation");
    check (sets.size() == values.size(), "as many values are set as were requested");
    for (size_t i = 0; i < sets.size(); ++i) check (sets[i] == "E.set " + str (values[i].first) + " " + str (values[i].second), "the requested values in the requested order: " + sets[i]);
    // blocks
    size_t rendered = 0, processed = 0;
    for (size_t i = audio; i < L.size(); ++i)
    {
        check (! starts (L[i], "E.reset") && ! starts (L[i], "E.prepare") && ! starts (L[i], "E.set") && ! starts (L[i], "S.reset") && ! starts (L[i], "S.prepare"), "set up only before the first block: " + L[i]);
        check (L[i].find (".prepare") == std::string::npos && L[i].find (".reset") == std::string::npos, "matchers are set up before the first block: " + L[i]);
        if (starts (L[i], "S.render")) { std::istringstream s (L[i].substr (9)); size_t c, n; s >> c >> n; check (c == ni && n <= block, "an input block of another shape: " + L[i]); rendered += n; }
        if (starts (L[i], "E.process"))
        {
            const size_t want = std::min (block, frames - processed);
            check (L[i] == "E.process " + str (ni) + " " + str (want) + " " + str (no) + " " + str (want), "a block of another shape: " + L[i] + " after " + str (processed) + " frames");
            processed += want;
            check (rendered >= processed, "the input of a block is rendered before it");
        }
    }
    check (processed == frames && rendered == frames, "the exact duration is rendered: " + str (rendered) + " and " + str (processed));
    // what the matchers were given
    for (const HostMatcher<T>* m : { withA ? &a : nullptr, withB ? &b : nullptr, withD ? &d : nullptr })
    {
        if (! m) continue;
        const Seen& s = *m->seen;
        const bool byBlock = m == &a;
        check (s.prepares >= 1 && s.resets >= 1 && s.rate == rate && s.ch == no && s.max == (byBlock ? block : frames), "the matcher is prepared for the output: " + m->name + " " + str (s.rate) + " " + str (s.ch) + " " + str (s.max));
        for (size_t n : s.blocks) check (n <= s.max, "a matcher gets more than it was prepared for");
        check (s.audio.size() == no, "the matcher gets all channels");
        for (size_t c = 0; c < no; ++c)
        {
            check (s.audio[c].size() == frames, "the matcher gets all frames");
            for (size_t f = 0; f < frames; ++f) check (s.audio[c][f] == (double) HostFx<T>::expected (ni, c, f), "the input is fed in order: channel " + str (c) + " frame " + str (f));
        }
    }
    check (back != nullptr && dynamic_cast<HostFx<T>*> (back.get()) != nullptr, "the effect is handed back");
    if (form == 2) check (back.get() == given, "the very effect is handed back");
}

void run()
{
    const int n = 2500 * g_scale;
    for (int i = 0; i < n; ++i) { if (coin()) one<float>(); else one<double>(); }
}
}
