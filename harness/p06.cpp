#include "host.hpp"
using namespace hart;
namespace H {

// every configuration call, in any order, legal or not; what the host then does with effect, signal and checks must
// show exactly the settings last accepted
template <typename T> void one()
{
    TraceP log = std::make_shared<Trace>();
    HostFx<T> fx (log);
    const int odd = pick (0, 3);
    if (odd == 0) fx.rates = [] (double r) { return r != 48000; };
    if (odd == 1) fx.rates = [] (double r) { return r > 1000 && r < 90000; };
    double rate = 44100, dur = 0.1; size_t block = 1024, ni = 1, no = 1;
    std::string label; bool hasLabel = false;
    std::vector<std::pair<int, double>> values;
    std::string what = std::string (sizeof (T) == 4 ? "float" : "double") + " rates " + str (odd) + ":";
    H::begin (what);
    const bool viaPointer = coin (20);
    auto host = viaPointer ? processAudioWith (std::unique_ptr<HostFx<T>> (new HostFx<T> (fx))) : processAudioWith (fx);
    const double nan = std::numeric_limits<double>::quiet_NaN(), huge = std::numeric_limits<double>::infinity();
    const int steps = pick (0, 14);
    auto attempt = [&] (bool legal, const std::string& name, std::function<const void*()> call, std::string error)
    {
        what += " " + name; H::begin (what);
        const void* r = nullptr;
        std::string got = thrown ([&] { r = call(); });
        if (legal) { check (got.empty(), "a legal setting is refused: " + got); check (r == (const void*) &host, "the test itself is returned"); }
        else check (! got.empty() && (error.empty() || got == error), "an illegal setting is accepted, or refused with the wrong error: " + got);
    };
    for (int i = 0; i < steps; ++i)
        switch (pick (0, 13))
        {
            case 0: case 1:
            {
                static const double rs[] = { 0, -0.0, -1, -44100, 1, 0.5, 44100, 48000, 96000, 22050.5, 8000, 999.999, 1000.5, 1e5 };
                double r = coin (10) ? nan : coin (5) ? -huge : coin (70) ? rs[rnd() % (sizeof rs / sizeof *rs)] : uni (-1e4, 1e5);
                const bool sup = r > 0 && fx.rates (r);
                attempt (sup, "withSampleRate " + str (r), [&] { return &host.withSampleRate (r); }, r > 0 ? "SampleRateError" : "ValueError");
                if (sup) rate = r;
                break;
            }
            case 2: { const size_t b = coin (25) ? 0 : (size_t) pick (1, 3000); attempt (b > 0, "withBlockSize " + str (b), [&] { return &host.withBlockSize (b); }, "SizeError"); if (b) block = b; break; }
            case 3: case 4:
            {
                static const double ds[] = { 0, -0.0, 1e-3, 0.01, 0.05, 0.1, -1e-300, -1, 1e-320 };
                double d = coin (10) ? nan : coin (5) ? -huge : coin (60) ? ds[rnd() % (sizeof ds / sizeof *ds)] : uni (-0.05, 0.1);
                attempt (d >= 0, "withDuration " + str (d), [&] { return &host.withDuration (d); }, "ValueError");
                if (d >= 0) dur = d;
                break;
            }
            case 5: case 6:
            {
                static const size_t cs[] = { 0, 1, 2, 3, 5, 127, 128, 129, 130, 256, 1024, (size_t) -1, ((size_t) 1 << 32) + 1 };
                const size_t n = cs[rnd() % (sizeof cs / sizeof *cs)];
                const bool in = coin(), ok = n >= 1 && n <= 128;
                attempt (ok, std::string (in ? "withInputChannels " : "withOutputChannels ") + str (n), [&] { return in ? &host.withInputChannels (n) : &host.withOutputChannels (n); }, "SizeError");
                if (ok) (in ? ni : no) = n;
                break;
            }
            case 7: attempt (true, "withStereoInput", [&] { return &host.withStereoInput(); }, ""); ni = 2; break;
            case 8: attempt (true, "withStereoOutput", [&] { return &host.withStereoOutput(); }, ""); no = 2; break;
            case 9: { const bool in = coin(); attempt (true, in ? "withMonoInput" : "withMonoOutput", [&] { return in ? &host.withMonoInput() : &host.withMonoOutput(); }, ""); (in ? ni : no) = 1; break; }
            case 10: { const bool mono = coin(); attempt (true, mono ? "inMono" : "inStereo", [&] { return mono ? &host.inMono() : &host.inStereo(); }, ""); ni = no = mono ? 1 : 2; break; }
            case 11: { label = coin (20) ? "" : coin() ? "label \"x\" " + str (i) : std::string ((size_t) pick (1, 40), 'l'); attempt (true, "withLabel " + label, [&] { return &host.withLabel (label); }, ""); hasLabel = ! label.empty(); break; }
            default:
            {
                const int id = pick (-2, 3); const double v = coin (10) ? huge : sampleValue<double> (false);
                attempt (true, "withValue " + str (id) + " " + str (v), [&] { return &host.withValue (id, v); }, "");
                values.emplace_back (id, v);
            }
        }
    // two checks that always fail report the label; the matchers see the settings for the output
    HostMatcher<T> m (nullptr, "full"), n (nullptr, "blocks");
    m.verdict = [] (int, const AudioBuffer<T>&) { return true; };
    const size_t frames = (size_t) std::llround (rate * dur);
    attempt (true, "checks", [&] { host.expectFalse (m); host.expectTrue (n); return &host.withInputSignal (HostSignal<T> (log)); }, "");
    failures().clear();
    log->lines.clear();
    std::unique_ptr<DSP<T>> back;
    what += " process"; H::begin (what);
    std::string got = thrown ([&] { back = host.process(); });
    if (frames == 0) { check (got == "SizeError", "a test without frames is refused: " + got); return; }
    check (got.empty(), "the test runs: " + got);
    std::vector<std::string> sets;
    for (auto& l : log->lines) if (l.compare (0, 6, "E.set ") == 0) sets.push_back (l);
    check (sets.size() == values.size(), "as many parameter values are set as were requested");
    for (size_t i = 0; i < sets.size(); ++i) check (sets[i] == "E.set " + str (values[i].first) + " " + str (values[i].second), "the parameter values are the requested ones: " + sets[i]);
    bool fp = false, sp = false; size_t total = 0;
    for (auto& l : log->lines)
    {
        if (l.compare (0, 10, "E.prepare ") == 0) { fp = true; check (l == "E.prepare " + str (rate) + " " + str (ni) + " " + str (no) + " " + str (block), "the effect gets other settings: " + l); }
        if (l.compare (0, 10, "S.prepare ") == 0) { sp = true; check (l == "S.prepare " + str (rate) + " " + str (ni) + " " + str (block), "the signal gets other settings: " + l); }
        if (l.compare (0, 9, "S.render ") == 0) { std::istringstream s (l.substr (9)); size_t a, b; s >> a >> b; check (a == ni && b <= block, "a block has other settings: " + l); total += b; }
    }
    check (fp && sp, "effect and signal are prepared");
    check (total == frames, "duration: " + str (total) + " frames instead of " + str (frames));
    check (m.seen->rate == rate && m.seen->ch == no && n.seen->rate == rate && n.seen->ch == no && n.seen->max == block, "the checks get the settings");
    check (failures().size() == 1, "one check fails");
    const std::string& f = failures()[0];
    check ((f.find (" at \"" + label + "\"") != std::string::npos) == hasLabel, "the label is reported exactly if there is one: " + f);
}

void run()
{
    const int n = 1200 * g_scale;
    for (int i = 0; i < n; ++i) { if (coin()) one<float>(); else one<double>(); }
}
}
