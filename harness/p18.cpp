#include "host.hpp"
#include "mocks.hpp"
#include <algorithm>
using namespace hart;
namespace H {

static std::string lower (std::string s) { std::transform (s.begin(), s.end(), s.begin(), [] (unsigned char c) { return (char) std::tolower (c); }); return s; }

// the first number at or after a position
static bool numberAfter (const std::string& s, size_t from, double& out)
{
    for (size_t i = from; i < s.size(); ++i)
        if (std::isdigit ((unsigned char) s[i]) || ((s[i] == '-' || s[i] == '.') && i + 1 < s.size() && std::isdigit ((unsigned char) s[i + 1])) || s.compare (i, 3, "nan") == 0 || s.compare (i, 3, "inf") == 0)
            { out = std::strtod (s.c_str() + i, nullptr); return true; }
    return false;
}

struct Parsed { bool ch = false, fr = false, t = false, v = false, db = false; double channel = 0, frame = 0, time = 0, value = 0, level = 0; std::string rest; };

static Parsed parse (const std::string& text)
{
    Parsed p;
    std::istringstream in (text);
    std::string line;
    int no = 0;
    while (std::getline (in, line))
    {
        if (no++ < 2 || line.find ("DETAILS") != std::string::npos) continue;      // kind and condition; the matcher's own words
        const std::string l = lower (line);
        size_t k;
        if (! p.ch && (k = l.find ("channel")) != std::string::npos) p.ch = numberAfter (l, k, p.channel);
        else if (! p.fr && (k = l.find ("frame")) != std::string::npos) p.fr = numberAfter (l, k, p.frame);
        else if (! p.t && (k = l.find ("time")) != std::string::npos) p.t = numberAfter (l, k, p.time);
        else if (! p.v && (k = l.find ("sample value")) != std::string::npos)
        {
            p.v = numberAfter (l, k, p.value);
            k = l.find ('(', k);
            if (k != std::string::npos && l.find ("db", k) != std::string::npos) p.db = numberAfter (l, k, p.level);
        }
        else p.rest += line + "\n";
    }
    return p;
}

static double levelOf (double x) { x = std::fabs (x); return x < 1e-6 ? -120.0 : 20 * std::log10 (x); }
static bool near (double a, double b, double tol) { return (a != a && b != b) || a == b || std::fabs (a - b) <= tol * std::max (1.0, std::fabs (b)); }

// kind, label and condition of a report
static void header (const std::string& text, const std::string& kind, const std::string& label, const std::string& condition)
{
    static const char* kinds[] = { "expectTrue", "expectFalse", "assertTrue", "assertFalse" };
    for (auto k : kinds) check ((text.find (k) != std::string::npos) == (kind == k), "the report names the kind of check " + kind + ": " + text);
    if (! label.empty()) check (text.find (label) != std::string::npos, "the report names the label: " + text);
    else check (text.find ('"') == std::string::npos, "no label is named without one: " + text);
    check (text.find (condition) != std::string::npos, "the report names the condition: " + text);
}

static void sample (const std::string& text, size_t channel, size_t frame, size_t offset, double rate, double value)
{
    const Parsed p = parse (text);
    check (p.ch && p.channel == (double) channel, "the report names channel " + str (channel) + ": " + text);
    check (p.fr && p.frame == (double) frame, "the report names frame " + str (frame) + ": " + text);
    check (p.t && near (p.time, (double) (offset + frame) / rate, 2e-8), "the report names the position " + str ((double) (offset + frame) / rate) + ": " + text);
    check (p.v && near (p.value, value, 2e-6), "the report names the value " + str (value) + ": " + text);
    check (p.db && near (p.level, levelOf (value), 1e-5), "the report names the level " + str (levelOf (value)) + ": " + text);
}

// checks that fail at chosen samples
template <typename T> void one()
{
    TraceP log = std::make_shared<Trace>();
    const size_t ni = channelCount (3), no = channelCount (4), block = (size_t) pick (1, 12), frames = (size_t) pick (1, 60);
    const size_t nBlocks = (frames + block - 1) / block;
    static const double rates[] = { 44100, 48000, 1000, 96000, 8000.5 };
    const double rate = rates[rnd() % 5];
    const std::string label = coin() ? "" : "the label " + str (pick (0, 9));
    std::string what = std::string (sizeof (T) == 4 ? "float " : "double ") + str (ni) + "->" + str (no) + " channels, " + str (frames) + " frames at " + str (rate) + ", blocks of " + str (block) + (label.empty() ? "" : ", labelled") + ":";
    auto host = processAudioWith (HostFx<T> (log));
    host.withSampleRate (rate).withDuration ((double) frames / rate).withBlockSize (block).withInputChannels (ni).withOutputChannels (no).withInputSignal (HostSignal<T> (log));
    if (! label.empty()) host.withLabel (label);
    struct Plan { bool assertion, positive; size_t offset, channel, frame; std::string name, desc; };
    std::vector<Plan> plan;
    for (int i = 0, n = pick (1, 5); i < n; ++i)
    {
        Plan p;
        p.assertion = coin (10); p.positive = coin (70);
        const bool byBlock = coin (60), inBlocks = byBlock && p.positive;
        const size_t at = inBlocks ? rnd() % nBlocks : 0;
        p.offset = inBlocks ? at * block : 0;
        const size_t len = inBlocks ? std::min (block, frames - p.offset) : frames;
        p.channel = rnd() % no; p.frame = rnd() % len;
        p.name = "Condition" + std::string (1, (char) ('A' + i)) + ";"; p.desc = "DETAILS" + std::string (1, (char) ('A' + i)) + ";";
        HostMatcher<T> m (nullptr, p.name);
        m.perBlock = byBlock;
        m.details.channel = (int) p.channel; m.details.frame = p.frame; m.details.description = p.desc;
        const bool pos = p.positive; const int call = (int) at;
        m.verdict = [=] (int k, const AudioBuffer<T>&) { return pos ? k != call : true; };
        what += std::string (p.assertion ? " assert" : " expect") + (pos ? "True" : "False") + (inBlocks ? "/block " + str (at) : "/full") + " channel " + str (p.channel) + " frame " + str (p.frame);
        if (p.assertion && pos) host.assertTrue (m); else if (p.assertion) host.assertFalse (m); else if (pos) host.expectTrue (m); else host.expectFalse (m);
        plan.push_back (p);
    }
    failures().clear();
    H::begin (what);
    std::vector<std::string> reports;
    std::string asserted;
    try { host.process(); } catch (const TestAssertException& e) { asserted = e.what(); reports.push_back (asserted); }
    for (auto& f : failures()) reports.push_back (f);
    check (! reports.empty(), "failures are reported");
    for (auto& r : reports)
    {
        const Plan* p = nullptr;
        for (auto& q : plan) if (r.find (q.name) != std::string::npos) { check (p == nullptr, "a report names one condition: " + r); p = &q; }
        check (p != nullptr, "a report names the condition of its check: " + r);
        check (p->assertion == (! asserted.empty() && &r == &reports[0]), "assertions end the test: " + r);
        header (r, std::string (p->assertion ? "assert" : "expect") + (p->positive ? "True" : "False"), label, p->name);
        if (p->positive)
        {
            sample (r, p->channel, p->frame, p->offset, rate, (double) HostFx<T>::expected (ni, p->channel, p->offset + p->frame));
            check (r.find (p->desc) != std::string::npos, "the report has the matcher's description: " + r);
        }
        else
        {
            const Parsed q = parse (r);
            check (! q.ch && ! q.fr && ! q.t && ! q.v && r.find ("DETAILS") == std::string::npos, "the report of an inverted check names no sample: " + r);
        }
    }
}

// the matchers that come with the library: what they say is about the sample they report
template <typename T> void real()
{
    const size_t ch = channelCount (3), frames = (size_t) pick (1, 40), block = (size_t) pick (1, 15);
    auto t = std::make_shared<Table<T>> (randomTable<T> (ch, frames, coin (20), false));
    auto ref = std::make_shared<Table<T>> (*t);
    for (int i = pick (1, 3); i > 0; --i) (*ref)[rnd() % ch][rnd() % frames] = coin (80) ? (T) uni (-1.5, 1.5) : (T) 0;
    const int kind = pick (0, 2);
    const double rate = 1000;
    const double target = coin (20) ? -130 : uni (-20, 3), tol = coin() ? 1e-3 : uni (0, 0.1);
    const std::string what = std::string (sizeof (T) == 4 ? "float " : "double ") + (kind == 0 ? "PeaksBelow" : kind == 1 ? "PeaksAt" : "EqualsTo") + " " + str (target) + " " + str (tol) + ", " + str (ch) + " channels, " + str (frames) + " frames, blocks of " + str (block);
    H::begin (what);
    auto host = processAudioWith (GainLinear<T> (1.0));
    host.withSampleRate (rate).withDuration ((double) frames / rate).withBlockSize (block).withInputChannels (ch).withOutputChannels (ch).withInputSignal (TableSignal<T> (t));
    if (kind == 0) host.expectTrue (PeaksBelow<T> (target, tol));
    else if (kind == 1) host.expectTrue (PeaksAt<T> (target, tol));
    else host.expectTrue (EqualsTo<T> (TableSignal<T> (ref), tol));
    failures().clear();
    const std::string got = thrown ([&] { host.process(); });
    check (got.empty(), "the test runs: " + got);
    if (failures().empty()) return;
    const std::string r = failures()[0];
    header (r, "expectTrue", "", kind == 0 ? "PeaksBelow" : kind == 1 ? "PeaksAt" : "EqualsTo");
    const Parsed p = parse (r);
    check (p.ch && p.fr && p.t && p.v && p.db, "the report names the sample: " + r);
    const size_t c = (size_t) p.channel, at = (size_t) std::llround (p.time * rate);
    check (c < ch && at < frames, "the reported sample exists: " + r);
    const double x = (double) (*t)[c][at], y = (double) (*ref)[c][at];
    sample (r, c, (size_t) p.frame, at - (size_t) p.frame, rate, x);
    const std::string d = lower (p.rest);
    double n = 0;
    if (kind < 2)
    {
        size_t k = d.find ("peak");
        check (k != std::string::npos && numberAfter (d, k, n) && near (n, levelOf (x), 1e-4), "the description names the observed peak: " + r);
        return;
    }
    size_t k = d.find ("expected"), q = d.find ("difference");
    check (k != std::string::npos && numberAfter (d, k, n) && near (n, y, 2e-6), "the description names the expected value " + str (y) + ": " + r);
    check (numberAfter (d, d.find ('(', k), n) && near (n, levelOf (y), 1e-4), "the description names the level of the expected value: " + r);
    check (q != std::string::npos && numberAfter (d, q, n) && near (n, std::fabs (x - y), 2e-6), "the description names the difference: " + r);
    check (numberAfter (d, d.find ('(', q), n) && (std::fabs (x - y) < 2e-3 || near (n, levelOf (x - y), 2e-3)), "the description names the level of the difference: " + r);
}

void run()
{
    CLIConfig& c = CLIConfig::getInstance();
    c.initCommandLineArgs();
    c.getCLIApp().parse ("--lin-decimals 12 --db-decimals 9 --sec-decimals 12");
    const int n = 2500 * g_scale;
    for (int i = 0; i < n; ++i)
    {
        if (coin()) { one<float>(); real<float>(); } else { one<double>(); real<double>(); }
    }
}
}
