#include "host.hpp"
#include <fstream>
#include <set>
#include <dirent.h>
#include <sys/stat.h>
using namespace hart;
namespace H {

static std::string base;

static void setRoot (const std::string& root)
{
    CLIConfig& c = CLIConfig::getInstance();
    static bool once = (c.initCommandLineArgs(), true);
    (void) once;
    c.getCLIApp().parse ("--data-root-path \"" + root + "\"");
}

static void filesBelow (const std::string& dir, const std::string& rel, std::set<std::string>& out)
{
    DIR* d = opendir (dir.c_str());
    if (! d) return;
    while (dirent* e = readdir (d))
    {
        const std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        struct stat st;
        if (lstat ((dir + "/" + n).c_str(), &st) == 0 && S_ISDIR (st.st_mode)) filesBelow (dir + "/" + n, rel + n + "/", out);
        else out.insert (rel + n);
    }
    closedir (d);
}

static std::string slurp (const std::string& p)
{
    std::ifstream f (p.c_str(), std::ios::binary);
    std::ostringstream s; s << f.rdbuf(); return s.str();
}

static void makeDir (const std::string& p) { mkdir (p.c_str(), 0755); }

// any save modes, formats, paths and outcomes: which files exist afterwards, where, and what is in them
template <typename T> void one()
{
    // the data root and the working directory are different places
    const char* roots[] = { "/root", "/root/with space", "/root/deep/er" };
    const std::string root = base + roots[rnd() % 3];
    setRoot (root);
    TraceP log = std::make_shared<Trace>();
    const size_t ni = channelCount (3), no = channelCount (3), frames = (size_t) pick (1, 50), block = (size_t) pick (1, 30);
    static const double rates[] = { 44100, 48000, 8000, 96000, 1000 };
    const double rate = rates[rnd() % 5];
    HostFx<T> fx (log);
    auto host = processAudioWith (fx);
    host.withSampleRate (rate).withDuration ((double) frames / rate).withBlockSize (block).withInputChannels (ni).withOutputChannels (no).withInputSignal (HostSignal<T> (log));
    if (coin (20)) host.withLabel ("label");
    auto modeName = [] (Save s) { return std::string (s == Save::always ? "always" : s == Save::whenFails ? "whenFails" : "never"); };
    static const Save modes[] = { Save::always, Save::whenFails, Save::never };
    static const WavFormat formats[] = { WavFormat::pcm16, WavFormat::pcm24, WavFormat::pcm32, WavFormat::float32 };
    auto somePath = [&] (const std::string& name, std::string& where) -> std::string
    {
        const int k = pick (0, 9);
        if (k == 0) { where = ""; return ""; }
        if (k < 4) { where = root + "/" + name; return name; }
        if (k < 6) { where = root + "/sub/" + name; return "sub/" + name; }
        if (k < 7) { where = root + "/sub/" + name; return "./sub/" + name; }
        if (k < 8) { where = root + "/x " + name; return "x " + name; }
        where = base + "/abs/" + name; return where;
    };
    std::string what = std::string (sizeof (T) == 4 ? "float " : "double ") + str (ni) + "->" + str (no) + " channels, " + str (frames) + " frames, blocks of " + str (block) + ", root " + root + ":";
    // the requests, possibly several; an empty path leaves the earlier one
    std::string wav, svg; Save wavMode = Save::never, svgMode = Save::never; WavFormat fmt = WavFormat::pcm24;
    for (int i = pick (0, 3); i > 0; --i)
    {
        std::string where;
        if (coin (60))
        {
            const std::string p = somePath ("out" + str (i) + ".wav", where);
            const Save m = modes[rnd() % 3]; const WavFormat f = formats[rnd() % 4];
            const int args = pick (0, 2);
            what += " wav \"" + p + "\" " + (args == 0 ? "default" : modeName (m)) + " " + (args == 2 ? "format " + str ((int) f) : std::string ("default")) + ",";
            H::begin (what);
            auto* r = args == 0 ? &host.saveOutputTo (p) : args == 1 ? &host.saveOutputTo (p, m) : &host.saveOutputTo (p, m, f);
            check (r == &host, "the test itself is returned");
            if (! p.empty()) { wav = where; wavMode = args == 0 ? Save::always : m; fmt = args == 2 ? f : WavFormat::pcm24; }
        }
        else
        {
            const std::string p = somePath ("plot" + str (i) + ".svg", where);
            const Save m = modes[rnd() % 3];
            const bool args = coin (70);
            what += " plot \"" + p + "\" " + (args ? modeName (m) : "default") + ",";
            H::begin (what);
            auto* r = args ? &host.savePlotTo (p, m) : &host.savePlotTo (p);
            check (r == &host, "the test itself is returned");
            if (! p.empty()) { svg = where; svgMode = args ? m : Save::always; }
        }
    }
    const size_t nBlocks = (frames + block - 1) / block;
    bool failed = false;
    for (int i = pick (0, 4); i > 0; --i)
    {
        HostMatcher<T> m (nullptr, "M");
        const bool wrong = coin (25), pos = coin (60);
        m.perBlock = coin (70);
        const int at = pos && m.perBlock ? pick (0, (int) nBlocks - 1) : 0;
        m.verdict = [=] (int call, const AudioBuffer<T>&) { return pos ? ! (wrong && call == at) : wrong; };
        if (pos) host.expectTrue (m); else host.expectFalse (m);
        failed = failed || wrong;
        what += std::string (pos ? " expectTrue" : " expectFalse") + (m.perBlock ? "/block" : "/full") + (wrong ? " fails at " + str (at) : "");
    }
    failures().clear();
    if (coin (30)) failures().push_back ("an earlier failure");
    std::set<std::string> before, after, want;
    filesBelow (base, "", before);
    what += " process"; H::begin (what, wavMode != Save::never || svgMode != Save::never);
    const std::string got = thrown ([&] { host.process(); });
    check (got.empty(), "the test runs: " + got);
    filesBelow (base, "", after);
    auto due = [&] (Save m) { return m == Save::always || (m == Save::whenFails && failed); };
    if (! wav.empty() && due (wavMode)) want.insert (wav.substr (base.size() + 1));
    if (! svg.empty() && due (svgMode)) want.insert (svg.substr (base.size() + 1));
    std::set<std::string> made;
    for (auto& f : after) if (! before.count (f)) made.insert (f);
    for (auto& f : want) check (made.count (f), "a requested file is missing: " + f);
    for (auto& f : made) check (want.count (f), "a file was written that was not requested: " + f);
    // their contents: what the writers make of the complete input and output
    AudioBuffer<T> in (ni, frames), out (no, frames);
    for (size_t c = 0; c < ni; ++c) for (size_t f = 0; f < frames; ++f) in[c][f] = sampleAt<T> (c, f);
    for (size_t c = 0; c < no; ++c) for (size_t f = 0; f < frames; ++f) out[c][f] = HostFx<T>::expected (ni, c, f);
    if (! wav.empty() && due (wavMode))
    {
        WavWriter<T>::writeBuffer (out, base + "/ref.wav", rate, fmt);
        check (slurp (wav) == slurp (base + "/ref.wav"), "the file holds something else than the complete output in the requested format");
        std::remove (wav.c_str());
    }
    if (! svg.empty() && due (svgMode))
    {
        plotData (in, out, rate, base + "/ref.svg");
        check (slurp (svg) == slurp (base + "/ref.svg"), "the plot shows something else than the complete input and output");
        std::remove (svg.c_str());
    }
}

void paths()
{
    static const char* ps[] = { "", "a", "a/b", "./a", "../a", "/", "/a", "/a/b.wav", "a/", " /a", "\\a", "a:b", "C", "~/a", ".", "..", "x//y", "//a" };
    static const char* roots[] = { ".", "/r", "r/s", "/r/", "" };
    for (auto r : roots)
    {
        if (*r) setRoot (r);
        const std::string root = CLIConfig::getInstance().getDataRootPath();
        for (auto p : ps)
        {
            begin ("path \"" + std::string (p) + "\" root \"" + root + "\"");
            const std::string s (p);
            const bool abs = ! s.empty() && (s[0] == '/' || s[0] == '\\');
            check (isAbsolutePath (s) == abs, "a path is absolute iff it begins with a separator");
            check (toAbsolutePath (s) == (abs ? s : root + "/" + s), "resolved as " + toAbsolutePath (s));
        }
    }
}

void run()
{
    const char* p = std::getenv ("HART_VERIF_SCRATCH");
    base = std::string (p ? p : ".") + "/p19";
    for (const char* d : { "", "/root", "/root/sub", "/root/with space", "/root/with space/sub", "/root/deep", "/root/deep/er", "/root/deep/er/sub", "/abs", "/cwd", "/cwd/sub" }) makeDir (base + d);
    if (chdir ((base + "/cwd").c_str()) != 0) {}
    // nothing left from another run
    std::set<std::string> old;
    filesBelow (base, "", old);
    for (auto& f : old) std::remove ((base + "/" + f).c_str());
    paths();
    const int n = 1500 * g_scale;
    for (int i = 0; i < n; ++i) { if (coin()) one<float>(); else one<double>(); }
}
}
