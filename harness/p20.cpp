#include "common.hpp"
#include <fstream>
#include <sstream>
using namespace hart;
namespace H {

static std::string scratch() { const char* p = std::getenv ("HART_VERIF_SCRATCH"); return p ? p : "."; }

struct Line { std::vector<double> x, y; };

static double at (const Line& l, double x)
{
    for (size_t i = 0; i + 1 < l.x.size(); ++i)
        if (x <= l.x[i + 1] + 1e-9)
            return l.x[i + 1] == l.x[i] ? l.y[i + 1] : l.y[i] + (l.y[i + 1] - l.y[i]) * std::max (0.0, x - l.x[i]) / (l.x[i + 1] - l.x[i]);
    return l.y.back();
}

static double attr (const std::string& tag, const std::string& name)
{
    const size_t i = tag.find (" " + name + "=\"");
    return i == std::string::npos ? NAN : std::atof (tag.c_str() + i + name.size() + 3);
}

// one diagram: the lines and the horizontal marks of an svg group
template <typename T> static void diagram (const std::string& g, const Table<T>& t, double rate, double tMax, const char* name)
{
    std::vector<Line> lines;
    std::vector<double> marks;
    for (size_t i = 0; (i = g.find ('<', i)) != std::string::npos; ++i)
    {
        const std::string tag = g.substr (i, g.find ('>', i) - i);
        if (tag.compare (0, 5, "<path") == 0 && tag.find ("svg-plot-line") != std::string::npos)
        {
            Line l;
            std::string d = tag.substr (tag.find (" d=\"") + 4);
            d = d.substr (0, d.find ('"'));
            for (auto& ch : d) if (std::isalpha ((unsigned char) ch) && ch != 'e') ch = ' ';
            std::istringstream s (d);
            double x, y;
            while (s >> x >> y) { l.x.push_back (x); l.y.push_back (y); }
            lines.push_back (l);
        }
        if (tag.compare (0, 5, "<line") == 0 && tag.find ("svg-plot-minor") != std::string::npos && attr (tag, "y1") == attr (tag, "y2"))
            marks.push_back (attr (tag, "y1"));
    }
    check (lines.size() == t.size(), std::string (name) + " diagram has " + str (lines.size()) + " lines, expected " + str (t.size()));
    double peak = 0;
    for (auto& c : t) for (auto x : c) peak = std::max (peak, (double) std::fabs (x));
    auto px = [&] (double time) { return 1200 * time / tMax; };
    auto py = [&] (double v) { return 200 * (1 - (v + peak) / (2 * peak)); };
    check (marks.size() == 2, std::string (name) + " diagram has " + str (marks.size()) + " level marks, expected plus and minus the peak");
    check ((std::fabs (marks[0] - py (peak)) < 0.02 && std::fabs (marks[1] - py (-peak)) < 0.02) || (std::fabs (marks[1] - py (peak)) < 0.02 && std::fabs (marks[0] - py (-peak)) < 0.02), std::string (name) + " diagram does not mark plus and minus its peak " + str (peak));
    for (size_t c = 0; c < t.size(); ++c)
    {
        // the library draws the last line first
        bool found = false;
        std::string why;
        const Line& l = lines[t.size() - 1 - c];
        check (! l.x.empty(), std::string (name) + " line of channel " + str (c) + " is empty");
        const size_t n = t[c].size();
        check (std::fabs (l.x[0]) < 0.02, std::string (name) + " line of channel " + str (c) + " starts at " + str (l.x[0]));
        check (std::fabs (l.x.back() - px ((n - 1) / rate)) < 0.05, std::string (name) + " line of channel " + str (c) + " ends at x " + str (l.x.back()) + ", expected " + str (px ((n - 1) / rate)));
        for (size_t f = 0; f < n; ++f)
        {
            const double y = at (l, std::round (px (f / rate) * 100) / 100);
            check (std::fabs (y - py ((double) t[c][f])) < 0.6, std::string (name) + " line of channel " + str (c) + " is at " + str (y) + " at frame " + str (f) + ", expected " + str (py ((double) t[c][f])));
        }
        (void) found;
    }
}

template <typename T> void one()
{
    const size_t nc = channelCount (4), no = channelCount (4), nf = (size_t) (2 + rnd() % 40), nfo = coin (80) ? nf : (size_t) (2 + rnd() % 40);
    const double rate = coin (40) ? 44100.0 : coin() ? uni (20.0, 400.0) : uni (1000.0, 192000.0);
    begin (std::string (sizeof (T) == 4 ? "float" : "double") + " input channels=" + str (nc) + " frames=" + str (nf) + " output channels=" + str (no) + " frames=" + str (nfo) + " rate=" + str (rate));
    auto fillIn = [&] (size_t c, size_t n) { Table<T> t (c, std::vector<T> (n)); const double s = coin() ? 1.0 : uni (0.01, 30.0); for (auto& a : t) { const bool hold = coin (30); for (size_t i = 0; i < n; ++i) a[i] = hold && i > 0 && coin (60) ? a[i - 1] : (T) uni (-s, s); } return t; };
    const Table<T> a = fillIn (nc, nf), b = fillIn (no, nfo);
    AudioBuffer<T> in = buffer (a, nc, nf), out = buffer (b, no, nfo);
    const std::string path = scratch() + "/p20.svg";
    std::remove (path.c_str());
    plotData (in, out, rate, path);
    std::ifstream f (path.c_str());
    check (f.good(), "a plot file is created");
    const std::string s ((std::istreambuf_iterator<char> (f)), std::istreambuf_iterator<char>());
    f.close();
    std::remove (path.c_str());
    // the time axis ends at the last point or time mark
    double marks = 0;
    for (int k = 1; k * 0.1 < nfo / rate + 1e-6 && k < 100000; ++k) marks = k * 0.1;
    std::vector<std::string> g;
    for (size_t i = 0; (i = s.find ("<g class=\"svg-plot-group\"><rect", i)) != std::string::npos; ++i) g.push_back (s.substr (i, s.find ("</g></g></g>", i) - i));
    check (g.size() == 2, "the plot has two diagrams, not " + str (g.size()));
    diagram (g[0], a, rate, std::max ((nf - 1) / rate, marks), "input");
    diagram (g[1], b, rate, std::max ((nfo - 1) / rate, marks), "output");
    for (size_t c = 0; c < nc; ++c) for (size_t k = 0; k < nf; ++k) check (same (in[c][k], a[c][k]), "the input is unchanged");
}

void run() { for (int i = 0; i < 800 * g_scale; ++i) { one<float>(); one<double>(); } }
}
