#include "common.hpp"
#include "hart_precision.hpp"
#include <sys/wait.h>
#include <fcntl.h>
using namespace hart;
namespace H {

static int g_out = -1;
static std::string values()
{
    CLIConfig& c = CLIConfig::getInstance();
    std::ostringstream s;
    s << "root=" << c.getDataRootPath() << "\nseed=" << c.getRandomSeed() << "\nlin=" << c.getLinDecimals() << "\ndb=" << c.getDbDecimals() << "\nsec=" << c.getSecDecimals()
      << "\nhz=" << c.getHzDecimals() << "\nrad=" << c.getRadDecimals() << "\ngenerators=" << c.shouldRunGenerators() << "\nshuffle=" << c.shouldShuffleTasks() << "\n";
    const double x = 1.0 / 7.0;
    std::ostringstream n;
    n << linPrecision << x << ' ' << dbPrecision << x << ' ' << secPrecision << x << ' ' << hzPrecision << x << ' ' << radPrecision << x;
    s << n.str() << "\n";
    return s.str();
}
static void tell (const std::string& s) { if (write (g_out, s.data(), s.size())) {} }
HART_TEST ("a test") { tell ("test\n" + values()); if (CLIConfig::getInstance().getRandomSeed() % 7 == 3) HART_FAIL_TEST(); }
HART_GENERATE ("a generator") { tell ("generator\n" + values()); }

static int program (int argc, char** argv) { HART_RUN_ALL_TESTS (argc, argv); }

struct Wanted { std::string root = "."; uint64_t seed = 0; int dec[5] = { 6, 1, 3, 1, 1 }; bool generators = false, shuffle = false; };

static std::string expected (const Wanted& w)
{
    std::ostringstream s;
    s << (w.generators ? "generator" : "test") << "\nroot=" << w.root << "\nseed=" << w.seed << "\nlin=" << w.dec[0] << "\ndb=" << w.dec[1] << "\nsec=" << w.dec[2]
      << "\nhz=" << w.dec[3] << "\nrad=" << w.dec[4] << "\ngenerators=" << w.generators << "\nshuffle=" << w.shuffle << "\n";
    for (int i = 0; i < 5; ++i) { char t[400]; std::snprintf (t, sizeof t, "%.*f", w.dec[i], 1.0 / 7.0); s << (i ? " " : "") << t; }
    s << "\n";
    return s.str();
}

static std::string all (int fd) { std::string s; char b[4096]; ssize_t n; while ((n = read (fd, b, sizeof b)) > 0) s.append (b, (size_t) n); return s; }

static void one()
{
    Wanted w;
    std::vector<std::vector<std::string>> parts;
    auto give = [&] (const char* longName, const char* shortName, const std::string& v)
    {
        const int style = pick (0, shortName[0] ? 3 : 1);
        if (style == 0) parts.push_back ({ longName, v });
        else if (style == 1) parts.push_back ({ std::string (longName) + "=" + v });
        else if (style == 2) parts.push_back ({ shortName, v });
        else parts.push_back ({ std::string (shortName) + v });
    };
    if (coin (40)) { static const char* roots[] = { "data", "/abs/data", "a b/c", "..", "./x", "some/long/path/to/data" }; w.root = roots[rnd() % 6]; give ("--data-root-path", "-d", w.root); }
    if (coin (25)) { static const char* tags[] = { "[a]x", "x", "[a][b]y" }; give ("--tags", "-t", tags[rnd() % 3]); }
    if (coin (50)) { w.seed = coin() ? rnd() % 1000 : coin() ? rnd() & 0xffffffffu : rnd() >> (rnd() % 20); if (sizeof (uint_fast32_t) == 4) w.seed &= 0xffffffffu; give ("--seed", "-s", str (w.seed)); }
    static const char* dn[] = { "--lin-decimals", "--db-decimals", "--sec-decimals", "--hz-decimals", "--rad-decimals" };
    for (int i = 0; i < 5; ++i) if (coin (35)) { w.dec[i] = coin (80) ? pick (0, 9) : pick (10, 300); give (dn[i], "", str (w.dec[i])); }
    if (coin (30)) { w.generators = true; parts.push_back ({ coin() ? "--run-generators" : "-g" }); }
    if (coin (30)) { w.shuffle = true; parts.push_back ({ "--shuffle" }); }
    for (size_t i = parts.size(); i > 1; --i) std::swap (parts[i - 1], parts[rnd() % i]);
    bool malformed = false;
    if (coin (25))
    {
        static const std::vector<std::vector<std::string>> bad = { { "--no-such-option" }, { "stray" }, { "--lin-decimals", "two" }, { "--db-decimals=1.5" }, { "--hz-decimals=" }, { "-x" }, { "--seed", "abc" }, { "--seed=-1" }, { "-s1x" },
            { "--rad-decimals=9999999999999" }, { "--seed=99999999999999999999999" } };
        std::vector<std::string> b = bad[rnd() % bad.size()];
        bool clash = false;                       // the option itself may be given before: both are refused
        (void) clash;
        parts.insert (parts.begin() + (long) (rnd() % (parts.size() + 1)), b);
        malformed = true;
    }
    else if (coin (5)) { parts.push_back ({ coin() ? "--seed" : "--data-root-path" }); malformed = true; }      // no value
    std::vector<std::string> words { "program" };
    for (auto& p : parts) for (auto& x : p) words.push_back (x);
    std::string line;
    for (auto& x : words) line += "'" + x + "' ";
    begin ("command line " + line);
    std::fflush (stdout);
    int out[2], err[2];
    if (pipe (out) || pipe (err)) std::_Exit (3);
    const pid_t pid = fork();
    if (pid < 0) std::_Exit (3);
    if (pid == 0)
    {
        close (out[0]); close (err[0]);
        g_out = out[1];
        dup2 (err[1], 2);
        const int nul = open ("/dev/null", O_WRONLY);
        dup2 (nul, 1);
        std::vector<char*> argv;
        for (auto& x : words) argv.push_back (&x[0]);
        argv.push_back (nullptr);
        const int rc = program ((int) words.size(), argv.data());
        std::cerr.flush();
        _exit (rc);
    }
    close (out[1]); close (err[1]);
    const std::string said = all (out[0]), complaint = all (err[0]);
    close (out[0]); close (err[0]);
    int st = 0;
    waitpid (pid, &st, 0);
    check (WIFEXITED (st), "the program ends normally: " + complaint.substr (0, 300));
    if (malformed)
    {
        check (said.empty(), "a malformed command line runs nothing, but: " + said);
        check (WEXITSTATUS (st) != 0, "a malformed command line is refused with a non-zero status");
        check (! complaint.empty(), "a malformed command line is refused with a message");
        return;
    }
    check (said == expected (w), "the configuration is: " + said + " expected: " + expected (w) + complaint.substr (0, 300));
    const bool fails = ! w.generators && w.seed % 7 == 3;
    check ((WEXITSTATUS (st) != 0) == fails, "the exit status is that of the run: " + str (WEXITSTATUS (st)));
}

void run()
{
    for (int i = 0; i < 1500 * g_scale; ++i) one();
}
}
