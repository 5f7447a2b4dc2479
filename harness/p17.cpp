#include "host.hpp"
#include <sys/wait.h>
#include <sys/mman.h>
#include <unistd.h>
using namespace hart;
namespace H {

// every run of the test program happens in a process of its own, which starts with an empty registry
enum Outcome { pass, expectOne, expectMany, expectEmpty, assertion, failNow, failMsg, expectAndAssert, configuration, expectAndThrow, runtime, logic, plain, custom, emptyWhat, noMemory, io, passingAudio, failingAudio, assertingAudio, emptyText, kOutcomes };
struct Custom : std::exception { const char* what() const noexcept override { return "passed"; } };

struct Plan { std::string name; TaskCategory kind; std::vector<Outcome> outcomes; int runs = 0; bool clean = true; };
static std::vector<Plan>* g_plan = nullptr;
static int g_round = 0;
static std::vector<int>* g_order = nullptr;

static bool fails (Outcome o) { return o != pass && o != passingAudio; }

static void audio (bool good, bool assertion)
{
    HostMatcher<float> m (nullptr, "m");
    m.verdict = [good] (int, const AudioBuffer<float>&) { return good; };
    auto host = processAudioWith (HostFx<float> (std::make_shared<Trace>()));
    host.withSampleRate (1000).withDuration (0.02).withBlockSize (7).withInputSignal (HostSignal<float> (std::make_shared<Trace>()));
    if (assertion) host.assertTrue (m); else host.expectTrue (m);
    host.process();
}

static void act (Outcome o)
{
    switch (o)
    {
        case pass: HART_EXPECT_TRUE (true); HART_ASSERT_TRUE (1 + 1 == 2); return;
        case expectOne: HART_EXPECT_TRUE (1 + 1 == 3); return;
        case expectMany: { for (int i = 0; i < 3; ++i) { HART_EXPECT_TRUE (i == 1); } } return;
        case expectEmpty: ExpectationFailureMessages::get().emplace_back ("passed"); return;
        case emptyText: ExpectationFailureMessages::get().emplace_back (""); return;
        case assertion: HART_ASSERT_TRUE (1 + 1 == 3); return;
        case failNow: HART_FAIL_TEST(); return;
        case failMsg: HART_FAIL_TEST_MSG ("passed"); return;
        case expectAndAssert: HART_EXPECT_TRUE (false); HART_ASSERT_TRUE (false); return;
        case configuration: throw ConfigurationError ("configuration");
        case expectAndThrow: HART_EXPECT_TRUE (false); throw std::out_of_range ("far");
        case runtime: throw std::runtime_error ("runtime");
        case logic: throw std::logic_error ("logic");
        case plain: throw std::exception();
        case custom: throw Custom();
        case emptyWhat: throw TestAssertException ("");
        case noMemory: throw std::bad_alloc();
        case io: throw IOError ("io");
        case passingAudio: audio (true, coin()); return;
        case failingAudio: audio (false, false); return;
        case assertingAudio: audio (false, true); return;
        default: return;
    }
}

// what the report of a failed task has to show
static std::vector<std::pair<std::string, int>> texts (Outcome o)
{
    switch (o)
    {
        case expectOne: return { { "1 + 1 == 3", 1 } };
        case expectMany: return { { "i == 1", 2 } };
        case expectEmpty: case failMsg: case custom: return { { "passed", 1 } };
        case assertion: return { { "1 + 1 == 3", 1 } };
        case expectAndAssert: return { { "HART_EXPECT_TRUE", 1 }, { "HART_ASSERT_TRUE", 1 } };
        case configuration: return { { "configuration", 1 } };
        case expectAndThrow: return { { "HART_EXPECT_TRUE", 1 }, { "far", 1 } };
        case runtime: return { { "runtime", 1 } };
        case logic: return { { "logic", 1 } };
        case plain: return { { std::exception().what(), 1 } };
        case noMemory: return { { std::bad_alloc().what(), 1 } };
        case io: return { { "io", 1 } };
        case failingAudio: case assertingAudio: return { { "0.00", 1 } };
        default: return {};
    }
}

static void called (int i)
{
    Plan& p = (*g_plan)[(size_t) i];
    ++p.runs;
    if (! ExpectationFailureMessages::get().empty()) p.clean = false;
    g_order->push_back (i);
    act (p.outcomes[(size_t) g_round]);
}

constexpr int kTasks = 20;
template <int I> void task() { called (I); }
template <int N> struct TaskTable { static void fill (std::vector<void (*)()>& v) { TaskTable<N - 1>::fill (v); v.push_back (&task<N - 1>); } };
template <> struct TaskTable<0> { static void fill (std::vector<void (*)()>&) {} };

static int program (int argc, const char** argv) { HART_RUN_ALL_TESTS (argc, argv); }

static int program (std::vector<std::string> args)
{
    std::vector<const char*> v;
    for (auto& a : args) v.push_back (a.c_str());
    return program ((int) v.size(), v.data());
}

// everything the run writes to the console
template <typename F> std::string console (F f)
{
    std::fflush (stdout); std::cout.flush();
    const int keep = dup (1), to = memfd_create ("console", 0);
    if (keep < 0 || to < 0) std::_Exit (3);
    dup2 (to, 1);
    f();
    std::fflush (stdout); std::cout.flush();
    dup2 (keep, 1); close (keep);
    std::string out ((size_t) lseek (to, 0, SEEK_END), 0);
    lseek (to, 0, SEEK_SET);
    size_t n = 0;
    while (n < out.size()) { const ssize_t k = read (to, &out[n], out.size() - n); if (k <= 0) break; n += (size_t) k; }
    close (to);
    return out;
}

static std::vector<std::string> linesOf (const std::string& s)
{
    std::vector<std::string> out (1);
    for (char c : s) if (c == '\n' || c == '\r') out.emplace_back(); else out.back() += c;
    return out;
}

static void registered (const std::string& name, TaskCategory kind, void (*f)(), bool duplicate)
{
    const std::string got = thrown ([&] { TestRegistry::getInstance().add (name, coin() ? "" : "[tag]", kind, f); });
    check (got == (duplicate ? "ValueError" : ""), (duplicate ? "a second task under one name is refused: " : "a task is registered: ") + name + " " + got);
}

static void one()
{
    std::vector<Plan> plan;
    std::vector<int> order;
    g_plan = &plan; g_order = &order;
    std::vector<void (*)()> fn;
    TaskTable<kTasks>::fill (fn);
    const int n = coin (10) ? 0 : pick (1, kTasks);
    const int failing = pick (0, 3) * 25;
    const int testsOf = coin (20) ? 100 : coin (25) ? 0 : pick (20, 80);
    const int rounds = coin (40) ? 2 : 1;
    for (int i = 0; i < n; ++i)
    {
        Plan p;
        p.kind = coin (testsOf) ? TaskCategory::test : TaskCategory::generate;
        p.name = "task#" + str (i) + ";";
        for (auto& q : plan)    // the same name may be used once by each kind
            if (q.kind != p.kind && coin (15) && std::none_of (plan.begin(), plan.end(), [&] (const Plan& r) { return r.kind == p.kind && r.name == q.name; })) p.name = q.name;
        for (int r = 0; r < rounds; ++r) p.outcomes.push_back (coin (failing) ? (Outcome) pick (1, kOutcomes - 1) : coin() ? pass : passingAudio);
        registered (p.name, p.kind, fn[(size_t) i], false);
        plan.push_back (p);
        if (coin (20)) { auto& q = plan[(size_t) pick (0, i)]; registered (q.name, q.kind, fn[(size_t) pick (0, kTasks - 1)], true); }
    }
    std::vector<std::string> args { "program" };
    const bool generators = coin();
    if (generators) args.push_back (coin() ? "-g" : "--run-generators");
    const bool shuffle = coin();
    if (shuffle) { args.push_back ("--shuffle"); args.push_back ("--seed"); args.push_back (str (pick (0, 1000))); }
    else if (coin()) { args.push_back ("--seed"); args.push_back (str (pick (0, 1000))); }  // a seed alone asks for no shuffle
    if (coin (30)) ExpectationFailureMessages::get().emplace_back ("left over");
    const TaskCategory kind = generators ? TaskCategory::generate : TaskCategory::test;
    for (g_round = 0; g_round < rounds; ++g_round)
    {
        std::string what = std::string (generators ? "generators" : "tests") + (shuffle ? " shuffled" : "") + ", run " + str (g_round + 1) + " of " + str (rounds) + ":";
        size_t want = 0, bad = 0;
        for (auto& p : plan) { p.runs = 0; what += std::string (p.kind == TaskCategory::test ? " test " : " generator ") + p.name + str ((int) p.outcomes[(size_t) g_round]); if (p.kind == kind) { ++want; bad += fails (p.outcomes[(size_t) g_round]); } }
        H::begin (what);
        order.clear();
        int status = -1;
        std::string error;
        const std::string text = console ([&] { error = thrown ([&] { status = g_round == 0 ? program (args) : TestRegistry::getInstance().runAll(); }); });
        check (error.empty(), "the run ends normally: " + error);
        check (order.size() == want, str (want) + " tasks of the kind, " + str (order.size()) + " run");
        check (((status & 0xff) == 0) == (bad == 0), str (bad) + " failing tasks, exit status " + str (status));
        const auto lines = linesOf (text);
        if (! shuffle)
            for (size_t k = 1; k < order.size(); ++k) check (order[k - 1] < order[k], "without shuffling, tasks run in the order of registration");
        for (auto& p : plan)
        {
            check (p.runs == (p.kind == kind ? 1 : 0), p.name + " is run " + str (p.runs) + " times");
            check (p.clean, p.name + " starts with no recorded failures");
            if (p.kind != kind) continue;
            int said[2] = { 0, 0 };
            for (auto& l : lines) if (l.find (p.name) != std::string::npos) { said[0] += l.find ("passed") != std::string::npos; said[1] += l.find ("failed") != std::string::npos; }
            const int f = fails (p.outcomes[(size_t) g_round]) ? 1 : 0;
            check (said[f] == 1 && said[1 - f] == 0, p.name + (f ? " failed" : " passed") + ", reported as passed " + str (said[0]) + " and as failed " + str (said[1]) + " times");
            if (! f) continue;
            // the lines of its report: from its verdict to the next task or the totals
            std::string section;
            bool in = false;
            for (auto& l : lines)
            {
                if (l.find ("task#") != std::string::npos || l.find ("[ PASSED ]") != std::string::npos) in = l.find (p.name) != std::string::npos && l.find ("failed") != std::string::npos;
                else if (in) section += l + "\n";
            }
            for (auto& t : texts (p.outcomes[(size_t) g_round]))
            {
                int have = 0;
                for (size_t at = section.find (t.first); at != std::string::npos; at = section.find (t.first, at + 1)) ++have;
                check (have >= t.second, "the report of " + p.name + " shows \"" + t.first + "\" " + str (have) + " times instead of " + str (t.second) + ": " + section);
            }
        }
        if (want == 0) continue;
        int shown[2] = { 0, 0 };
        for (auto& l : lines)
        {
            unsigned long a, b;
            if (std::sscanf (l.c_str(), "[ PASSED ] %lu/%lu", &a, &b) == 2) { ++shown[0]; check (a == want - bad && b == want, "the total of passed tasks: " + l + " instead of " + str (want - bad) + "/" + str (want)); }
            if (std::sscanf (l.c_str(), "[ FAILED ] %lu/%lu", &a, &b) == 2) { ++shown[1]; check (a == bad && b == want, "the total of failed tasks: " + l + " instead of " + str (bad) + "/" + str (want)); }
        }
        check (shown[0] == 1, "the total of passed tasks is shown once");
        check (shown[1] == (bad > 0 ? 1 : 0), "the total of failed tasks is shown if there are any");
    }
}

// more failures than an exit status can count
static void many (int n)
{
    std::vector<Plan> plan (1);
    std::vector<int> order;
    g_plan = &plan; g_order = &order; g_round = 0;
    plan[0].outcomes = { expectOne };
    H::begin (str (n) + " failing tests");
    for (int i = 0; i < n; ++i) registered ("task#" + str (i) + ";", TaskCategory::test, &task<0>, false);
    int status = 0;
    console ([&] { status = program ({ "program" }); });
    check (plan[0].runs == n && plan[0].clean, "all are run");
    check ((status & 0xff) != 0, "the exit status: " + str (status));
}

static void needsData() { HART_REQUIRES_DATA_PATH_ARG ExpectationFailureMessages::get().emplace_back ("went on"); }

// what the macros of a test do on their own
static void macros()
{
    auto& m = ExpectationFailureMessages::get();
    const bool before = coin();
    if (before) m.emplace_back ("earlier");
    const size_t n = m.size();
    const bool holds = coin();
    H::begin (std::string ("macros with a ") + (holds ? "true" : "false") + " condition");
    std::string got = thrown ([&] { HART_EXPECT_TRUE (holds); });
    check (got.empty(), "an expectation goes on: " + got);
    check (m.size() == n + (holds ? 0u : 1u), "a failure is recorded exactly when an expectation is false");
    if (! holds && m.size() > n) check (m.back().find ("\"holds\"") != std::string::npos, "the failure names the condition: " + m.back());
    if (n > 0) check (m.front() == "earlier", "failures recorded earlier are kept");
    const size_t now = m.size();
    got = thrown ([&] { HART_ASSERT_TRUE (holds); });
    check (got == (holds ? "" : "TestAssertException"), "an assertion ends the task exactly when it is false: " + got);
    check (thrown ([&] { HART_FAIL_TEST(); }) == "TestAssertException", "HART_FAIL_TEST ends the task");
    std::string why;
    try { HART_FAIL_TEST_MSG (std::string ("some reason")); } catch (const TestAssertException& e) { why = e.what(); }
    check (why.find ("some reason") != std::string::npos, "HART_FAIL_TEST_MSG ends the task with its message: " + why);
    check (m.size() == now, "nothing else is recorded");
    const bool given = coin();
    if (given)
    {
        std::vector<const char*> args { "program", "--data-root-path", coin() ? "data" : "" };
        CLIConfig::getInstance().initCommandLineArgs();
        CLIConfig::getInstance().getCLIApp().parse ((int) args.size(), args.data());
    }
    const bool folder = ! CLIConfig::getInstance().getDataRootPath().empty();
    got = thrown (needsData);
    check (folder ? got.empty() && m.size() == now + 1 : got == "ConfigurationError" && m.size() == now, "a task that needs a data folder fails exactly without one: " + got);
}

void run()
{
    const int n = 700 * g_scale;
    for (int i = 0; i < n; ++i)
    {
        const uint64_t seed = rnd();
        H::begin ("run " + str (i));
        std::fflush (stdout);
        const pid_t pid = fork();
        if (pid < 0) std::_Exit (3);
        if (pid == 0)
        {
            g_rng.seed (seed);
            if (i < 4) many (256 * (i + 1)); else if (i % 10 == 4) macros(); else one();
            std::fflush (stdout);
            _exit (0);
        }
        int st = 0;
        waitpid (pid, &st, 0);
        if (WIFEXITED (st) && WEXITSTATUS (st) == 1) std::_Exit (1);      // the violation is printed by the run itself
        check (WIFEXITED (st) && WEXITSTATUS (st) == 0, "the test program ends: status " + str (st));
    }
}
}
