// Replays behaviours of Testbed.tla into evaluate, cpu_benchmark and gpu_benchmark.
// likwid-topology is a script in a scratch directory, and /proc/cpuinfo is redirected to a file there.
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <ctime>

static char scratch[256];
static const char *where(const char *path)
{
    static char file[300];
    if (!scratch[0] || !path || strcmp(path, "/proc/cpuinfo")) return path;
    snprintf(file, sizeof file, "%s/cpuinfo", scratch);
    return file;
}
#define VERIF_OPEN(NAME)                                                         \
    extern "C" int NAME(const char *path, int flags, ...)                        \
    {                                                                            \
        va_list a; va_start(a, flags);                                           \
        int mode = (flags & O_CREAT) ? va_arg(a, int) : 0;                       \
        va_end(a);                                                               \
        return int(syscall(SYS_openat, AT_FDCWD, where(path), flags, mode));     \
    }
VERIF_OPEN(open)
VERIF_OPEN(open64)
static FILE *open_file(const char *path, const char *mode)
{
    int flags = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
    if (strchr(mode, '+')) flags = (flags & ~(O_RDONLY | O_WRONLY)) | O_RDWR;
    if (strchr(mode, 'e')) flags |= O_CLOEXEC;
    int fd = int(syscall(SYS_openat, AT_FDCWD, where(path), flags, 0644));
    return fd < 0 ? 0 : fdopen(fd, mode);
}
extern "C" FILE *fopen(const char *path, const char *mode) { return open_file(path, mode); }
extern "C" FILE *fopen64(const char *path, const char *mode) { return open_file(path, mode); }

#include "driver.hpp"
#include <libflatarray/testbed/benchmark.hpp>
#include <libflatarray/testbed/cpu_benchmark.hpp>
#include <libflatarray/testbed/evaluate.hpp>
#include <libflatarray/testbed/gpu_benchmark.hpp>
using namespace LibFlatArray;
bool verif_alloc_fails(std::size_t) { return false; }

typedef std::vector<std::pair<std::string, std::vector<int> > > Ran;
static Ran ran;
// what a user's benchmark looks like
template<typename BASE> struct Bench : public BASE
{
    std::string f, s, u; double p; std::size_t calls;
    explicit Bench(const Node& b) : f(b[1].s), s(b[2].s), u(b[4].s), p(atof(b[3].s.c_str())), calls(0) {}
    std::string family() { return f; }
    std::string species() { return s; }
    std::string unit() { return u; }
    double performance(std::vector<int> dim)
    {
        ran.push_back(std::make_pair(f + "/" + s, dim));
        std::string text = "("; // (must not end up in the table)
        return p;
    }
};
template<typename BASE> struct OwnBench : public Bench<BASE>
{
    std::string k;
    explicit OwnBench(const Node& b) : Bench<BASE>(b), k(b[0].s) {}
    std::string order() { return "own"; }
    std::string device() { return k; }
};
static void write_file(const std::string& name, const std::string& content, int mode)
{
    std::string path = std::string(scratch) + "/" + name;
    int fd = open(path.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0755);
    if (fd < 0 || write(fd, content.data(), content.size()) != ssize_t(content.size()) || fchmod(fd, mode_t(mode))) { std::cerr << "HARNESS: cannot write " << path << "\n"; exit(3); }
    close(fd);
}
static long open_files()
{
    long n = 0;
    DIR *d = opendir("/proc/self/fd");
    while (readdir(d)) ++n;
    closedir(d);
    return n;
}
// the table's date
static bool date(const std::string& s, time_t from, time_t to)
{
    // (the clocks which time() and gettimeofday() read tick slightly apart)
    for (time_t t = from - 1; t <= to + 1; ++t) {
        char buf[100];
        tm spec;
        gmtime_r(&t, &spec);
        static const char *month[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
        snprintf(buf, sizeof buf, "%04d-%s-%02d %02d:%02d:%02d", spec.tm_year + 1900, month[spec.tm_mon], spec.tm_mday, spec.tm_hour, spec.tm_min, spec.tm_sec);
        if (s == buf) return true;
    }
    return false;
}

struct TestbedReplayer
{
    std::vector<evaluate> e;
    std::string host;
    long files;
    TestbedReplayer() : e(3, evaluate("", "")), files(open_files())
    {
        char name[4096] = "";
        gethostname(name, sizeof name - 1);
        host = name;
        uninstall();
        write_file("cpuinfo", "", 0644);
        ran.clear();
        verif_gpu() = 0;
        verif_gpus() = { "Tesla V100-SXM2-16GB", "A100", "GeForce GTX 1080 Ti with a name which does not fit into its column" };
    }
    ~TestbedReplayer()
    {
        if (rep().failed_here) return;
        expect("HEAP", files, open_files(), "open files");
        pid_t p = waitpid(-1, 0, WNOHANG);
        if (p != -1 || errno != ECHILD) rep().fail("HEAP", "child processes are left behind");
    }
    template<typename F> static void with(const Node& b, const F& f)
    {
        if (b[0].s == "cpu") f(Bench<cpu_benchmark>(b));
        else if (b[0].s == "gpu") f(Bench<gpu_benchmark>(b));
        else f(OwnBench<benchmark>(b));
    }
    // (as if there were no such file, but without the shell's complaint)
    static void uninstall() { write_file("likwid-topology", "#!/bin/sh\nexit 127\n", 0755); }
    static std::string text(const std::string& s) { return s == "@LONG" ? std::string(6000, 'x') : s; }
    void step(const Node& st)
    {
        const Node& c = st[0];
        const std::string& op = c[0].s;
        std::string got;
        ran.clear();
        std::ostringstream printed;
        time_t before = time(0), after = before;
        if (op == "topology") {
            if (!c[1].size()) uninstall();
            else {
                std::string s = "#!/bin/sh\n[ \"$*\" = \"-O\" ] || exit 1\n";
                for (auto& line : c[1][0].l) {
                    s += "echo '";
                    for (std::size_t i = 0; i < line.size(); ++i) s += (i ? "," : "") + line[i].s;
                    s += "'\n";
                }
                write_file("likwid-topology", s, 0755);
            }
        } else if (op == "cpuinfo") {
            std::string s;
            for (auto& line : c[1].l) {
                if (line.size()) {
                    s += line[0].s + std::string(std::size_t(line[1].n()), '\t') + ":";
                    if (line[2].s.size()) s += " " + text(line[2].s);
                }
                s += "\n";
            }
            write_file("cpuinfo", s, 0644);
        } else if (op == "gpu") {
            verif_gpu() = int(c[1].n());
        } else if (op == "create") {
            e[std::size_t(c[1].n())] = evaluate(c[2].s, c[3].s);
        } else if (op == "copy") {
            evaluate copy(e[std::size_t(c[2].n())]);
            e[std::size_t(c[1].n())] = copy;
        } else if (op == "device" || op == "order") {
            with(c[1], [&](auto b) { got = op == "device" ? b.device() : b.order(); });
        } else if (op == "time") {
            timespec t; clock_gettime(CLOCK_REALTIME, &t);
            double a = benchmark::time(), from = double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
            clock_gettime(CLOCK_REALTIME, &t);
            got = (a > from - 0.01 && a < double(t.tv_sec) + double(t.tv_nsec) * 1e-9 + 0.01) ? "time" : "wrong time";
        } else {
            std::streambuf *old = std::cout.rdbuf(printed.rdbuf());
            evaluate& ev = e[std::size_t(c[1].n())];
            if (op == "header") ev.print_header();
            else if (op == "evaluate") {
                std::vector<int> dim;
                for (auto& d : c[3].l) dim.push_back(int(d.n()));
                with(c[2], [&](auto b) { if (c[4].n() && flavour(2)) ev(b, dim); else ev(b, dim, c[4].n() != 0); });
            } else { std::cerr << "HARNESS: unknown call\n"; exit(3); }
            std::cout.rdbuf(old);
            std::cout.flags(std::ios::dec | std::ios::skipws);
            after = time(0);
        }
        expect("VALUE", st[1].s, got, "result");
        const Node& want = st[2][0];
        if (!expect("VALUE", want.size(), ran.size(), "calls of performance()")) return;
        for (std::size_t i = 0; i < want.size(); ++i) {
            std::vector<int> dim;
            for (auto& d : want[i][2].l) dim.push_back(int(d.n()));
            if (ran[i].first != want[i][0].s + "/" + want[i][1].s || ran[i].second != dim) { rep().fail("VALUE", "performance() was called for " + ran[i].first + " or with other dimensions"); return; }
            ++rep().checks;
        }
        std::string out = printed.str();
        const Node& lines = st[2][1];
        for (auto& l : lines.l) {
            std::size_t end = out.find('\n');
            if (end == std::string::npos) { rep().fail("VALUE", "a line is missing or incomplete"); return; }
            std::string line = out.substr(0, end);
            out = out.substr(end + 1);
            if (l.size() == 1) { expect("VALUE", l[0].s, line, "header"); continue; }
            std::string rest = " ; " + host + std::string(host.size() < 32 ? 32 - host.size() : 0, ' ') + "; " + l[1].s;
            std::size_t n = l[0].s.size();
            if (line.size() < n + 20 || line.substr(0, n) != l[0].s || !date(line.substr(n, 20), before, after)) { rep().fail("VALUE", "revision or date are wrong: " + line); return; }
            if (!expect("VALUE", rest, line.substr(n + 20), "line from the host onward")) return;
        }
        expect("VALUE", std::string(), out, "additional output");
    }
};

int main(int argc, char **argv)
{
    if (argc > 2) {
        std::string dir = std::string(argv[2]) + ".XXXXXX";
        if (dir.size() >= sizeof scratch - 20) dir = "/tmp/verif.XXXXXX";
        strcpy(scratch, dir.c_str());
        if (!mkdtemp(scratch)) { std::cerr << "HARNESS: no scratch directory\n"; return 3; }
    }
    setenv("PATH", scratch, 1);
    setenv("TZ", "XYZ-5:30", 1);
    tzset();
    int rc = drive(argc, argv, [](const Node& b) -> bool { replay_behaviour<TestbedReplayer>(b, "testbed"); return true; });
    unlink((std::string(scratch) + "/likwid-topology").c_str());
    unlink((std::string(scratch) + "/cpuinfo").c_str());
    rmdir(scratch);
    return rc;
}
