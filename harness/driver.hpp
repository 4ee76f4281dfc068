// Runs behaviours from a file through a model-specific replayer.
#ifndef VERIF_DRIVER_HPP
#define VERIF_DRIVER_HPP
#include <sys/mman.h>
#include "replay.hpp"
#ifdef VERIF_THREADS
#include <atomic>
#include <mutex>
#include <thread>
#endif
#ifdef RECORD
#include "record.hpp"
#endif

VERIF_MAIN_STATE

// fault injection, see the harnesses
bool verif_alloc_fails(std::size_t n);

// operator new/delete with accounting (sizes kept in front of each block)
static const std::size_t HEAD = 64;
#ifndef VERIF_OWN_NEW
void *operator new(std::size_t n)
{
    if (n > (std::size_t(1) << 40)) throw std::bad_alloc();
    if (verif_alloc_fails(n)) throw std::bad_alloc();
    char *p = (char*)malloc(n + HEAD);
    if (!p) throw std::bad_alloc();
#ifdef WITH_SCAN
    if (n > (1ul << 26)) madvise((void*)((std::size_t(p) + (1 << 21)) >> 21 << 21), n - (1 << 21), MADV_HUGEPAGE);
#endif
    *(std::size_t*)p = n; *(std::size_t*)(p + 8) = 0x600dcafe600dcafeull;
    ++heap_stat.blocks; heap_stat.bytes += long(n);
#ifdef RECORD
    rec().obtained(p + HEAD, n);
#endif
    return p + HEAD;
}
static void verif_free(void *q, std::size_t n = ~std::size_t(0))
{
    if (!q) return;
    char *p = (char*)q - HEAD;
    if (*(std::size_t*)(p + 8) != 0x600dcafe600dcafeull) { std::cout << "FAIL class=HEAP variant=" << rep().variant << " trace=" << rep().trace << " step=" << rep().step << " call=" << rep().call << " :: deallocation of a pointer which was never allocated" << std::endl; _exit(1); }
    *(std::size_t*)(p + 8) = 0;
    if (n != ~std::size_t(0) && n != *(std::size_t*)p) rep().fail("HEAP", "size given upon deallocation differs from the size allocated");
    --heap_stat.blocks; heap_stat.bytes -= long(*(std::size_t*)p);
#ifdef RECORD
    rec().released(q);
#endif
    free(p);
}
void *operator new[](std::size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { verif_free(p); }
void operator delete[](void *p) noexcept { verif_free(p); }
void operator delete(void *p, std::size_t n) noexcept { verif_free(p, n); }
void operator delete[](void *p, std::size_t n) noexcept { verif_free(p, n); }

#endif

#ifdef RECORD
static long RECORD_TOTAL = getenv("RECORD_TOTAL") ? atol(getenv("RECORD_TOTAL")) : 100000;
#endif

// removes CSVWrite's quoting
inline std::string unwrap(const std::string& line)
{
    if (line.size() < 2 || line[0] != '"') return line;
    std::string u;
    for (std::size_t i = 1; i + 1 < line.size(); ++i) { if (line[i] == '\\') ++i; u += line[i]; }
    return u;
}

// FUN: void(const Node& behaviour), fails through rep().fail()
template<typename FUN>
int drive(int argc, char **argv, const FUN& run_all_variants)
{
    // argv: tracefile progressfile mode [first last]; mode "last" compares
    // states after the last step of each behaviour only, "all" after each step
    if (argc < 4) { std::cerr << "usage: " << argv[0] << " traces progress all|last [first last]\n"; return 3; }
    rep().last_only = std::string(argv[3]) == "last";
    std::ifstream in(argv[1]);
    if (!in) { std::cerr << "HARNESS: cannot read " << argv[1] << "\n"; return 3; }
    rep().progress_fd = open(argv[2], O_CREAT | O_RDWR, 0644);
    long first = argc > 4 ? atol(argv[4]) : 0;
    long last  = argc > 5 ? atol(argv[5]) : (1L << 60);
    long n = -1, traces = 0;
    std::string line;
#ifdef VERIF_THREADS
    // (behaviour k is replayed by thread k modulo VERIF_THREADS, which shares nothing with the others)
    std::vector<std::pair<long, std::string> > lines;
    while (std::getline(in, line)) if (++n >= first && n <= last) lines.push_back(std::make_pair(n, unwrap(line)));
    Report total;
    std::mutex m;
    std::vector<std::thread> threads;
    for (std::size_t t = 0; t < VERIF_THREADS; ++t) threads.push_back(std::thread([&, t] {
        rep().progress_fd = -1;
        rep().last_only = std::string(argv[3]) == "last";
        long mine = 0;
        for (std::size_t i = t; i < lines.size() && !rep().failures; i += VERIF_THREADS) {
            Parser p(lines[i].second);
            Node b = p.parse();
            rep().at(lines[i].first, 0);
            if (run_all_variants(b)) ++mine;
        }
        std::lock_guard<std::mutex> l(m);
        traces += mine; total.steps += rep().steps; total.checks += rep().checks; total.failures += rep().failures;
        for (auto& c : rep().calls) total.calls[c.first] += c.second;
    }));
    for (auto& t : threads) t.join();
    rep().steps = total.steps; rep().checks = total.checks; rep().failures = total.failures; rep().calls = total.calls;
#else
    while (std::getline(in, line)) {
        ++n;
        if (n < first) continue;
        if (n > last) break;
        line = unwrap(line);
        Parser p(line);
        Node b = p.parse();
        rep().at(n, 0);
        if (run_all_variants(b)) ++traces;
        if (rep().failures >= 5) break;
#ifdef RECORD
        if (rec().total >= RECORD_TOTAL) break;
#endif
    }
#endif
    std::cout << "SUMMARY traces=" << traces << " steps=" << rep().steps << " checks=" << rep().checks << " failures=" << rep().failures << "\n";
    for (auto& c : rep().calls) std::cout << "CALL " << c.first << " " << c.second << "\n";
    std::cout.flush();
    return rep().failures ? 1 : 0;
}

#ifdef VERIF_THREADS
// several threads read the objects at the end of a behaviour at the same time
template<typename REPLAYER> auto read_concurrently(REPLAYER& r, int) -> decltype(r.again(), void())
{
    const Report here = rep();
    std::atomic<long> ready(0), failures(0);
    auto read = [&] {
        rep() = here;
        rep().failures = 0; rep().progress_fd = -1; rep().call = "concurrent reads";
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < 3) std::this_thread::yield();
        r.again();
        failures.fetch_add(rep().failures, std::memory_order_relaxed);
    };
    // (a thread's own state is obtained by this thread, but released by the new one)
    const HeapStat heap = heap_stat;
    std::thread a(read), b(read);
    heap_stat = heap;
    read();
    a.join(); b.join();
    long checks = rep().checks;
    rep() = here;
    rep().checks = checks;
    if (failures.load()) { rep().failures += failures.load(); rep().failed_here = true; }
}
template<typename REPLAYER> void read_concurrently(REPLAYER&, long) {}
#endif

template<typename REPLAYER>
void replay_once(const Node& b)
{
    REPLAYER r;
    rep().abandoned = false;
    for (std::size_t s = 0; s < b.size(); ++s) {
        const Node& st = b[s];
        if (st.t != Node::LIST || st.size() < 2) continue;
        rep().at(rep().trace, long(s));
        rep().call = st[0][0].s;
        rep().observe = !rep().last_only || s + 1 == b.size() || b[s + 1].size() < 2;
        ++rep().steps;
        ++rep().calls[rep().call + (st[1].t == Node::STR ? ":" + st[1].s : std::string())];
        r.step(st);
        if (rep().failed_here || rep().abandoned) break;
    }
#ifdef VERIF_THREADS
    if (!rep().failed_here && !rep().abandoned) read_concurrently(r, 0);
#endif
    rep().call = "end";
}

#ifdef RECORD
static long RECORD_EVENTS = 12000;
template<typename REPLAYER>
void replay_behaviour(const Node& b, const std::string& variant)
{
    rep().variant = variant;
    rep().failed_here = false;
    long leaked = 0;
    for (int pass = 0; pass < 3; ++pass) {
        long before = heap_stat.blocks;
        if (pass == 0) rec().start(RECORD_EVENTS, RECORD_TOTAL);
        replay_once<REPLAYER>(b);
        rec().pause();
        leaked = heap_stat.blocks - before;
        if (leaked == 0) break;
    }
    if (rec().finish(leaked)) ++rep().checks;
}
#else
// replays one behaviour: REPLAYER() constructed fresh, then step(<<call, outcome, state>>)
template<typename REPLAYER>
void replay_behaviour(const Node& b, const std::string& variant)
{
    rep().variant = variant;
    rep().failed_here = false;
    std::size_t live_before = Tracked::live().size();
    long leaked = 0;
    // the harness' own containers may have to grow during the first pass, but a leak repeats:
    for (int pass = 0; pass < 3; ++pass) {
        long before = heap_stat.blocks;
        replay_once<REPLAYER>(b);
        if (rep().failed_here) break;
        if (Tracked::live().size() != live_before) { rep().fail("LIFE", "members left alive after their container was destroyed: " + std::to_string(long(Tracked::live().size()) - long(live_before))); break; }
        leaked = heap_stat.blocks - before;
        if (leaked == 0) break;
    }
    if (!rep().failed_here && leaked != 0) rep().fail("HEAP", "memory blocks not released: " + std::to_string(leaked));
    Tracked::live().clear();
}
#endif
#endif
