// Common parts of all replay harnesses: a parser for the behaviours which TLC
// emits, failure reporting, and instrumented member types.
#ifndef VERIF_REPLAY_HPP
#define VERIF_REPLAY_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <fstream>
#include <iostream>
#include <map>
#include <new>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>
#include <fcntl.h>
#include <unistd.h>

// behaviours may be replayed by several threads at a time, each with objects of its own
#if defined(VERIF_THREADS) || defined(VERIF_CONC)
#define VERIF_TLS thread_local
#else
#define VERIF_TLS
#endif

struct Node
{
    enum { INT, STR, LIST } t = INT;
    long i = 0;
    std::string s;
    std::vector<Node> l;
    const Node& operator[](std::size_t n) const { return l.at(n); }
    std::size_t size() const { return l.size(); }
    long n() const { if (t != INT) { std::cerr << "HARNESS: int expected\n"; std::exit(3); } return i; }
};

struct Parser
{
    const std::string& b; std::size_t p = 0;
    explicit Parser(const std::string& b) : b(b) {}
    Node parse()
    {
        while (b[p] == ' ' || b[p] == ',') ++p;
        Node r;
        if (b[p] == '[') {
            r.t = Node::LIST; ++p;
            for (;;) {
                while (b[p] == ' ' || b[p] == ',') ++p;
                if (b[p] == ']') { ++p; return r; }
                r.l.push_back(parse());
            }
        }
        if (b[p] == '"') {
            r.t = Node::STR; ++p;
            while (b[p] != '"') r.s += b[p++];
            ++p; return r;
        }
        if (b.compare(p, 4, "true") == 0)  { p += 4; r.i = 1; return r; }
        if (b.compare(p, 5, "false") == 0) { p += 5; r.i = 0; return r; }
        bool neg = false;
        if (b[p] == '-') { neg = true; ++p; }
        if (b[p] < '0' || b[p] > '9') { std::cerr << "HARNESS: bad trace input at " << p << "\n"; std::exit(3); }
        while (b[p] >= '0' && b[p] <= '9') r.i = r.i * 10 + (b[p++] - '0');
        if (neg) r.i = -r.i;
        return r;
    }
};

// ---------------------------------------------------------------- reporting
struct Report
{
    long trace = 0, step = 0, steps = 0, checks = 0, failures = 0;
    bool failed_here = false, abandoned = false, last_only = false, observe = true;
    int progress_fd = -1;
    std::string call, variant;
    std::map<std::string, long> calls;

    void fail(const char *cls, const std::string& msg)
    {
        if (failed_here) return;
#if defined(RECORD) || defined(LIFE_ONLY)
        // values are other checks' business
        if (std::string(cls) == "VALUE") { abandoned = true; return; }
#endif
        failed_here = true;
        ++failures;
        std::cout << "FAIL class=" << cls << " variant=" << variant << " trace=" << trace << " step=" << step
                  << " call=" << call << " :: " << msg << std::endl;
    }
    void at(long t, long s)
    {
        trace = t; step = s;
        if (progress_fd >= 0) {
            char buf[128];
            int n = snprintf(buf, sizeof buf, "%-20ld %-10ld %-40.40s\n", t, s, variant.c_str());
            if (pwrite(progress_fd, buf, n, 0)) {}
        }
    }
};
inline Report& rep() { static VERIF_TLS Report r; return r; }

template<typename A, typename B>
inline bool expect(const char *cls, const A& want, const B& got, const std::string& what)
{
    ++rep().checks;
    if (want == got) return true;
    std::ostringstream o; o << what << ": specified " << want << ", got " << got;
    rep().fail(cls, o.str());
    return false;
}

// a few integers, without any use of the heap
struct Ints
{
    long a[8]; std::size_t n = 0;
    Ints() {}
    Ints(std::size_t m, long v) { for (std::size_t i = 0; i < m; ++i) push_back(v); }
    void push_back(long v) { if (n == 8) { std::cerr << "HARNESS: too many slots\n"; std::exit(3); } a[n++] = v; }
    std::size_t size() const { return n; }
    long operator[](std::size_t i) const { return a[i]; }
    bool operator==(const Ints& o) const { return n == o.n && memcmp(a, o.a, n * sizeof(long)) == 0; }
    bool operator!=(const Ints& o) const { return !(*this == o); }
};
inline std::string join(const Ints& v)
{
    std::ostringstream o; o << "<";
    for (std::size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i];
    o << ">"; return o.str();
}

// deterministic per-step choice between equivalent ways to make the same call
inline unsigned flavour(unsigned n)
{
    std::uint64_t h = std::uint64_t(rep().trace) * 0x9E3779B97F4A7C15ull + std::uint64_t(rep().step) * 0xBF58476D1CE4E5B9ull;
    h ^= h >> 29; h *= 0x94D049BB133111EBull; h ^= h >> 32;
    return unsigned(h % n);
}

// ---------------------------------------------------------------- allocation accounting
// live bytes obtained through operator new; the harnesses compare before/after.
#ifdef VERIF_CONC
#include <atomic>
// (must not order the threads' accesses)
struct HeapCount
{
    std::atomic<long> v;
    void operator++() { v.fetch_add(1, std::memory_order_relaxed); }
    void operator--() { v.fetch_sub(1, std::memory_order_relaxed); }
    void operator+=(long n) { v.fetch_add(n, std::memory_order_relaxed); }
    void operator-=(long n) { v.fetch_sub(n, std::memory_order_relaxed); }
    operator long() const { return v.load(std::memory_order_relaxed); }
};
struct HeapStat { HeapCount blocks, bytes; };
extern HeapStat heap_stat;
#define VERIF_MAIN_STATE HeapStat heap_stat;
#else
struct HeapStat { long blocks = 0; long bytes = 0; bool bad_size = false; };
extern VERIF_TLS HeapStat heap_stat;
#define VERIF_MAIN_STATE VERIF_TLS HeapStat heap_stat;
#endif

// ---------------------------------------------------------------- tracked member type
// Knows every live instance by address; detects construction on top of a live
// instance, use or destruction of a dead one, and instances moved by raw copies.
struct Tracked
{
    // (many buckets from the start, so that no allocation failure is ever injected into this map)
    static std::unordered_map<const void*, long>& live() { static VERIF_TLS std::unordered_map<const void*, long> m(1 << 16); return m; }
    static bool& enabled() { static VERIF_TLS bool b = true; return b; }
    struct Event { char kind; long self; long other; };
    static std::vector<Event> *&log() { static VERIF_TLS std::vector<Event> *p = 0; return p; }
    static long id(const void *p)
    {
        static std::unordered_map<const void*, long> ids;
        auto it = ids.find(p);
        if (it == ids.end()) it = ids.insert(std::make_pair(p, long(ids.size()) + 1)).first;
        return it->second;
    }
    static void ev(char k, const void *s, const void *o = 0)
    {
        if (log()) log()->push_back(Event{k, id(s), o ? id(o) : 0});
    }

    void born() { if (!live().insert(std::make_pair((const void*)this, 1L)).second) rep().fail("LIFE", "member constructed on top of a live member"); self = this; }
    void check(const char *what) const
    {
        ++rep().checks;
        if (!live().count(this)) rep().fail("LIFE", std::string(what) + ": member is not alive (never constructed or already destroyed)");
        else if (self != this)   rep().fail("LIFE", std::string(what) + ": member was moved or overwritten by a raw copy");
    }
    Tracked(long v = 0) : v(v) { ev('C', this); born(); }
    Tracked(const Tracked& o) : v(o.v) { ev('K', this, &o); o.check("copied from"); born(); }
    Tracked& operator=(const Tracked& o) { ev('A', this, &o); check("assigned to"); o.check("assigned from"); v = o.v; return *this; }
    ~Tracked() { ev('D', this); check("destroyed"); live().erase(this); v = -77; }

    const Tracked *self;
    long v;
};

#endif
