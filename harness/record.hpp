// Records the life cycle of member objects as events of Lifecycle.tla, one
// behaviour per line in the file named by RECORD_OUT.
#ifndef VERIF_RECORD_HPP
#define VERIF_RECORD_HPP
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <unordered_map>

// (the recorder's own memory must not show up in the accounting)
template<typename T> struct MallocAlloc
{
    typedef T value_type;
    MallocAlloc() {}
    template<typename U> MallocAlloc(const MallocAlloc<U>&) {}
    T *allocate(std::size_t n) { void *p = malloc(n * sizeof(T)); if (!p) abort(); return (T*)p; }
    void deallocate(T *p, std::size_t) { free(p); }
    template<typename U> bool operator==(const MallocAlloc<U>&) const { return true; }
    template<typename U> bool operator!=(const MallocAlloc<U>&) const { return false; }
};

struct Recorder
{
    struct Block { std::size_t size; long id; };
    typedef std::map<const char*, Block, std::less<const char*>, MallocAlloc<std::pair<const char* const, Block> > > Blocks;
    typedef std::unordered_map<const void*, long, std::hash<const void*>, std::equal_to<const void*>, MallocAlloc<std::pair<const void* const, long> > > Addrs;
    Blocks blocks; Addrs addrs;
    char *buf = 0; std::size_t len = 0, cap = 0;
    long events = 0, total = 0, next_block = 0, limit = 0, overall = 0, written = 0;
    unsigned stamp = 0;
    bool on = false;
    FILE *out = 0;

    void text(const char *fmt, ...)
    {
        if (cap - len < 256) { cap = cap ? 2 * cap : 1 << 20; buf = (char*)realloc(buf, cap); if (!buf) abort(); }
        va_list ap; va_start(ap, fmt); len += std::size_t(vsnprintf(buf + len, cap - len, fmt, ap)); va_end(ap);
    }
    bool begin_event()
    {
        if (!on) return false;
        if (++events > limit) { on = false; return false; }
        if (len) text(",");
        return true;
    }
    void ev(int k, long a) { if (begin_event()) text("[%d,%ld]", k, a); }
    void ev(int k, long a, long b) { if (begin_event()) text("[%d,%ld,%ld]", k, a, b); }
    void ev(int k, long a, long b, long c) { if (begin_event()) text("[%d,%ld,%ld,%ld]", k, a, b, c); }
    void ev(int k, long a, long b, long c, long d) { if (begin_event()) text("[%d,%ld,%ld,%ld,%ld]", k, a, b, c, d); }
    void ev(int k, long a, long b, long c, long d, long e) { if (begin_event()) text("[%d,%ld,%ld,%ld,%ld,%ld]", k, a, b, c, d, e); }

    long addr(const void *p)
    {
        Addrs::iterator i = addrs.find(p);
        if (i == addrs.end()) i = addrs.insert(std::make_pair(p, long(addrs.size()) + 1)).first;
        return i->second;
    }
    // the heap block an address belongs to, 0 if none
    long block(const void *q)
    {
        const char *p = (const char*)q;
        Blocks::iterator i = blocks.upper_bound(p);
        if (i == blocks.begin()) return 0;
        --i;
        if (p >= i->first + i->second.size) return 0;
        if (i->second.id == 0 && on) { i->second.id = ++next_block; ev(6, i->second.id); }
        return i->second.id;
    }
    void obtained(const void *p, std::size_t n) { Block b = { n, 0 }; blocks[(const char*)p] = b; }
    void released(const void *p)
    {
        Blocks::iterator i = blocks.find((const char*)p);
        if (i == blocks.end()) return;
        if (i->second.id) ev(7, i->second.id);
        blocks.erase(i);
    }
    void start(long max_events, long max_total)
    {
        if (!out) {
            const char *f = getenv("RECORD_OUT");
            out = f ? fopen(f, "w") : 0;
            if (!out) { fprintf(stderr, "HARNESS: RECORD_OUT\n"); exit(3); }
        }
        len = 0; events = 0; limit = max_events; overall = max_total; next_block = 0;
        addrs.clear();
        for (Blocks::iterator i = blocks.begin(); i != blocks.end(); ++i) i->second.id = 0;
        on = total < overall;
    }
    void pause() { on = false; }
    // false: nothing was recorded (too long, or enough events)
    bool finish(long leaked)
    {
        if (total >= overall || events > limit) return false;
        on = true; ev(9, leaked); on = false;
        total += events;
        fprintf(out, "[%s]\n", buf);
        fflush(out);
        ++written;
        return true;
    }
    unsigned char next_stamp() { stamp = stamp % 250 + 1; return (unsigned char)stamp; }
};
inline Recorder& rec() { static Recorder *r = new (malloc(sizeof(Recorder))) Recorder; return *r; }

// a member which consists of nothing but its stamp
template<int SIZE>
struct Rec
{
    unsigned char b[SIZE];
    long stamp() const { for (int i = 1; i < SIZE; ++i) if (b[i] != b[0]) return 0; return b[0]; }
    void born() { memset(b, rec().next_stamp(), SIZE); }
    Rec(long = 0) { born(); long k = rec().block(this); rec().ev(1, rec().addr(this), b[0], k); }
    Rec(const Rec& o) { long s = o.stamp(); born(); long k = rec().block(this); rec().ev(2, rec().addr(this), b[0], k, rec().addr(&o), s); }
    Rec& operator=(const Rec& o) { rec().ev(3, rec().addr(this), stamp(), rec().addr(&o), o.stamp()); return *this; }
    ~Rec() { rec().ev(4, rec().addr(this), stamp()); memset(b, 255, SIZE); }
};
#endif
