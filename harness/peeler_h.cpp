// Replays LoopPeeler.tla: which iterations are handed out to which vector type?
#include "driver.hpp"
#include <libflatarray/flat_array.hpp>
#include <libflatarray/loop_peeler.hpp>
#include <libflatarray/short_vec.hpp>
#include <limits>
using namespace LibFlatArray;
bool verif_alloc_fails(std::size_t) { return false; }

struct Chunk { long arity; unsigned long long at; };
typedef std::vector<Chunk> Log;

template<typename V, typename C, typename E> void body(C& x, const E& end, Log *log)
{
    for (; x < C(end); x += C(V::ARITY)) {
        log->push_back(Chunk{ long(V::ARITY), (unsigned long long)(x) });
        if (log->size() > 500) { rep().fail("VALUE", "loop does not end"); return; }
    }
}
// non-template use of the macro
template<typename V> void body_int(int& x, int end, Log *log) { body<V>(x, end, log); }
template<typename V> void body_long(long& x, long end, Log *log) { body<V>(x, end, log); }
template<typename V> struct Plain;
#define PLAIN(T, A)                                                     \
template<> struct Plain<T<A> >                                          \
{                                                                       \
    typedef T<A> V;                                                     \
    static void run_int(int& x, int e, Log *log) { LIBFLATARRAY_LOOP_PEELER(V, int, x, e, body_int, log); } \
    static void run_long(long& x, long e, Log *log) { LIBFLATARRAY_LOOP_PEELER(V, long, x, e - 1, body_long, log); } \
};
#define PLAINS(T) PLAIN(T, 1) PLAIN(T, 2) PLAIN(T, 4) PLAIN(T, 8) PLAIN(T, 16) PLAIN(T, 32)
template<std::size_t A> using vf = short_vec<float, A>;
template<std::size_t A> using vd = short_vec<double, A>;
template<std::size_t A> using vi = short_vec<int, A>;
template<std::size_t A> using svf = streaming_short_vec<float, A>;
template<std::size_t A> using svd = streaming_short_vec<double, A>;
PLAINS(vf) PLAINS(vd) PLAINS(vi) PLAINS(svf) PLAINS(svd)

template<typename V, typename C> struct TemplateUse
{
    template<typename W> static void call(C& x, C end, Log *log, int) { body<W>(x, end, log); }
    static void run(C& x, C lo, C hi, Log *log)
    {
        LIBFLATARRAY_LOOP_PEELER_TEMPLATE(V, C, x, lo + hi, call, log, 0);
    }
};
#ifdef LIBFLATARRAY_WITH_CPP14
struct Lambda
{
    Log *log;
    template<typename W, typename C, typename E> void operator()(W, C *x, E end) const { body<W>(*x, end, log); }
};
#endif

struct PeelerReplayer
{
    void compare(const Node& st, unsigned long long base, unsigned long long x, const Log& log, const char *how)
    {
        ++rep().checks;
        long arity = st[0][1].n();
        std::ostringstream o;
        o << how << ", arity " << arity << ", [" << base + (unsigned long long)st[0][2].n() << ", " << base + (unsigned long long)st[0][3].n() << "): ";
        unsigned long long at = base + (unsigned long long)(st[0][2].n());
        std::size_t n = 0;
        for (auto& run : st[2].l) {
            long step = run[0].s == "v" ? arity : 1;
            for (unsigned long long i = base + (unsigned long long)(run[1].n()); i < base + (unsigned long long)(run[2].n()); i += (unsigned long long)(step)) {
                if (n >= log.size()) { o << "iteration " << i << " is missing"; rep().fail("VALUE", o.str()); return; }
                if (log[n].at != i || log[n].arity != step) { o << "specified chunk of " << step << " at " << i << ", got " << log[n].arity << " at " << log[n].at; rep().fail("VALUE", o.str()); return; }
                ++n;
            }
        }
        if (n != log.size()) { o << log.size() - n << " excess chunks, first at " << log[n].at; rep().fail("VALUE", o.str()); return; }
        if (x != base + (unsigned long long)(st[0][3].n())) { o << "counter ends at " << x; rep().fail("VALUE", o.str()); }
        (void)at;
    }

    template<typename V, typename C> void counter(const Node& st, const char *name)
    {
        // start of the range: 0, somewhere, and close to the counter's limit
        const unsigned long long m = (unsigned long long)(std::numeric_limits<C>::max());
        const unsigned long long bases[4] = { 0, 96, (m / 2) / 64 * 64, (m - 160) / 64 * 64 };
        for (int b = 0; b < 4; ++b) {
            if (sizeof(C) == 1 && b > 0) break;
            unsigned long long base = bases[b];
            C s = C(base + (unsigned long long)(st[0][2].n())), e = C(base + (unsigned long long)(st[0][3].n()));
            { Log log; C x = s; TemplateUse<V, C>::run(x, C(e - e / 3), C(e / 3), &log); compare(st, base, (unsigned long long)(x), log, name); }
#ifdef LIBFLATARRAY_WITH_CPP14
            { Log log; C x = s; loop_peeler<V>(&x, e, Lambda{&log}); compare(st, base, (unsigned long long)(x), log, name); }
#endif
        }
    }
    template<typename V> void vec(const Node& st)
    {
        { Log log; int x = int(st[0][2].n()); int e = int(st[0][3].n()); Plain<V>::run_int(x, e, &log); compare(st, 0, (unsigned long long)(x), log, "macro, int"); }
        { Log log; long x = st[0][2].n(); long e = st[0][3].n() + 1; Plain<V>::run_long(x, e, &log); compare(st, 0, (unsigned long long)(x), log, "macro, long"); }
        counter<V, int>(st, "int");
        counter<V, long>(st, "long");
        counter<V, unsigned>(st, "unsigned");
        counter<V, std::size_t>(st, "size_t");
        counter<V, short>(st, "short");
#ifdef LIBFLATARRAY_WITH_CPP14
        // counter and end of different types
        { Log log; int x = int(st[0][2].n()); loop_peeler<V>(&x, std::size_t(st[0][3].n()), Lambda{&log}); compare(st, 0, (unsigned long long)(x), log, "int counter, size_t end"); }
        { Log log; std::size_t x = std::size_t(st[0][2].n()); loop_peeler<V>(&x, int(st[0][3].n()), Lambda{&log}); compare(st, 0, x, log, "size_t counter, int end"); }
        { Log log; long x = st[0][2].n(); loop_peeler<V>(&x, int(st[0][3].n()), Lambda{&log}); compare(st, 0, (unsigned long long)(x), log, "long counter, int end"); }
#endif
    }
    template<std::size_t A> void arity(const Node& st)
    {
        vec<short_vec<float, A> >(st);
        vec<short_vec<double, A> >(st);
        vec<short_vec<int, A> >(st);
        vec<streaming_short_vec<double, A> >(st);
        vec<streaming_short_vec<float, A> >(st);
    }
    void step(const Node& st)
    {
        switch (st[0][1].n()) {
        case 1: arity<1>(st); break; case 2: arity<2>(st); break; case 4: arity<4>(st); break;
        case 8: arity<8>(st); break; case 16: arity<16>(st); break; case 32: arity<32>(st); break;
        default: std::cerr << "HARNESS: arity\n"; exit(3); }
    }
};

int main(int argc, char **argv)
{
    return drive(argc, argv, [](const Node& b) -> bool { replay_behaviour<PeelerReplayer>(b, "peeler"); return true; });
}
