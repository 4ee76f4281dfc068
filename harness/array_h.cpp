// Replays behaviours of SoaArray.tla into soa_array.
#include "driver.hpp"
#ifdef RECORD
#include "gridcells.hpp"
GRID_REC(array, )
#else
#include "cells.hpp"
#endif
#include <memory>
#include <type_traits>
using namespace LibFlatArray;

template<typename CELL>
struct ArrayReplayer
{
    typedef soa_array<CELL, 5> A1; typedef soa_array<CELL, 8> A3; typedef soa_array<CELL, 3> A4;
    std::unique_ptr<A1> a1, a2; std::unique_ptr<A3> a3; std::unique_ptr<A4> a4;

    template<typename F> void on(long i, const F& f) { switch (i) { case 1: f(a1); break; case 2: f(a2); break; case 3: f(a3); break; default: f(a4); } }

    struct None {};
    template<typename F> std::string guarded(const F& f)
    {
        try { f(); return "ok"; }
        catch (const std::out_of_range&) { return "out_of_range"; }
        catch (const std::exception& e) { return std::string("exception:") + e.what(); }
    }

    template<typename P> static typename P::element_type& ref(P& p) { return *p; }
    template<typename P> static const typename P::element_type& cref(P& p) { return *p; }

    template<typename T> static void copy_con(std::unique_ptr<T>& t, std::unique_ptr<T>& s)
    {
        switch (flavour(3)) {
        case 0: t.reset(new T(cref(s))); break;
        case 1: t.reset(new T(ref(s))); break;
        default: { T tmp = cref(s); t.reset(new T(tmp)); } }
    }
    template<typename T, typename S> static void copy_con(std::unique_ptr<T>& t, std::unique_ptr<S>& s)
    {
        if (flavour(2)) t.reset(new T(cref(s))); else t.reset(new T(ref(s)));
    }
    template<typename T> static void do_swap(T& a, T& b) { using LibFlatArray::swap; swap(*a, *b); }
    template<typename T, typename S> static void do_swap(T&, S&) { std::cerr << "HARNESS: swap\n"; exit(3); }

    template<typename T> static void set_cell(T& a, long p, const CELL& c)
    {
        switch (flavour(6)) {
        case 0: a[int(p)] = c; break;
        case 1: a.at(int(p)) << c; break;
        case 2: a.at(std::size_t(p)) = c; break;
        case 3: { typename T::iterator i = a.begin(); i += p; i = c; break; }
        case 4: { typename T::iterator i = a.begin(); for (long j = 0; j < p; ++j) ++i; i << c; break; }
        default: if (std::size_t(p) + 1 == a.size()) a.back() = c; else a[int(p)] << c; }
    }

    // cells whose members are plain data: so are arrays of them
    static bool plain() { return std::is_trivially_copyable<CELL>::value; }
    template<typename T> static void transport(void *to, const void *from)
    {
#ifdef WITH_CUDA
        // via the device
        void *d = 0;
        cudaMalloc(&d, sizeof(T));
        cudaMemcpy(d, from, sizeof(T), cudaMemcpyHostToDevice);
        cudaMemcpy(to, d, sizeof(T), cudaMemcpyDeviceToHost);
        cudaFree(d);
#else
        memcpy(to, from, sizeof(T));
#endif
    }
    template<typename T> static void relocate(std::unique_ptr<T>& a)
    {
        if (!plain()) return;
        void *n = ::operator new(sizeof(T)), *old = a.release();
        transport<T>(n, old);
        memset(old, 0xD7, sizeof(T));
        ::operator delete(old);
        a.reset(static_cast<T*>(n));
    }
    template<typename T> static void send(std::unique_ptr<T>& a, std::unique_ptr<T>& s)
    {
        if (!plain()) *a = *s;
        else if (a.get() != s.get()) transport<T>(static_cast<void*>(a.get()), s.get());
    }
    template<typename T, typename S> static void send(T&, S&) { std::cerr << "HARNESS: send\n"; exit(3); }

    const Node *last = 0;
    void again() { for (long j = 1; j <= 4 && last; ++j) on(j, [&](auto& a) { observe(j, a, (*last)[std::size_t(j - 1)]); }); }
    void step(const Node& st)
    {
        last = &st[2];
        const Node& c = st[0];
        const std::string& op = c[0].s;
        const std::string& want = st[1].s;
        std::string got;
        long i = c[1].n();
        on(i, [&](auto& a) {
            typedef typename std::decay<decltype(*a)>::type T;
            got = guarded([&] {
                if (op == "ctor") {
                    long n = c[2].n(); CELL v = make_cell<CELL>(c[3]);
                    if (n == 0 && flavour(2)) a.reset(new T()); else a.reset(new T(std::size_t(n), v));
                } else if (op == "copy") {
                    on(c[2].n(), [&](auto& s) { copy_con(a, s); });
                } else if (op == "assign") {
                    on(c[2].n(), [&](auto& s) { if (flavour(2)) ref(a) = cref(s); else ref(a) = ref(s); });
                } else if (op == "swap") {
                    on(c[2].n(), [&](auto& s) { do_swap(a, s); });
                } else if (op == "move") {
                    relocate(a);
                } else if (op == "send") {
                    on(c[2].n(), [&](auto& s) { send(a, s); });
                } else if (op == "dtor") {
                    a.reset();
                } else if (op == "pop") {
                    a->pop_back();
                } else if (op == "clear") {
                    a->clear();
                } else if (op == "push") {
                    CELL v = make_cell<CELL>(c[2]);
                    if (flavour(2)) a->push_back(v); else *a << v;
                } else if (op == "set") {
                    CELL v = make_cell<CELL>(c[3]);
                    set_cell(*a, c[2].n(), v);
                } else if (op == "setm") {
                    auto acc = (*a)[int(c[2].n())];
                    switch (flavour(3)) {
                    case 0:  slots<CELL>::aset(acc, int(c[3].n()), c[4].n()); break;
                    case 1:  slots<CELL>::aset_dyn(acc, int(c[3].n()), c[4].n()); break;
                    default: slots<CELL>::aset_typed(acc, int(c[3].n()), c[4].n()); }
                } else if (op == "load") {
                    on(c[2].n(), [&](auto& s) { auto acc = (*s)[int(c[3].n())]; a->load(acc, std::size_t(c[4].n()), std::size_t(c[5].n())); });
                } else if (op == "loadapp") {
                    on(c[2].n(), [&](auto& s) { auto acc = (*s)[int(c[3].n())]; a->load(acc, std::size_t(c[4].n())); });
                } else { std::cerr << "HARNESS: unknown call " << op << "\n"; exit(3); }
            });
        });
        expect("VALUE", want, got, "outcome of call");
#ifdef RECORD
        rep().observe = flavour(6) == 0;
#endif
        for (long j = 1; j <= 4 && rep().observe && !rep().failed_here; ++j) {
            const Node& o = st[2][std::size_t(j - 1)];
            on(j, [&](auto& a) { observe(j, a, o); });
        }
#ifdef RECORD
        returned();
#endif
    }

#ifdef RECORD
    void returned()
    {
        long b[5] = { 0 };
        for (long j = 1; j <= 4; ++j) on(j, [&](auto& a) { if (a) b[j] = rec().block(a.get()); });
        if (!rec().begin_event()) return;
        rec().text("[8,[");
        bool first = true;
        for (long j = 1; j <= 4; ++j) on(j, [&](auto& a) { if (b[j]) { rec().text(first ? "[%ld,%ld]" : ",[%ld,%ld]", b[j], long(a->size()) * recorded<CELL>::MEMBERS); first = false; } });
        rec().text("]]");
    }
#endif

    template<typename P> void observe(long j, P& a, const Node& o)
    {
        std::string who = "array " + std::to_string(j);
        if (!expect("VALUE", o[0].n() != 0, bool(a), who + " alive")) return;
        if (!a) return;
        typedef typename std::decay<decltype(*a)>::type T;
        const T& ca = *a;
        const Node& s = o[1];
        if (!expect("VALUE", s.size(), ca.size(), who + " size")) return;
        expect("VALUE", std::size_t(T::SIZE), ca.capacity(), who + " capacity");
        expect("VALUE", s.size() * sum_of_sizes<CELL>(), ca.byte_size(), who + " byte_size");
        std::size_t n = 0;
        for (typename T::iterator it = a->begin(); it != a->end() && n <= s.size(); ++it) {
            if (n < s.size()) { CELL x; it >> x; expect_slots(s[n], cell_slots(x), who + " iterated element " + std::to_string(n)); }
            ++n;
        }
        expect("VALUE", s.size(), n, who + " number of iterated elements");
        for (std::size_t p = 0; p < s.size(); ++p) {
            std::string el = who + " element " + std::to_string(p);
            CELL x = (*a)[int(p)];
            expect_slots(s[p], cell_slots(x), el);
            CELL y = ca[int(p)];
            expect_slots(s[p], cell_slots(y), el + " (const)");
            Ints m, d;
            const auto acc = a->at(p);
            const auto cacc = ca.at(int(p));
            const auto cacc2 = ca.at(p);
            Ints c2; for (int k = 0; k < KSLOTS; ++k) c2.push_back(slots<CELL>::aget(cacc2, k));
            expect_slots(s[p], c2, el + " via at(size_t) const");
            for (int k = 0; k < KSLOTS; ++k) { m.push_back(slots<CELL>::aget(acc, k)); d.push_back(slots<CELL>::aget_dyn(cacc, k)); }
            expect_slots(s[p], m, el + " via members");
            expect_slots(s[p], d, el + " via const members");
            // struct-of-arrays layout: slot k of element p sits in the k-th member array
            for (int k = 0; k < KSLOTS; ++k) {
                const char *raw = a->data() + slot_offset<CELL>(k) * T::SIZE + p * slots<CELL>::size_of(k);
                if (s[p][std::size_t(k)].i != -1) expect("VALUE", s[p][std::size_t(k)].i, slots<CELL>::raw_get(raw, k), el + " raw slot " + std::to_string(k));
            }
        }
        if (s.size()) { CELL x = a->back(); expect_slots(s[s.size() - 1], cell_slots(x), who + " back()"); }
    }
};

bool verif_alloc_fails(std::size_t) { return false; }

int main(int argc, char **argv)
{
    return drive(argc, argv, [](const Node& b) -> bool {
#ifdef RECORD
        replay_behaviour<ArrayReplayer<Rec_array> >(b, "rec");
        replay_behaviour<ArrayReplayer<Sro_array> >(b, "sro");
#else
        replay_behaviour<ArrayReplayer<CellPod> >(b, "pod");
        replay_behaviour<ArrayReplayer<CellObj> >(b, "obj");
        replay_behaviour<ArrayReplayer<CellArr> >(b, "arr");
#endif
        return true;
    });
}
