// Replays behaviours of SoaVector.tla into soa_vector.
#define K_UNI1
#ifndef RECORD
#define FAM_POD
#define FAM_OBJ
#define FAM_ARR
#define FAM_SOLE
#define K_AXES
#define K_DEFAULT1D
#endif
#include "driver.hpp"
#include "gridcells.hpp"
#include <memory>
#include <utility>
using namespace LibFlatArray;
GRID_CELLS(tiny, CUSTOM_API(LIBFLATARRAY_CUSTOM_SIZES_1D_UNIFORM((1)(2)(3)(5)(8))))

// fault injection: the n-th large allocation fails
static VERIF_TLS long fault_countdown = 0;
bool verif_alloc_fails(std::size_t n)
{
    return fault_countdown > 0 && n >= 512 && --fault_countdown == 0;
}

template<typename CELL> struct ReadAll
{
    std::vector<Ints > *out; std::size_t n, cap; long *calls; int how;
    template<typename ACC> void operator()(ACC& acc) const
    {
        ++*calls;
        if (acc.index() != 0) rep().fail("VALUE", "callback's accessor is not at the origin");
        if (std::size_t(ACC::DIM_X) < cap) rep().fail("VALUE", "extent smaller than capacity");
        for (; acc.index() < long(n); ++acc) {
            Ints r;
            for (int k = 0; k < KSLOTS; ++k) r.push_back(how ? slots<CELL>::aget_dyn(acc, k) : slots<CELL>::aget(acc, k));
            out->push_back(r);
        }
    }
};
template<typename CELL> struct WriteMember
{
    long p; int k; long v; int how;
    template<typename ACC> void operator()(ACC& acc) const
    {
        acc += p;
        if (how) slots<CELL>::aset(acc, k, v); else slots<CELL>::aset_dyn(acc, k, v);
    }
};

template<typename CELL>
struct VectorReplayer
{
    typedef soa_vector<CELL> V;
    struct Mirror { bool alive = false; std::vector<Ints > s; std::size_t mincap = 0; };
    std::unique_ptr<V> v[4];
    Mirror m[4];

    template<typename F> std::string guarded(const F& f)
    {
        try { f(); return "ok"; }
        catch (const std::out_of_range&) { return "out_of_range"; }
        catch (const std::bad_alloc&) { return "bad_alloc"; }
        catch (const std::exception& e) { return std::string("exception:") + e.what(); }
    }
    // first without memory (which may not change anything), then again
    template<typename F> std::string faulty(long f, const F& call)
    {
        if (f > 0) {
            fault_countdown = f;
            std::string got = guarded(call);
            bool hit = fault_countdown == 0;
            fault_countdown = 0;
            if (got != "bad_alloc") return got;
            if (!hit) { rep().fail("VALUE", "bad_alloc although memory is available"); return got; }
            for (int j = 1; j <= 3; ++j) observe(j);
            if (rep().failed_here) return got;
        }
        return guarded(call);
    }

    void step(const Node& st)
    {
        const Node& c = st[0];
        const std::string& op = c[0].s;
        long i = c[1].n();
        std::unique_ptr<V>& a = v[i];
        std::string got;
        std::size_t cap = a ? a->capacity() : 0;
        if (op == "ctor") {
            std::size_t n = std::size_t(c[2].n());
            got = faulty(c[3].n(), [&] { if (n == 0 && flavour(2)) a.reset(new V()); else a.reset(new V(n)); });
        } else if (op == "ctorv") {
            CELL x = make_cell<CELL>(c[3]);
            got = faulty(c[4].n(), [&] { a.reset(new V(std::size_t(c[2].n()), x)); });
        } else if (op == "copy") {
            const V& o = *v[c[2].n()];
            got = faulty(c[3].n(), [&] { if (flavour(2)) a.reset(new V(o)); else { V t = o; a.reset(new V(t)); } });
        } else if (op == "assign") {
            const V& o = *v[c[2].n()];
            got = faulty(c[3].n(), [&] { *a = o; });
        } else if (op == "swap") {
            got = guarded([&] { using std::swap; swap(*a, *v[c[2].n()]); });
        } else if (op == "dtor") {
            got = guarded([&] { a.reset(); });
        } else if (op == "pop") {
            got = guarded([&] { a->pop_back(); });
        } else if (op == "clear") {
            got = guarded([&] { a->clear(); });
        } else if (op == "push") {
            CELL x = make_cell<CELL>(c[2]);
            got = faulty(c[3].n(), [&] { a->push_back(x); });
        } else if (op == "emplace") {
            CELL x = make_cell<CELL>(c[2]);
#ifdef LIBFLATARRAY_WITH_CPP14
            got = faulty(c[3].n(), [&] { if (flavour(2)) a->emplace_back(x); else a->emplace_back(CELL(x)); });
#else
            got = faulty(c[3].n(), [&] { a->push_back(x); });
#endif
        } else if (op == "pushmany") {
            got = guarded([&] { for (auto& n : c[2].l) { CELL x = make_cell<CELL>(n); a->push_back(x); } });
        } else if (op == "resize") {
            got = faulty(c[3].n(), [&] { a->resize(std::size_t(c[2].n())); });
        } else if (op == "reserve") {
            got = faulty(c[3].n(), [&] { a->reserve(std::size_t(c[2].n())); });
            if (a && a->capacity() < cap) rep().fail("VALUE", "reserve() reduced the capacity");
        } else if (op == "set") {
            CELL x = make_cell<CELL>(c[3]);
            got = guarded([&] { a->set(std::size_t(c[2].n()), x); });
        } else if (op == "setm") {
            WriteMember<CELL> w = { c[2].n(), int(c[3].n()), c[4].n(), int(flavour(2)) };
            got = guarded([&] { a->callback(w); });
        } else { std::cerr << "HARNESS: unknown call " << op << "\n"; exit(3); }
        expect("VALUE", st[1].s, got, "outcome of call");
        for (long j = 1; j <= 3; ++j) {
            const Node& o = st[2][std::size_t(j - 1)];
            long kind = o[0].n();
            if (kind == 0) continue;
            if (kind == 2) { m[j] = Mirror(); continue; }
            m[j].alive = true;
            m[j].s.resize(std::size_t(o[1].n()), Ints(KSLOTS, 0));
            for (auto& x : o[2].l) { Ints r; for (auto& y : x[1].l) r.push_back(y.n()); m[j].s[std::size_t(x[0].n())] = r; }
            m[j].mincap = std::size_t(o[3].n());
        }
#ifdef RECORD
        rep().observe = flavour(6) == 0;
#endif
        for (int j = 1; j <= 3 && rep().observe && !rep().failed_here; ++j) observe(j);
#ifdef RECORD
        returned();
    }

    struct Where { const char **p; template<typename ACC> void operator()(ACC& acc) const { *p = acc.data(); } };
    void returned()
    {
        long b[4] = { 0 };
        for (int j = 1; j <= 3; ++j) {
            if (!v[j] || v[j]->capacity() == 0) continue;
            const char *p = 0;
            Where w = { &p };
            v[j]->callback(w);
            b[j] = rec().block(p);
        }
        if (!rec().begin_event()) return;
        rec().text("[8,[");
        bool first = true;
        for (int j = 1; j <= 3; ++j) if (b[j]) { rec().text(first ? "[%ld,%ld]" : ",[%ld,%ld]", b[j], long(v[j]->size()) * recorded<CELL>::MEMBERS); first = false; }
        rec().text("]]");
#endif
    }

    void compare(const Ints& want, const Ints& got, int j, const char *what, std::size_t p)
    {
        ++rep().checks;
        for (std::size_t k = 0; k < got.size(); ++k)
            if (want[k] != -1 && want[k] != got[k]) { rep().fail("VALUE", "vector " + std::to_string(j) + what + std::to_string(p) + ": specified " + join(want) + ", got " + join(got)); return; }
    }

    void again() { for (int j = 1; j <= 3; ++j) observe(j); }
    void observe(int j)
    {
        std::string who = "vector " + std::to_string(j);
        if (!expect("VALUE", m[j].alive, bool(v[j]), who + " alive") || !v[j]) return;
        V& a = *v[j]; const V& ca = a;
        std::size_t n = m[j].s.size();
        if (!expect("VALUE", n, ca.size(), who + " size")) return;
        expect("VALUE", n == 0, ca.empty(), who + " empty");
        if (ca.capacity() < n) { rep().fail("VALUE", who + " capacity less than size"); return; }
        if (ca.capacity() < m[j].mincap) { rep().fail("VALUE", who + " capacity less than reserved"); return; }
        for (std::size_t p = 0; p < n; ++p) { CELL x = ca.get(p); compare(m[j].s[p], cell_slots(x), j, " element ", p); }
        if (n == 0) return;
        for (int pass = 0; pass < 2; ++pass) {
            std::vector<Ints > out; long calls = 0;
            ReadAll<CELL> f = { &out, n, ca.capacity(), &calls, pass };
            if (pass) ca.callback(f); else a.callback(f);
            expect("VALUE", 1L, calls, who + " callback invocations");
            if (!expect("VALUE", n, out.size(), who + " elements seen by callback")) return;
            for (std::size_t p = 0; p < n; ++p) compare(m[j].s[p], out[p], j, " accessor element ", p);
        }
    }
};

int main(int argc, char **argv)
{
    return drive(argc, argv, [](const Node& b) -> bool {
        const std::string& k = b[0][0].s;
#ifdef RECORD
#define KIND(K) if (k == #K) { \
        replay_behaviour<VectorReplayer<Rec_##K> >(b, "rec_" #K);   \
        replay_behaviour<VectorReplayer<Sro_##K> >(b, "sro_" #K);   \
        return true; }
        KIND(tiny) KIND(uni1)
#else
#define KIND(K) if (k == #K) { \
        replay_behaviour<VectorReplayer<Pod_##K> >(b, "pod_" #K);   \
        replay_behaviour<VectorReplayer<Obj_##K> >(b, "obj_" #K);   \
        replay_behaviour<VectorReplayer<Arr_##K> >(b, "arr_" #K);   \
        replay_behaviour<VectorReplayer<Sole_##K> >(b, "sole_" #K); \
        return true; }
        KIND(tiny) KIND(uni1) KIND(axes) KIND(default1d)
#endif
        return false;
    });
}
