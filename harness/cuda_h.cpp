// Replays behaviours of CudaArray.tla into cuda_array, on the device of cuda/cuda_shim.hpp.
#include "driver.hpp"
#include <libflatarray/config.h>
#include <libflatarray/cuda_array.hpp>
#include <memory>
using namespace LibFlatArray;
bool verif_alloc_fails(std::size_t) { return false; }

struct Triple { int a; short b; char c[6]; };
template<typename T> struct el { static T in(long v) { return T(v); } static long out(const T& t) { return long(t); } };
template<> struct el<Triple>
{
    static Triple in(long v) { Triple t; memset(&t, 0, sizeof t); t.a = int(v); t.b = short(v + 1); t.c[5] = char(v); return t; }
    static long out(const Triple& t) { return t.b == short(t.a + 1) && t.c[5] == char(t.a) ? t.a : -999; }
};

template<typename T>
struct CudaReplayer
{
    typedef cuda_array<T> A;
    std::unique_ptr<A> a[4];

    static void pattern(std::vector<T>& v, long n, long first, long step) { for (long k = 1; k <= n; ++k) v.push_back(el<T>::in((first + k * step) % 120)); }

    void step(const Node& st)
    {
        const Node& c = st[0];
        const std::string& op = c[0].s;
        long i = c[1].n();
        if (op == "ctor") { if (c[2].n() == 0 && flavour(2)) a[i].reset(new A()); else a[i].reset(new A(std::size_t(c[2].n()))); }
        else if (op == "ctorv") { T v = el<T>::in(c[3].n()); verif_cuda::HostOnly h(&v, sizeof v); a[i].reset(new A(std::size_t(c[2].n()), v)); }
        else if (op == "ctorh") {
            std::vector<T> v; pattern(v, c[2].n(), c[3].n(), c[4].n());
            verif_cuda::HostOnly h(v.data(), v.size() * sizeof(T));
            if (flavour(2) && !v.empty()) a[i].reset(new A(v)); else a[i].reset(new A(v.data(), v.size()));
        }
        else if (op == "copy") { const A& s = *a[c[2].n()]; if (flavour(3)) a[i].reset(new A(s)); else { A t(s); a[i].reset(new A(t)); } }
        else if (op == "dtor") a[i].reset();
        else if (op == "assign") { const A& s = *a[c[2].n()]; *a[i] = s; }
        else if (op == "resize") a[i]->resize(std::size_t(c[2].n()));
        else if (op == "resizev") { T v = el<T>::in(c[3].n()); verif_cuda::HostOnly h(&v, sizeof v); a[i]->resize(std::size_t(c[2].n()), v); }
        else if (op == "reserve") a[i]->reserve(std::size_t(c[2].n()));
        else if (op == "load") { std::vector<T> v; pattern(v, long(a[i]->size()), c[2].n(), c[3].n()); v.push_back(el<T>::in(1)); verif_cuda::HostOnly h(v.data(), v.size() * sizeof(T)); a[i]->load(v.data()); }
        else if (op == "save") {}     // see below
        else { std::cerr << "HARNESS: unknown call " << op << "\n"; exit(3); }
        long alive = 0;
        for (int j = 1; j <= 3; ++j) { const Node& w = st[2][std::size_t(j - 1)]; alive += w[0].n(); if (rep().observe) observe(j, w); }
        (void)alive;
    }

    void observe(int j, const Node& w)
    {
        std::string who = "array " + std::to_string(j);
        if (!expect("VALUE", w[0].n() != 0, bool(a[j]), who + " alive") || !a[j]) return;
        const A& x = *a[j];
        std::size_t n = 0;
        for (auto& r : w[1].l) n += std::size_t(r[0].n());
        if (!expect("VALUE", n, x.size(), who + " size")) return;
        expect("VALUE", n * sizeof(T), x.byte_size(), who + " byte_size");
        if (x.capacity() < std::size_t(w[2].n())) rep().fail("VALUE", who + " capacity: at least " + std::to_string(w[2].n()) + " specified, got " + std::to_string(x.capacity()));
        if (a[j]->data() != x.data()) rep().fail("VALUE", who + " data() differs for const and non-const arrays");
        // the whole capacity belongs to the array
        if (x.capacity() && verif_cuda::where(x.data(), x.capacity() * sizeof(T)) != 1) rep().fail("DEVICE", who + " does not own the memory for its capacity");
        for (int k = 1; k < j; ++k) if (a[k] && n && a[k]->size() && a[k]->data() == x.data()) rep().fail("DEVICE", "two arrays share their memory");
        std::vector<T> out(n + 1, el<T>::in(77));
        x.save(out.data());
        std::size_t k = 0;
        for (auto& r : w[1].l) for (long e = 0; e < r[0].n(); ++e, ++k) {
            if (r[1].n() < 0) continue;
            ++rep().checks;
            long want = (r[1].n() + e * r[2].n()) % 120;
            if (el<T>::out(out[k]) != want) { rep().fail("VALUE", who + " element " + std::to_string(k) + " of " + std::to_string(n) + ": specified " + std::to_string(want) + ", got " + std::to_string(el<T>::out(out[k]))); return; }
        }
        if (el<T>::out(out[n]) != 77) rep().fail("VALUE", who + " save() wrote too much");
    }
};

int main(int argc, char **argv)
{
    int r = drive(argc, argv, [](const Node& b) -> bool {
        replay_behaviour<CudaReplayer<int> >(b, "int");
        replay_behaviour<CudaReplayer<double> >(b, "double");
        replay_behaviour<CudaReplayer<Triple> >(b, "triple");
        return true;
    });
    std::cout << "NOTE emulated device: " << verif_cuda::dev().launches << " launches, " << verif_cuda::dev().threads << " threads, " << verif_cuda::dev().copies << " copies\n";
    return r;
}
