// Answers TypeSelection.tla's queries from the library's compile time tables.
// VERIF_ISA names the instruction set this is compiled for.
#include "driver.hpp"
#include <tuple>
#include <type_traits>
#include <libflatarray/flat_array.hpp>
#include <libflatarray/alignment.hpp>
#include <libflatarray/ilp_to_arity.hpp>
#include <libflatarray/estimate_optimum_short_vec_type.hpp>
#ifdef WITH_DETAIL
// (not part of the public interface: left out if this does not compile any more)
#include <libflatarray/detail/sibling_short_vec_switch.hpp>
#include <libflatarray/detail/streaming_short_vec_switch.hpp>
#endif
using namespace LibFlatArray;
bool verif_alloc_fails(std::size_t) { return false; }

typedef std::vector<long> Key;
template<typename T> struct Name;
template<> struct Name<float>  { static long id() { return 1; } };
template<> struct Name<double> { static long id() { return 2; } };
template<> struct Name<int>    { static long id() { return 3; } };
template<> struct Name<char>   { static long id() { return 4; } };
template<> struct Name<short>  { static long id() { return 5; } };
template<> struct Name<long>   { static long id() { return 6; } };
long type_id(const std::string& s) { return s == "float" ? 1 : s == "double" ? 2 : s == "int" ? 3 : s == "char" ? 4 : s == "short" ? 5 : 6; }

template<typename V> struct Decompose;
template<typename T, std::size_t A> struct Decompose<short_vec<T, A> > { static Key k() { return Key{0, Name<T>::id(), long(A)}; } };
template<typename T, std::size_t A> struct Decompose<streaming_short_vec<T, A> > { static Key k() { return Key{1, Name<T>::id(), long(A)}; } };

std::map<Key, Key>& table() { static std::map<Key, Key> t; return t; }
template<int... I> struct Ints_ {};

struct Bytes1 { char a; };
struct Bytes8 { double a; };
struct Bytes24 { double a, b[2]; };
LIBFLATARRAY_REGISTER_SOA(Bytes1, ((char)(a)))
LIBFLATARRAY_REGISTER_SOA(Bytes8, ((double)(a)))
LIBFLATARRAY_REGISTER_SOA(Bytes24, ((double)(a))((double)(b)(2)))
template<std::size_t S> struct Bytes;
template<> struct Bytes<1> { typedef Bytes1 type; };
template<> struct Bytes<8> { typedef Bytes8 type; };
template<> struct Bytes<24> { typedef Bytes24 type; };

// some back ends lack size()
template<typename V> long size_of(...) { return long(V::ARITY); }
template<typename V> auto size_of(int) -> decltype(V::size(), long()) { return long(V::size()); }
#define FOR_ARITIES(M) M(1) M(2) M(4) M(8) M(16) M(32)
template<typename T, std::size_t N> void ilp() { table()[Key{1, Name<T>::id(), long(N)}] = Key{long(ilp_to_arity<T, N>::ARITY)}; }
template<typename T> void ilps() { ilp<T, 1>(); ilp<T, 2>(); ilp<T, 3>(); ilp<T, 4>(); ilp<T, 5>(); ilp<T, 6>(); ilp<T, 7>(); ilp<T, 8>(); ilp<T, 16>(); }

template<typename T, int N, long D, std::size_t C, int S> void opt()
{
    typedef estimate_optimum_short_vec_type<T, soa_accessor<typename Bytes<C>::type, D, 1, 1, 0>, N, S> E;
    Key k = Decompose<typename E::VALUE>::k();
    if (k[2] != long(E::ARITY) || k[1] != Name<T>::id()) k = Key{-1, -1, -1};
    // two registers and a cache of 32 MB are what is assumed unless told otherwise
    typedef soa_accessor<typename Bytes<C>::type, D, 1, 1, 0> A;
    if (N == 2 && S == 33554432 && !std::is_same<typename E::VALUE, typename estimate_optimum_short_vec_type<T, A>::VALUE>::value) k = Key{-1, -1, -2};
    if (S == 33554432 && !std::is_same<typename E::VALUE, typename estimate_optimum_short_vec_type<T, A, N>::VALUE>::value) k = Key{-1, -1, -3};
    table()[Key{2, Name<T>::id(), N, D, long(C), S}] = Key{k[2], k[0]};
}
template<typename T, int N, long D, std::size_t C> void opt_s() { opt<T, N, D, C, 64>(); opt<T, N, D, C, 4096>(); opt<T, N, D, C, 98304>(); opt<T, N, D, C, 1048576>(); opt<T, N, D, C, 33554432>(); }
template<typename T, int N, long D> void opt_c() { opt_s<T, N, D, 1>(); opt_s<T, N, D, 8>(); opt_s<T, N, D, 24>(); }
template<typename T, int N> void opt_d(std::false_type) {}
template<typename T, int N> void opt_d(std::true_type)
{
    opt_c<T, N, 1>(); opt_c<T, N, 63>(); opt_c<T, N, 64>(); opt_c<T, N, 65>(); opt_c<T, N, 4095>(); opt_c<T, N, 4096>(); opt_c<T, N, 4097>();
    opt_c<T, N, 1048576>(); opt_c<T, N, 33554431>(); opt_c<T, N, 33554432>(); opt_c<T, N, 40000000>();
}
template<typename T> void opts()
{
    opt_d<T, 1>(std::integral_constant<bool, ilp_to_arity<T, 1>::ARITY <= 32>());
    opt_d<T, 2>(std::integral_constant<bool, ilp_to_arity<T, 2>::ARITY <= 32>());
    opt_d<T, 4>(std::integral_constant<bool, ilp_to_arity<T, 4>::ARITY <= 32>());
}
template<typename T, std::size_t A, std::size_t B> void sib()
{
#ifdef WITH_DETAIL
    table()[Key{3, 0, Name<T>::id(), long(A), long(B)}] = Decompose<typename detail::flat_array::sibling_short_vec_switch<short_vec<T, A>, B>::VALUE>::k();
    table()[Key{3, 1, Name<T>::id(), long(A), long(B)}] = Decompose<typename detail::flat_array::sibling_short_vec_switch<streaming_short_vec<T, A>, B>::VALUE>::k();
#endif
}
template<typename T, std::size_t A> void per_arity()
{
    sib<T, A, 1>(); sib<T, A, 2>(); sib<T, A, 4>(); sib<T, A, 8>(); sib<T, A, 16>(); sib<T, A, 32>();
    table()[Key{4, Name<T>::id(), long(A)}] = Key{long(alignment<short_vec<T, A> >::VALUE), long(alignment<streaming_short_vec<T, A> >::VALUE),
                                                  size_of<short_vec<T, A> >(0), size_of<streaming_short_vec<T, A> >(0), long(streaming_short_vec<T, A>::ARITY)};
#ifdef WITH_DETAIL
#define SWITCH(F) table()[Key{5, Name<T>::id(), long(A), F}] = Decompose<typename detail::flat_array::streaming_short_vec_switch<T, A, F>::VALUE>::k();
    SWITCH(0) SWITCH(1)
#endif
}
template<typename T> void per_type()
{
    opts<T>();
#define PER(A) per_arity<T, A>();
    FOR_ARITIES(PER)
}

// real accessors: the number of cells of the grid which they describe
struct Cell3 { double a; float b; };
struct Cell1 { char a; };
LIBFLATARRAY_REGISTER_SOA(Cell3, ((double)(a))((float)(b)))
LIBFLATARRAY_REGISTER_SOA(Cell1, ((char)(a)))
template<typename CELL> struct Dims
{
    long want;
    template<typename ACC> void operator()(ACC&) const
    {
        expect("VALUE", want, long(ACC::DIM_PROD), "DIM_PROD");
        typedef estimate_optimum_short_vec_type<double, ACC, 1, 65536> E;
        expect("VALUE", long(want * long(sizeof(CELL)) >= 65536), Decompose<typename E::VALUE>::k()[0], "streaming for a grid of " + std::to_string(want) + " cells");
    }
};
template<typename CELL> void real_grids()
{
    static const int s[][3] = { {1, 1, 1}, {16, 16, 16}, {32, 32, 32}, {64, 32, 32}, {32, 64, 32}, {17, 3, 1}, {128, 64, 1}, {200, 20, 2} };
    for (auto& d : s) {
        soa_grid<CELL> g(d[0], d[1], d[2]);
        Dims<CELL> f; f.want = long(g.extent_x()) * long(g.extent_y()) * long(g.extent_z());
        g.callback(f);
    }
}

struct TypesReplayer
{
    void step(const Node& st)
    {
        const Node& q = st[0];
        Key k; std::ostringstream o;
        const std::string& op = q[0].s;
        for (auto& x : q.l) { if (x.t == Node::STR) o << x.s << " "; else o << x.i << " "; }
        if (op == "ilp") k = Key{1, type_id(q[2].s), q[3].n()};
        else if (op == "optimum") k = Key{2, type_id(q[2].s), q[3].n(), q[4].n(), q[5].n(), q[6].n()};
        else if (op == "sibling") k = Key{3, q[2].n(), type_id(q[3].s), q[4].n(), q[5].n()};
        else if (op == "align") k = Key{4, type_id(q[2].s), q[3].n()};
        else k = Key{5, type_id(q[2].s), q[3].n(), q[4].n()};
#ifndef WITH_DETAIL
        if (k[0] == 3 || k[0] == 5) return;
#endif
        auto it = table().find(k);
        if (it == table().end()) {
            if (op == "optimum") { rep().fail("VALUE", o.str() + ": arity of the selected vector is too large to exist"); return; }
            std::cerr << "HARNESS: no entry " << o.str() << "\n"; exit(3);
        }
        const Key& got = it->second;
        if (op == "align") {
            expect("VALUE", got[0], got[1], "alignment of the streaming variant, " + o.str());
            expect("VALUE", true, got[0] >= st[1][0].n() && (got[0] & (got[0] - 1)) == 0 && got[0] <= 64, "alignment is a sensible power of two, " + o.str());
            expect("VALUE", q[3].n(), got[2], "size()"); expect("VALUE", q[3].n(), got[3], "size()"); expect("VALUE", q[3].n(), got[4], "ARITY");
            return;
        }
        for (std::size_t i = 0; i < st[1].size(); ++i) {
            long w = st[1][i].t == Node::STR ? type_id(st[1][i].s) : st[1][i].n();
            expect("VALUE", w, got[i], o.str() + "answer " + std::to_string(i));
        }
    }
};

int main(int argc, char **argv)
{
    ilps<float>(); ilps<double>(); ilps<int>(); ilps<char>(); ilps<short>(); ilps<long>();
    per_type<float>(); per_type<double>(); per_type<int>();
    std::string variant = VERIF_VARIANT;
    if (variant.size() > 2 && variant.substr(variant.size() - 2) == "_o") variant.resize(variant.size() - 2);
    bool first = true;
    return drive(argc, argv, [&](const Node& b) -> bool {
        if (b[0][0][1].s != variant) return false;
        if (first) { first = false; rep().call = "grids"; real_grids<Cell3>(); real_grids<Cell1>(); }
        replay_behaviour<TypesReplayer>(b, variant); return true; });
}
