// Replays Sizes.tla: which extents are selected for which sizes?
#include "driver.hpp"
#include <libflatarray/flat_array.hpp>
using namespace LibFlatArray;
bool verif_alloc_fails(std::size_t) { return false; }

#define CELL(NAME, ...) struct NAME { __VA_ARGS__ float a; }; LIBFLATARRAY_REGISTER_SOA(NAME, ((float)(a)))
CELL(C_default, )
CELL(C_default1d,  class API : public api_traits::has_default_1d_sizes {};)
CELL(C_default2d,  class API : public api_traits::has_default_2d_sizes {};)
CELL(C_default2du, class API : public api_traits::has_default_2d_sizes_uniform {};)
CELL(C_default3d,  class API : public api_traits::has_default_3d_sizes {};)
CELL(C_default3du, class API : public api_traits::has_default_3d_sizes_uniform {};)
CELL(C_axes, class API { public: LIBFLATARRAY_CUSTOM_SIZES((8)(16)(24), (4)(12), (2)(6)(10)) };)
CELL(C_uni1, class API { public: LIBFLATARRAY_CUSTOM_SIZES_1D_UNIFORM((4)(10)(64)(100)) };)
CELL(C_uni2, class API { public: LIBFLATARRAY_CUSTOM_SIZES_2D_UNIFORM((8)(16)(40)) };)
CELL(C_uni3, class API { public: LIBFLATARRAY_CUSTOM_SIZES_3D_UNIFORM((4)(8)(12)) };)
CELL(C_asym, class API : public api_traits::has_asymmetric_dual_callback { public: LIBFLATARRAY_CUSTOM_SIZES((8)(16), (4)(8), (2)(4)) };)

struct Got { long n, x, y, z; const char *data; long index; };
struct F
{
    Got *g;
    template<typename CELL, long X, long Y, long Z, long I> void operator()(soa_accessor<CELL, X, Y, Z, I>& a)
    { ++g->n; g->x = X; g->y = Y; g->z = Z; g->data = a.data(); g->index = a.index() + I; }
};

static const std::size_t HUGES[4] = { 2147483647ul, (1ul << 32) + 5, (1ul << 40) + 1, ~0ul };

template<typename CELL> struct SizesReplayer
{
    void once(const Node& st, std::size_t x, std::size_t y, std::size_t z)
    {
        char storage[8];
        Got g = { 0, 0, 0, 0, 0, -1 };
        F f = { &g };
        std::string got = "ok";
        try {
            api_traits::select_sizes<CELL>()(storage, f, x, y, z);
        } catch (const std::out_of_range&) { got = "out_of_range"; }
        catch (const std::exception& e) { got = std::string("exception:") + e.what(); }
        ++rep().checks;
        std::ostringstream want, have;
        if (st[1].s == "ok") want << "1 call (" << st[2][0].n() << "," << st[2][1].n() << "," << st[2][2].n() << ")"; else { want << st[1].s; if (st[2].size() && st[2][st[2].size() - 1].n() != 0) want << " with extents"; }
        if (got == "ok" || g.n) have << g.n << " call (" << g.x << "," << g.y << "," << g.z << ")"; else have << got;
        if (want.str() != have.str()) {
            std::ostringstream o; o << "size (" << x << "," << y << "," << z << "): specified " << want.str() << ", got " << have.str();
            rep().fail("VALUE", o.str());
        }
        if (g.n && (g.data != storage || g.index != 0)) rep().fail("VALUE", "accessor does not refer to the given storage's origin");
    }
    void step(const Node& st)
    {
        long x = st[0][1].n(), y = st[0][2].n(), z = st[0][3].n();
        const long H = 2147483647;
        if (x == H || y == H || z == H) {
            for (int i = 0; i < 4; ++i)
                once(st, x == H ? HUGES[i] : std::size_t(x), y == H ? HUGES[i] : std::size_t(y), z == H ? HUGES[i] : std::size_t(z));
        } else once(st, std::size_t(x), std::size_t(y), std::size_t(z));
    }
};

int main(int argc, char **argv)
{
    return drive(argc, argv, [](const Node& b) -> bool {
        const std::string& k = b[0][0].s;
#define KIND(K) if (k == #K) { replay_behaviour<SizesReplayer<C_##K> >(b, #K); return true; }
        KIND(default) KIND(default1d) KIND(default2d) KIND(default2du) KIND(default3d) KIND(default3du)
        KIND(axes) KIND(uni1) KIND(uni2) KIND(uni3) KIND(asym)
        return false;
    });
}
