// Replays behaviours of Grid.tla into soa_grid. What is compiled in is selected by
// K_* (size traits), FAM_* (cell types) and WITH_* (calls) to keep compilation short.
#include "driver.hpp"
#ifdef WITH_CUDA
#include "cuda/cuda_shim.hpp"
#include <libflatarray/config.h>
#include <libflatarray/cuda_array.hpp>
#endif
#include "gridcells.hpp"
#include <memory>
#ifdef VERIF_CONC
#include <atomic>
#include <thread>
#endif
#include <limits>
using namespace LibFlatArray;

struct P3
{
    long x, y, z;
    P3(long x = 0, long y = 0, long z = 0) : x(x), y(y), z(z) {}
    explicit P3(const Node& n) : x(n[0].n()), y(n[1].n()), z(n[2].n()) {}
    bool operator<(const P3& o) const { return z != o.z ? z < o.z : (y != o.y ? y < o.y : x < o.x); }
    bool operator==(const P3& o) const { return x == o.x && y == o.y && z == o.z; }
    std::string str() const { return "(" + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z) + ")"; }
    long vol() const { return x * y * z; }
};

// ---------------------------------------------------------------- relative coordinates (Rel1, Rel2 of GridGen.tla)
#ifdef WITH_NEIGHBOURS
template<typename F> void rel1(long i, const F& f)
{
    switch (i) {
    case 0: f(coord<0, 0, 0>()); break;   case 1: f(coord<1, 0, 0>()); break;   case 2: f(coord<-1, 0, 0>()); break;
    case 3: f(coord<0, 1, 0>()); break;   case 4: f(coord<0, -1, 0>()); break;  case 5: f(coord<0, 0, 1>()); break;
    case 6: f(coord<0, 0, -1>()); break;  case 7: f(coord<1, -1, 1>()); break;  case 8: f(coord<-2, 1, -1>()); break;
    case 9: f(coord<3, 2, 1>()); break;   case 10: f(coord<-1, -1, 0>()); break; case 11: f(coord<5, 0, 0>()); break;
    default: std::cerr << "HARNESS: rel1\n"; exit(3); }
}
template<typename F> void rel2(long i, const F& f)
{
    switch (i) {
    case 0: f(coord<0, 0, 0>()); break;  case 1: f(coord<-1, 0, 0>()); break; case 2: f(coord<0, 1, 0>()); break;
    case 3: f(coord<1, -1, 1>()); break; case 4: f(coord<0, 2, -1>()); break;
    default: std::cerr << "HARNESS: rel2\n"; exit(3); }
}
#else
template<typename F> void rel1(long i, const F& f) { if (i) { std::cerr << "HARNESS: rel1\n"; exit(3); } f(coord<0, 0, 0>()); }
template<typename F> void rel2(long i, const F& f) { if (i) { std::cerr << "HARNESS: rel2\n"; exit(3); } f(coord<0, 0, 0>()); }
#endif

// puts an accessor (which may be anywhere) to p in one of several ways
template<typename ACC> void place(ACC& acc, const P3& p, unsigned how)
{
    typedef ACC A;
    switch (how % 5) {
    case 0: acc.index() = A::gen_index(std::size_t(p.x), std::size_t(p.y), std::size_t(p.z)); break;
    case 1: acc.index() = 0; acc += A::gen_index(p.x, p.y, p.z); break;
    case 2: acc.index() = A::gen_index(0L, p.y, p.z); for (long i = 0; i < p.x; ++i) ++acc; break;
    case 3: acc.index() = A::gen_index(long(A::DIM_X - 1), p.y, p.z); acc += -(long(A::DIM_X) - 1 - p.x); break;
    default: acc.index() = p.x + A::DIM_X * (p.y + A::DIM_Y * p.z); }
}

template<typename CELL, typename ACC> Ints read_cell(const ACC& a, unsigned how)
{
    Ints r;
    switch (how % 4) {
    case 0: { CELL c; a >> c; return cell_slots(c); }
    case 1: { CELL c = a; return cell_slots(c); }
    case 2: for (int k = 0; k < KSLOTS; ++k) r.push_back(slots<CELL>::aget(a, k)); break;
    default: for (int k = 0; k < KSLOTS; ++k) r.push_back(slots<CELL>::aget_dyn(a, k)); }
    return r;
}
template<typename CELL, typename ACC> void write_slot(ACC& a, int k, long v, unsigned how)
{
    switch (how % 4) {
    case 0: slots<CELL>::aset(a, k, v); break;
    case 1: slots<CELL>::aset_dyn(a, k, v); break;
    case 2: slots<CELL>::aset_typed(a, k, v); break;
    // raw address of a member: member offset is the sum of sizes of members registered before it
    default: slots<CELL>::raw_set(a.access_member(long(slots<CELL>::size_of(k)), long(slot_offset<CELL>(k))), k, v); }
}
template<typename CELL, typename ACC> void write_cell(ACC& a, const CELL& c, unsigned how)
{
    switch (how % 3) {
    case 0: a = c; break;
    case 1: a << c; break;
    default: for (int k = 0; k < KSLOTS; ++k) slots<CELL>::aset(a, k, slots<CELL>::get(c, k)); }
}

// ---------------------------------------------------------------- functors
template<typename CELL> struct SetMemberF
{
    P3 p; long r, s; int k; long v; unsigned fl;
    template<typename ACC> void operator()(ACC& acc) const
    {
        place(acc, p, fl);
        rel1(r, [&](auto c1) { rel2(s, [&](auto c2) {
            if (fl % 2) {
                auto n = acc[c1][c2];
                write_slot<CELL>(n, k, v, fl / 10);
            } else {
                soa_accessor_light<CELL, ACC::DIM_X, ACC::DIM_Y, ACC::DIM_Z, 0> light(acc.data(), acc.index());
                auto n = light[c1][c2];
                write_slot<CELL>(n, k, v, fl / 10);
            }
        }); });
    }
};
template<typename CELL> struct SetCellF
{
    P3 p; long r, s; const CELL *c; unsigned fl;
    template<typename ACC> void operator()(ACC& acc) const
    {
        place(acc, p, fl);
        if (r == 0 && s == 0 && fl % 3 == 0) { write_cell(acc, *c, fl / 10); return; }
        rel1(r, [&](auto c1) { rel2(s, [&](auto c2) { auto n = acc[c1][c2]; write_cell(n, *c, fl / 10); }); });
    }
};
// equality (same storage and position) and numbering of cells, for any kind of accessor
template<typename ACC, typename STORAGE> void compare_accessors(const P3& p, STORAGE *data)
{
    const long DX = ACC::DIM_X, DY = ACC::DIM_Y, at = p.x + DX * (p.y + DY * p.z);
    if (ACC::gen_index(p.x, p.y, p.z) != at || ACC::gen_index(std::size_t(p.x), std::size_t(p.y), std::size_t(p.z)) != at) rep().fail("VALUE", "gen_index() yields the wrong cell for " + p.str());
    // (light accessors refer to a position outside; whether two which refer to different ones of the same value are equal is left open)
    long i = at, k = at + 1;
    char elsewhere = 0;
    ACC acc(data, i), same(data, i), other(data, k), foreign(&elsewhere, i);
    if (!(acc == same) || (acc != same)) rep().fail("VALUE", "accessors at the same position differ");
    if ((acc == other) || !(acc != other)) rep().fail("VALUE", "accessors at different positions are equal");
    if ((acc == foreign) || !(acc != foreign)) rep().fail("VALUE", "accessors to different storage are equal");
    other += -2; ++other;
    if (other.index() != at) rep().fail("VALUE", "accessor moved back and forth is at a different position");
    ++rep().checks;
}
template<typename CELL> struct GetAtF
{
    P3 p; long r, s; unsigned fl; std::vector<Ints > *out;
    template<typename ACC> void operator()(ACC& acc) const
    {
        place(acc, p, fl);
        rel1(r, [&](auto c1) { rel2(s, [&](auto c2) {
            { auto n = acc[c1][c2]; out->push_back(read_cell<CELL>(n, fl / 10)); }
            { const ACC& ca = acc; const auto n = ca[c1][c2]; out->push_back(read_cell<CELL>(n, fl / 10 + 1)); }
            { const_soa_accessor<CELL, ACC::DIM_X, ACC::DIM_Y, ACC::DIM_Z, 0> ca(acc.data(), 0); place(ca, p, fl + 1);
              const auto n = ca[c1][c2]; out->push_back(read_cell<CELL>(n, fl / 10 + 2)); }
            { const_soa_accessor_light<CELL, ACC::DIM_X, ACC::DIM_Y, ACC::DIM_Z, 0> ca(acc.data(), acc.index()); place(ca, p, fl + 2);
              const auto n = ca[c1][c2]; out->push_back(read_cell<CELL>(n, fl / 10 + 3)); }
        }); });
        place(acc, p, fl);
        compare_accessors<ACC>(p, acc.data());
        compare_accessors<const_soa_accessor<CELL, ACC::DIM_X, ACC::DIM_Y, ACC::DIM_Z, 0> >(p, acc.data());
        compare_accessors<soa_accessor_light<CELL, ACC::DIM_X, ACC::DIM_Y, ACC::DIM_Z, 0> >(p, acc.data());
        compare_accessors<const_soa_accessor_light<CELL, ACC::DIM_X, ACC::DIM_Y, ACC::DIM_Z, 0> >(p, acc.data());
    }
};
template<typename CELL> struct WalkF
{
    P3 p; long n; int k; long v; unsigned fl;
    template<typename ACC> void operator()(ACC& acc) const
    {
        if (n == 0) return;
        place(acc, p, fl);
        long end = acc.index() + n;
        if (fl % 2) {
            for (; acc.index() < end; ++acc) write_slot<CELL>(acc, k, v, fl / 10);
        } else {
            soa_accessor_light<CELL, ACC::DIM_X, ACC::DIM_Y, ACC::DIM_Z, 0> light(acc.data(), acc.index());
            for (; light.index() < end; light += 1) write_slot<CELL>(light, k, v, fl / 10);
            // light accessors share the position of the accessor they stem from
            if (acc.index() != end) rep().fail("VALUE", "light accessor does not share its accessor's position");
        }
    }
};
struct Streak
{
    long origin[3]; long len;
    long length() const { return len; }
};
template<typename CELL> struct AccSaveF
{
    const std::vector<Streak> *st; char *target; std::size_t count; unsigned fl;
    template<typename ACC> void operator()(ACC& acc) const
    {
        std::size_t off = 0;
        for (auto& s : *st) {
            place(acc, P3(s.origin[0], s.origin[1], s.origin[2]), s.len ? fl : 0);
            if (off == 0 && std::size_t(s.len) == count && fl % 2) {
                switch (fl / 2 % 4) {
                case 0: acc.save(target, count); break;
                case 1: { const_soa_accessor<CELL, ACC::DIM_X, ACC::DIM_Y, ACC::DIM_Z, 0> c(acc.data(), acc.index()); c.save(target, count); break; }
                case 2: { soa_accessor_light<CELL, ACC::DIM_X, ACC::DIM_Y, ACC::DIM_Z, 0> c(acc.data(), acc.index()); c.save(target, count); break; }
                default: { const_soa_accessor_light<CELL, ACC::DIM_X, ACC::DIM_Y, ACC::DIM_Z, 0> c(acc.data(), acc.index()); c.save(target, count); } }
                return;
            }
            switch (fl % 4) {
            case 3: { soa_accessor_light<CELL, ACC::DIM_X, ACC::DIM_Y, ACC::DIM_Z, 0> c(acc.data(), acc.index()); c.save(target, std::size_t(s.len), off, count); break; }
            case 0: acc.save(target, std::size_t(s.len), off, count); break;
            case 1: { const_soa_accessor<CELL, ACC::DIM_X, ACC::DIM_Y, ACC::DIM_Z, 0> c(acc.data(), acc.index()); c.save(target, std::size_t(s.len), off, count); break; }
            default: { const_soa_accessor_light<CELL, ACC::DIM_X, ACC::DIM_Y, ACC::DIM_Z, 0> c(acc.data(), acc.index()); c.save(target, std::size_t(s.len), off, count); } }
            off += std::size_t(s.len);
        }
    }
};
template<typename CELL> struct AccLoadF
{
    const std::vector<Streak> *st; const char *source; std::size_t count; unsigned fl;
    template<typename ACC> void operator()(ACC& acc) const
    {
        std::size_t off = 0;
        for (auto& s : *st) {
            place(acc, P3(s.origin[0], s.origin[1], s.origin[2]), s.len ? fl : 0);
            if (off == 0 && std::size_t(s.len) == count && fl % 2) {
                if (fl % 4 == 1) acc.load(source, count);
                else { soa_accessor_light<CELL, ACC::DIM_X, ACC::DIM_Y, ACC::DIM_Z, 0> c(acc.data(), acc.index()); c.load(source, count); }
                return;
            }
            if (fl % 2) acc.load(source, std::size_t(s.len), off, count);
            else { soa_accessor_light<CELL, ACC::DIM_X, ACC::DIM_Y, ACC::DIM_Z, 0> c(acc.data(), acc.index()); c.load(source, std::size_t(s.len), off, count); }
            off += std::size_t(s.len);
        }
    }
};
struct Seen { long calls = 0; P3 e1, e2; const char *d1 = 0, *d2 = 0; long i1 = -1, i2 = -1; };
struct CallF
{
    Seen *s;
    template<typename ACC> void operator()(ACC& acc)
    { ++s->calls; s->e1 = P3(ACC::DIM_X, ACC::DIM_Y, ACC::DIM_Z); s->d1 = acc.data(); s->i1 = acc.index(); }
};
struct ConstCallF
{
    Seen *s;
    template<typename CELL, long X, long Y, long Z, long I> void operator()(soa_accessor<CELL, X, Y, Z, I>& acc) const
    { ++s->calls; s->e1 = P3(X, Y, Z); s->d1 = acc.data(); s->i1 = acc.index() + I; }
};
template<typename CELL> struct DualF
{
    Seen *s; P3 p, q;
    template<typename A1, typename A2> void operator()(A1& a1, A2& a2) const
    {
        ++s->calls;
        s->e1 = P3(A1::DIM_X, A1::DIM_Y, A1::DIM_Z); s->e2 = P3(A2::DIM_X, A2::DIM_Y, A2::DIM_Z);
        s->d1 = a1.data(); s->d2 = a2.data(); s->i1 = a1.index(); s->i2 = a2.index();
        if (s->calls > 1) return;
        a1 += A1::gen_index(p.x, p.y, p.z);
        CELL c = a1;
        a2 += A2::gen_index(q.x, q.y, q.z);
        a2 << c;
    }
};
template<typename CELL> struct ScanF
{
    P3 dim; std::vector<Ints > *out; unsigned fl;
    template<typename ACC> void operator()(ACC& acc) const
    {
        for (long z = 0; z < dim.z; ++z) for (long y = 0; y < dim.y; ++y) {
            acc.index() = ACC::gen_index(0L, y, z);
            for (long x = 0; x < dim.x; ++x) { out->push_back(read_cell<CELL>(acc, 2 + fl % 2)); ++acc; }
        }
    }
};

// ---------------------------------------------------------------- faults
static VERIF_TLS bool arm_fault = false;
static VERIF_TLS long faults_hit = 0;
bool verif_alloc_fails(std::size_t n)
{
    if (arm_fault && n >= 512) { arm_fault = false; ++faults_hit; return true; }
    return false;
}

// ---------------------------------------------------------------- replay
template<typename CELL>
struct GridReplayer
{
#ifdef WITH_CUDA
    typedef soa_grid<CELL, cuda_allocator<char>, true> Grid;
    typedef verif_cuda::HostOnly HostOnly;
#else
    typedef soa_grid<CELL> Grid;
    struct HostOnly { HostOnly(const void*, std::size_t) {} ~HostOnly() {} };
#endif
    struct Mirror { bool alive = false; P3 dim, ext; std::map<P3, Ints > cells; };
#ifdef WITH_CUDA
    static const bool CUDA = true;
#else
    static const bool CUDA = false;
#endif
    std::unique_ptr<Grid> g[4];
    Mirror m[4];
    std::size_t steps = 0;

#ifdef FAM_DEV
    ~GridReplayer()
    {
        for (auto& x : g) x.reset();
        if (!DevTracked::live().empty()) rep().fail("LIFE", "members in device memory were not destroyed: " + std::to_string(DevTracked::live().size()));
        DevTracked::live().clear();
    }
#endif

    template<typename F> std::string guarded(const F& f)
    {
        try { f(); return "ok"; }
        catch (const std::out_of_range&) { return "out_of_range"; }
        catch (const std::invalid_argument&) { return "invalid_argument"; }
        catch (const std::bad_alloc&) { return "bad_alloc"; }
        catch (const std::exception& e) { return std::string("exception:") + e.what(); }
    }

    // same call again, but without memory first
    template<typename F> std::string faulty(bool fault, long i, const F& f)
    {
        if (fault) {
            arm_fault = true;
            std::string got = guarded(f);
            bool hit = !arm_fault;
            arm_fault = false;
            if (got != "bad_alloc") return got;
            if (!hit) { rep().fail("VALUE", "bad_alloc although memory is available"); return got; }
            // the grid kept its state or was emptied; all other grids are untouched
            bool emptied = g[i] && m[i].alive && g[i]->dim_x() == 0 && g[i]->dim_y() == 0 && g[i]->dim_z() == 0;
            Mirror keep = m[i];
            if (emptied) { m[i] = Mirror(); m[i].alive = true; }
            for (int j = 1; j <= 3; ++j) observe(j, true);
            m[i] = keep;
#ifdef RECORD
            returned();
#endif
            if (rep().failed_here) return "bad_alloc";
        }
        return guarded(f);
    }

    static void fill_streaks(const Node& n, std::vector<Streak>& st)
    {
        for (auto& s : n.l) { Streak k; k.origin[0] = s[0][0].n(); k.origin[1] = s[0][1].n(); k.origin[2] = s[0][2].n(); k.len = s[1].n(); st.push_back(k); }
    }
    static long total(const std::vector<Streak>& st) { long r = 0; for (auto& s : st) r += s.len; return r; }

    // a raw buffer with room for count cells; members are alive, and hold a marker value
    struct Buffer
    {
        std::vector<char> b; std::size_t count; static const std::size_t G = 64;
        static const long MARK = 77;
        explicit Buffer(std::size_t count) : b(count * sum_of_sizes<CELL>() + 2 * G, char(0xA5)), count(count)
        { each([&](char *p, int k, std::size_t) { slots<CELL>::raw_construct(p, k); slots<CELL>::raw_set(p, k, MARK); }); }
        ~Buffer() { each([&](char *p, int k, std::size_t) { slots<CELL>::raw_destroy(p, k); }); }
        template<typename F> void each(const F& f) { for (int k = 0; k < KSLOTS; ++k) for (std::size_t i = 0; i < count; ++i) f(at(k, i), k, i); }
        char *at(int k, std::size_t i) { return data() + slot_offset<CELL>(k) * count + i * slots<CELL>::size_of(k); }
        char *data() { return b.data() + G; }
        std::size_t bytes() const { return b.size() - 2 * G; }
        void guards() { for (std::size_t i = 0; i < G; ++i) if (b[i] != char(0xA5) || b[b.size() - 1 - i] != char(0xA5)) { rep().fail("VALUE", "save() wrote outside of the buffer"); return; } }
    };

    void do_save(long i, const std::vector<Streak>& st, std::size_t count, Buffer& buf, unsigned fl)
    {
        const Grid& cg = *g[i];
        if (st.size() == 1 && std::size_t(st[0].len) == count && fl % 3 != 0) {
            cg.save(std::size_t(st[0].origin[0]), std::size_t(st[0].origin[1]), std::size_t(st[0].origin[2]), buf.data(), count);
        }
#ifndef WITH_CUDA
        else if (fl % 3 == 2) {
            g[i]->callback(AccSaveF<CELL>{&st, buf.data(), count, fl / 3});
        }
#endif
        else {
            cg.save(st.begin(), st.end(), buf.data(), count);
        }
    }
    void do_load(long i, const std::vector<Streak>& st, std::size_t count, Buffer& buf, unsigned fl)
    {
        if (st.size() == 1 && std::size_t(st[0].len) == count && fl % 3 != 0) {
            g[i]->load(std::size_t(st[0].origin[0]), std::size_t(st[0].origin[1]), std::size_t(st[0].origin[2]), buf.data(), count);
        }
#ifndef WITH_CUDA
        else if (fl % 3 == 2) {
            g[i]->callback(AccLoadF<CELL>{&st, buf.data(), count, fl / 3});
        }
#endif
        else {
            g[i]->load(st.begin(), st.end(), (const char*)buf.data(), count);
        }
    }

    static Ints ints(const Node& n) { Ints r; for (auto& x : n.l) r.push_back(x.n()); return r; }
    static void same(const Ints& want, const Ints& got, const std::string& what)
    {
        ++rep().checks;
        if (want != got) rep().fail("VALUE", what + ": specified " + join(want) + ", got " + join(got));
    }

    void step(const Node& st)
    {
        const Node& c = st[0];
        const std::string& op = c[0].s;
        const std::string& want = st[1].s;
        const Node& res = st[3];
        std::string got = "ok";
        long i = c[1].n();
        unsigned fl = flavour(1 << 20);
        if (op == "ctor") {
            P3 d(c[2]);
            got = faulty(c[3].n(), i, [&] {
                if (d == P3() && fl % 2) g[i].reset(new Grid());
                else g[i].reset(new Grid(std::size_t(d.x), std::size_t(d.y), std::size_t(d.z)));
            });
        } else if (op == "dtor") {
            got = guarded([&] { g[i].reset(); });
        } else if (op == "resize") {
            P3 d(c[2]);
            got = faulty(c[3].n(), i, [&] { g[i]->resize(std::size_t(d.x), std::size_t(d.y), std::size_t(d.z)); });
        }
#ifndef WITH_CUDA
        else if (op == "copy") {
            long j = c[2].n();
            got = faulty(c[3].n(), i, [&] {
                const Grid& src = *g[j];
                if (fl % 3 == 0) { Grid t(src); g[i].reset(new Grid(t)); }
                else g[i].reset(new Grid(src));
            });
        } else if (op == "assign") {
            long j = c[2].n();
            got = faulty(c[3].n(), i, [&] {
                const Grid& src = *g[j];
                Grid& r = (*g[i] = src);
                if (&r != g[i].get()) rep().fail("VALUE", "assignment does not return its target");
            });
        }
#endif
        else if (op == "swap") {
            long j = c[2].n();
#ifdef WITH_CUDA
            got = guarded([&] { g[i]->swap(*g[j]); });
#else
            got = guarded([&] { if (fl % 2) g[i]->swap(*g[j]); else { using std::swap; swap(*g[i], *g[j]); } });
#endif
        } else if (op == "set") {
            P3 p(c[2]); CELL v = make_cell<CELL>(c[3]); HostOnly ho(&v, sizeof v);
            got = guarded([&] { if (fl % 2) g[i]->set(p.x, p.y, p.z, v); else g[i]->set(p.x, p.y, p.z, &v, 1); });
        } else if (op == "setrow") {
            P3 p(c[2]); std::vector<CELL> cs; for (auto& x : c[3].l) cs.push_back(make_cell<CELL>(x));
            HostOnly ho(cs.data(), cs.size() * sizeof(CELL));
            got = guarded([&] { g[i]->set(p.x, p.y, p.z, cs.data(), cs.size()); });
        } else if (op == "bcast") {
            P3 p(c[2]); CELL v = make_cell<CELL>(c[3]); long n = c[4].n(); HostOnly ho(&v, sizeof v);
            got = guarded([&] { g[i]->broadcast(p.x, p.y, p.z, v, std::size_t(n)); });
        } else if (op == "getrow") {
            P3 p(c[2]); long n = c[3].n(); std::vector<CELL> cs(std::size_t(n) + 1);
            CELL mark = make_mark();
            cs[std::size_t(n)] = mark;
            HostOnly ho(cs.data(), cs.size() * sizeof(CELL));
            const Grid& cg = *g[i];
            got = guarded([&] { cg.get(p.x, p.y, p.z, cs.data(), std::size_t(n)); });
            for (long x = 0; x < n; ++x) same(ints(res[std::size_t(x)]), cell_slots(cs[std::size_t(x)]), "row read, cell " + std::to_string(x));
            same(cell_slots(mark), cell_slots(cs[std::size_t(n)]), "cell behind the target of a row read");
        }
#ifdef WITH_ACC
        else if (op == "setm") {
            got = guarded([&] { g[i]->callback(SetMemberF<CELL>{P3(c[2]), c[3].n(), c[4].n(), int(c[5].n()), c[6].n(), fl}); });
        } else if (op == "setat") {
            CELL v = make_cell<CELL>(c[5]);
            got = guarded([&] { g[i]->callback(SetCellF<CELL>{P3(c[2]), c[3].n(), c[4].n(), &v, fl}); });
        } else if (op == "getat") {
            std::vector<Ints > out;
            got = guarded([&] { g[i]->callback(GetAtF<CELL>{P3(c[2]), c[3].n(), c[4].n(), fl, &out}); });
            static const char *names[4] = { "accessor", "const reference to accessor", "const accessor", "const light accessor" };
            if (expect("VALUE", std::size_t(4), out.size(), "number of reads"))
                for (int x = 0; x < 4; ++x) same(ints(res[0]), out[std::size_t(x)], std::string("cell read via ") + names[x]);
        } else if (op == "walk") {
            got = guarded([&] { g[i]->callback(WalkF<CELL>{P3(c[2]), c[3].n(), int(c[4].n()), c[5].n(), fl}); });
        }
#endif
#ifdef WITH_RAW
        else if (op == "save") {
            std::vector<Streak> s; fill_streaks(c[2], s); std::size_t count = std::size_t(c[3].n());
            Buffer buf(count);
            got = guarded([&] { HostOnly ho(buf.data(), buf.bytes()); do_save(i, s, count, buf, fl); });
            std::size_t n = std::size_t(total(s));
            buf.each([&](char *p, int k, std::size_t x) {
                long w = x < n ? res[x][std::size_t(k)].n() : Buffer::MARK;
                if (w != slots<CELL>::raw_get(p, k)) rep().fail("VALUE", "saved slot " + std::to_string(k) + " of cell " + std::to_string(x) + " of " + std::to_string(count) + ": specified " + std::to_string(w) + ", got " + std::to_string(slots<CELL>::raw_get(p, k)));
                ++rep().checks;
            });
            buf.guards();
        } else if (op == "load") {
            std::vector<Streak> s; fill_streaks(c[2], s); std::size_t count = std::size_t(c[3].n());
            Buffer buf(count);
            buf.each([&](char *p, int k, std::size_t x) { if (x < c[4].size()) slots<CELL>::raw_set(p, k, c[4][x][std::size_t(k)].n()); });
            got = guarded([&] { HostOnly ho(buf.data(), buf.bytes()); do_load(i, s, count, buf, fl); });
            buf.guards();
        } else if (op == "transfer") {
            std::vector<Streak> s, t; fill_streaks(c[2], s); fill_streaks(c[4], t);
            std::size_t n = std::size_t(total(s)), stride = n + (CUDA ? 0 : fl % 3);
            Buffer buf(stride);
            got = guarded([&] { HostOnly ho(buf.data(), buf.bytes()); do_save(i, s, stride, buf, fl); do_load(c[3].n(), t, stride, buf, fl / 7); });
            buf.guards();
        }
#endif
#ifdef WITH_CALL
        else if (op == "call") {
            Seen s;
            got = guarded([&] {
                const Grid& cg = *g[i];
                switch (fl % 4) { case 0: g[i]->callback(CallF{&s}); break; case 1: cg.callback(CallF{&s}); break;
                case 2: g[i]->callback(ConstCallF{&s}); break; default: { const ConstCallF f{&s}; cg.callback(f); } }
            });
            expect("VALUE", 1L, s.calls, "number of invocations of the functor");
            expect("VALUE", P3(res).str(), s.e1.str(), "extents seen by the functor");
            expect("VALUE", (const void*)cgd(i), (const void*)s.d1, "storage seen by the functor");
            expect("VALUE", 0L, s.i1, "position of the accessor");
        }
#ifndef WITH_CUDA
        else if (op == "dual") {
            long j = c[2].n();
            Seen s; DualF<CELL> f{&s, P3(c[3]), P3(c[4])};
            got = guarded([&] { const Grid& cg = *g[i]; if (fl % 2) cg.callback(g[j].get(), f); else g[i]->callback(g[j].get(), f); });
            if (want == "ok") {
                expect("VALUE", 1L, s.calls, "number of invocations of the functor");
                expect("VALUE", P3(res[0]).str(), s.e1.str(), "extents of the first accessor");
                expect("VALUE", P3(res[1]).str(), s.e2.str(), "extents of the second accessor");
                expect("VALUE", (const void*)cgd(i), (const void*)s.d1, "storage of the first accessor");
                expect("VALUE", (const void*)cgd(j), (const void*)s.d2, "storage of the second accessor");
                expect("VALUE", 0L, s.i1, "position of the first accessor");
                expect("VALUE", 0L, s.i2, "position of the second accessor");
            } else {
                expect("VALUE", 0L, s.calls, "number of invocations of the functor");
            }
        }
#endif
#endif
        else { std::cerr << "HARNESS: unknown call " << op << "\n"; exit(3); }
        expect("VALUE", want, got, "outcome of call");
#ifndef VERIF_CONC
        settle(st);
#endif
    }

    void settle(const Node& st)
    {
        ++steps;
        for (int j = 1; j <= 3; ++j) apply(j, st[2][std::size_t(j - 1)]);
#ifdef VERIF_CONC
        return;
#endif
#ifdef RECORD
        if (flavour(8) == 0)
#endif
        for (int j = 1; j <= 3 && !rep().failed_here; ++j) observe(j, steps % 16 == 0);
#ifdef RECORD
        returned();
    }

    void returned()
    {
        long b[4] = { 0 };
        for (int j = 1; j <= 3; ++j) if (g[j] && g[j]->byte_size()) b[j] = rec().block(cgd(j));
        if (!rec().begin_event()) return;
        rec().text("[8,[");
        bool first = true;
        for (int j = 1; j <= 3; ++j) if (b[j]) { rec().text(first ? "[%ld,%ld]" : ",[%ld,%ld]", b[j], long(g[j]->dim_x() * g[j]->dim_y() * g[j]->dim_z()) * recorded<CELL>::MEMBERS); first = false; }
        rec().text("]]");
#endif
    }

    const char *cgd(long i) { const Grid& cg = *g[i]; return cg.data(); }
    static CELL make_mark() { CELL c; for (int k = 0; k < KSLOTS; ++k) slots<CELL>::set(c, k, 77); return c; }

    void apply(int j, const Node& ch)
    {
        if (ch[0].n() == 0) return;
        const Node *cells = &ch[1];
        if (ch[0].n() == 2) { m[j] = Mirror(); m[j].alive = ch[1].n() != 0; m[j].dim = P3(ch[2]); m[j].ext = P3(ch[3]); cells = &ch[4]; }
        for (auto& x : cells->l) m[j].cells[P3(x)] = ints(x[3]);
    }

    void again() { for (int j = 1; j <= 3; ++j) observe(j, true); }
    void check_cell(int j, const P3& p, const Ints& got)
    {
        static const Ints def(KSLOTS, 0L);
        auto it = m[j].cells.find(p);
        ++rep().checks;
        const Ints& want = it == m[j].cells.end() ? def : it->second;
        if (want != got) rep().fail("VALUE", "grid " + std::to_string(j) + " " + m[j].dim.str() + " cell " + p.str() + ": specified " + join(want) + ", got " + join(got));
    }

    void observe(int j, bool full)
    {
        std::string who = "grid " + std::to_string(j);
        Mirror& w = m[j];
        if (!expect("VALUE", w.alive, bool(g[j]), who + " alive")) return;
        if (!w.alive) return;
        const Grid& cg = *g[j];
        P3 dim(cg.dim_x(), cg.dim_y(), cg.dim_z()), ext(cg.extent_x(), cg.extent_y(), cg.extent_z());
        if (!expect("VALUE", w.dim.str(), dim.str(), who + " dimensions")) return;
        expect("VALUE", w.ext.str(), ext.str(), who + " extents");
        expect("VALUE", std::size_t(w.ext.vol()) * sum_of_sizes<CELL>(), cg.byte_size(), who + " byte_size");
        if (dim == P3()) return;
#ifdef WITH_CUDA
        if (verif_cuda::where(cg.data(), cg.byte_size()) != 1) rep().fail("DEVICE", who + " does not own its storage on the device");
#else
        expect("VALUE", 0ul, (unsigned long)(cg.data()) % 4096, who + " alignment of storage");
#endif
        if (g[j]->data() != cg.data()) rep().fail("VALUE", who + " data() differs for const and non-const grids");
        if (dim.vol() == 0) return;
        if (dim.vol() <= 256 || (full && dim.vol() <= 4096)) {
            switch (CUDA ? 1 + (dim.vol() < 20 && flavour(2)) : flavour(7 + unsigned(j)) % 3) {
#ifndef WITH_CUDA
            case 0: {
                std::vector<Ints > out;
                g[j]->callback(ScanF<CELL>{dim, &out, flavour(2)});
                if (!expect("VALUE", std::size_t(dim.vol()), out.size(), who + " cells scanned")) return;
                std::size_t n = 0;
                for (long z = 0; z < dim.z; ++z) for (long y = 0; y < dim.y; ++y) for (long x = 0; x < dim.x; ++x) check_cell(j, P3(x, y, z), out[n++]);
                break; }
#endif
            case 1: {
                std::vector<CELL> row(std::size_t(dim.x));
                for (long z = 0; z < dim.z; ++z) for (long y = 0; y < dim.y; ++y) {
                    cg.get(0, y, z, row.data(), std::size_t(dim.x));
                    for (long x = 0; x < dim.x; ++x) check_cell(j, P3(x, y, z), cell_slots(row[std::size_t(x)]));
                }
                break; }
            default:
                for (long z = 0; z < dim.z; ++z) for (long y = 0; y < dim.y; ++y) for (long x = 0; x < dim.x; ++x) check_cell(j, P3(x, y, z), cell_slots(cg.get(x, y, z)));
            }
            return;
        }
        // large grid: written cells, their surroundings, and a few others
        std::set<P3> pts;
        auto add = [&](long x, long y, long z) { if (x >= 0 && y >= 0 && z >= 0 && x < dim.x && y < dim.y && z < dim.z) pts.insert(P3(x, y, z)); };
        std::size_t every = 1 + w.cells.size() / 50, at = flavour(unsigned(every));
        for (auto& x : w.cells) {
            if (at++ % every) continue;
            const P3& p = x.first;
            add(p.x, p.y, p.z); add(p.x - 1, p.y, p.z); add(p.x + 1, p.y, p.z); add(p.x, p.y - 1, p.z); add(p.x, p.y + 1, p.z); add(p.x, p.y, p.z - 1); add(p.x, p.y, p.z + 1);
            if (pts.size() > 250) break;
        }
        for (unsigned k = 0; k < 40; ++k) { unsigned h = flavour(1000003 + 2 * k); add(h % dim.x, (h / 64) % dim.y, (h / 4096) % dim.z); }
        for (auto& p : pts) check_cell(j, p, cell_slots(cg.get(p.x, p.y, p.z)));
#ifdef WITH_SCAN
        if (dim.vol() > 1000000 && (flavour(5) == 0 || rep().step % 6 == 5)) scan(j);
#endif
    }

#ifdef WITH_SCAN
    // very large grids: all bytes which are not zero have to belong to cells which were written
    void scan(int j)
    {
        const Grid& cg = *g[j];
        const Mirror& w = m[j];
        const std::size_t vol = std::size_t(w.ext.vol());
        for (int k = 0; k < KSLOTS; ++k) {
            const std::size_t s = slots<CELL>::size_of(k);
            const char *b = cg.data() + slot_offset<CELL>(k) * vol;
            for (std::size_t i = 0; i < vol * s; ) {
                if (i % 4096 == 0 && i + 4096 <= vol * s) {
                    const unsigned long *q = reinterpret_cast<const unsigned long*>(b + i);
                    unsigned long any = 0;
                    for (int x = 0; x < 512; ++x) any |= q[x];
                    if (!any) { i += 4096; continue; }
                }
                if (!b[i]) { ++i; continue; }
                long e = long(i / s);
                P3 p(e % w.ext.x, e / w.ext.x % w.ext.y, e / w.ext.x / w.ext.y);
                i = (i / s + 1) * s;
                if (p.x >= w.dim.x || p.y >= w.dim.y || p.z >= w.dim.z) continue;
                auto it = w.cells.find(p);
                long want = it == w.cells.end() ? 0 : it->second[std::size_t(k)], got = slots<CELL>::raw_get(b + std::size_t(e) * s, k);
                if (want != got) { rep().fail("VALUE", "grid " + std::to_string(j) + " " + w.dim.str() + " slot " + std::to_string(k) + " of cell " + p.str() + ": specified " + std::to_string(want) + ", found " + std::to_string(got)); return; }
            }
            ++rep().checks;
        }
    }
#endif
};

#ifdef VERIF_CONC
// the calls between two barriers are made by as many threads as the specification says
template<typename REPLAYER>
void replay_concurrently(const Node& b, const std::string& variant)
{
    static const long N = 4;
    rep().variant = variant; rep().failed_here = false;
    const long trace = rep().trace;
    const bool last_only = rep().last_only;
    REPLAYER r;
    for (std::size_t s = 1; s < b.size(); ) {
        std::size_t e = s;
        while (e < b.size() && b[e].size() > 2 && b[e][0][0].s != "barrier") ++e;
        std::atomic<long> ready(0), failures(0), checks(0);
        std::vector<std::thread> threads;
        for (long t = 1; t <= N; ++t) threads.push_back(std::thread([&, t] {
            rep().progress_fd = -1; rep().last_only = last_only; rep().variant = variant; rep().failures = rep().checks = 0; rep().failed_here = false;
            // start together, but do not synchronize
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < N) std::this_thread::yield();
            for (std::size_t k = s; k < e && !rep().failed_here; ++k) {
                if (b[k][4].i != t) continue;
                rep().trace = trace; rep().step = long(k); rep().call = b[k][0][0].s + " (thread " + std::to_string(t) + ")";
                r.step(b[k]);
            }
            failures.fetch_add(rep().failures, std::memory_order_relaxed);
            checks.fetch_add(rep().checks, std::memory_order_relaxed);
        }));
        for (auto& t : threads) t.join();
        rep().failures += failures.load(); rep().checks += checks.load();
        if (failures.load()) { rep().failed_here = true; break; }
        for (std::size_t k = s; k < e; ++k) {
            ++rep().steps; ++rep().calls[b[k][0][0].s + ":" + b[k][1].s];
            r.settle(b[k]);
        }
        rep().at(trace, long(e)); rep().call = "barrier";
        for (int j = 1; j <= 3 && !rep().failed_here; ++j) r.observe(j, true);
        if (rep().failed_here) break;
        s = e + 1;
    }
}
#define RUN(FAM, KIND, NAME) replay_concurrently<GridReplayer<FAM##_##KIND> >(b, std::string(slots<FAM##_##KIND>::name()) + "/" NAME)
#else
#define RUN(FAM, KIND, NAME) replay_behaviour<GridReplayer<FAM##_##KIND> >(b, std::string(slots<FAM##_##KIND>::name()) + "/" NAME)
#endif
#ifdef FAM_POD
#define RUN_POD(KIND, NAME) RUN(Pod, KIND, NAME)
#else
#define RUN_POD(KIND, NAME)
#endif
#ifdef FAM_OBJ
#define RUN_OBJ(KIND, NAME) RUN(Obj, KIND, NAME)
#else
#define RUN_OBJ(KIND, NAME)
#endif
#ifdef FAM_ARR
#define RUN_ARR(KIND, NAME) RUN(Arr, KIND, NAME)
#else
#define RUN_ARR(KIND, NAME)
#endif
#ifdef FAM_SOLE
#define RUN_SOLE(KIND, NAME) RUN(Sole, KIND, NAME)
#else
#define RUN_SOLE(KIND, NAME)
#endif
#ifdef FAM_TINY
#define RUN_TINY(KIND, NAME) RUN(Tiny, KIND, NAME)
#else
#define RUN_TINY(KIND, NAME)
#endif
#ifdef FAM_DEV
#define RUN_DEV(KIND, NAME) RUN(Dev, KIND, NAME)
#else
#define RUN_DEV(KIND, NAME)
#endif
#ifdef RECORD
#define RUN_REC(KIND, NAME) RUN(Rec, KIND, NAME); RUN(Sro, KIND, NAME)
#else
#define RUN_REC(KIND, NAME)
#endif
#define KIND(K) if (kind == #K) { RUN_REC(K, #K); RUN_DEV(K, #K); RUN_POD(K, #K); RUN_OBJ(K, #K); RUN_ARR(K, #K); RUN_SOLE(K, #K); RUN_TINY(K, #K); return true; }

int main(int argc, char **argv)
{
    return drive(argc, argv, [](const Node& b) -> bool {
        const std::string& kind = b[0][0].s;
#ifdef K_AXES
        KIND(axes)
#endif
#ifdef K_UNI1
        KIND(uni1)
#endif
#ifdef K_UNI2
        KIND(uni2)
#endif
#ifdef K_UNI3
        KIND(uni3)
#endif
#ifdef K_WIDE
        KIND(wide)
#endif
#ifdef K_BIG1
        KIND(big1)
#endif
#ifdef K_BIG3
        KIND(big3)
#endif
#ifdef K_ASYM
        KIND(asym)
#endif
#ifdef K_DEFAULT
        KIND(default)
#endif
#ifdef K_DEFAULT1D
        KIND(default1d)
#endif
        return false;
    });
}
