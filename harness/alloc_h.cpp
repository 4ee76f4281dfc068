// Replays behaviours of Allocator.tla into aligned_allocator.
// operator new places the next chunk at a given address modulo 4096, surrounded by canaries.
#define VERIF_OWN_NEW
#include "driver.hpp"
#include <libflatarray/aligned_allocator.hpp>
#include <list>
using namespace LibFlatArray;
bool verif_alloc_fails(std::size_t) { return false; }

static const char CANARY = char(0xC5);
static const std::size_t GUARD = 256, MAXCHUNKS = 64;
struct Placed { char *raw, *p; std::size_t n, total; bool used; };
static VERIF_TLS Placed placed[MAXCHUNKS];
static VERIF_TLS long arm_residue = -1;       // place next chunk there
static VERIF_TLS bool arm_fault = false;      // next chunk is not available
static VERIF_TLS long placed_live = 0;

static void *special_new(std::size_t n)
{
    std::size_t total = n + 3 * 4096 + 2 * GUARD;
    char *raw = (char*)malloc(total);
    if (!raw) throw std::bad_alloc();
    memset(raw, CANARY, total);
    std::size_t a = (std::size_t(raw) + GUARD + 4095) / 4096 * 4096 + std::size_t(arm_residue);
    arm_residue = -1;
    for (std::size_t i = 0; i < MAXCHUNKS; ++i) if (!placed[i].used) {
        placed[i] = Placed{ raw, (char*)a, n, total, true };
        ++placed_live;
        memset((char*)a, 0xBE, n);
        return (char*)a;
    }
    std::cerr << "HARNESS: too many chunks\n"; exit(3);
}
static bool check_guards(const Placed& c)
{
    for (char *q = c.raw; q < c.p; ++q) if (*q != CANARY) return false;
    for (char *q = c.p + c.n; q < c.raw + c.total; ++q) if (*q != CANARY) return false;
    return true;
}
void *operator new(std::size_t n)
{
    if (n > (std::size_t(1) << 40)) throw std::bad_alloc();
    if (arm_fault) { arm_fault = false; throw std::bad_alloc(); }
    if (arm_residue >= 0) return special_new(n);
    char *p = (char*)malloc(n + HEAD);
    if (!p) throw std::bad_alloc();
    *(std::size_t*)p = n; *(std::size_t*)(p + 8) = 0x600dcafe600dcafeull;
    ++heap_stat.blocks;
    return p + HEAD;
}
static void own_free(void *q, std::size_t n = ~std::size_t(0))
{
    if (!q) return;
    for (std::size_t i = 0; i < MAXCHUNKS; ++i) if (placed[i].used && placed[i].p == (char*)q) {
        if (!check_guards(placed[i])) rep().fail("HEAP", "memory outside of the allocated chunk was changed");
        if (n != ~std::size_t(0) && n != placed[i].n) rep().fail("HEAP", "size given upon deallocation differs from the size allocated");
        placed[i].used = false; --placed_live;
        free(placed[i].raw);
        return;
    }
    char *p = (char*)q - HEAD;
    if (*(std::size_t*)(p + 8) != 0x600dcafe600dcafeull) { std::cout << "FAIL class=HEAP variant=" << rep().variant << " trace=" << rep().trace << " step=" << rep().step << " call=" << rep().call << " :: deallocation of a pointer which was never allocated" << std::endl; _exit(1); }
    if (n != ~std::size_t(0) && n != *(std::size_t*)p) rep().fail("HEAP", "size given upon deallocation differs from the size allocated");
    *(std::size_t*)(p + 8) = 0;
    --heap_stat.blocks;
    free(p);
}
void *operator new[](std::size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { own_free(p); }
void operator delete[](void *p) noexcept { own_free(p); }
void operator delete(void *p, std::size_t n) noexcept { own_free(p, n); }
void operator delete[](void *p, std::size_t n) noexcept { own_free(p, n); }

struct S3 { char c[3]; S3(int v = 0) { c[0] = c[1] = c[2] = char(v); } bool operator==(const S3& o) const { return memcmp(c, o.c, 3) == 0; } };
struct S24 { double d[3]; S24(int v = 0) { d[0] = d[1] = d[2] = v; } bool operator==(const S24& o) const { return d[0] == o.d[0] && d[1] == o.d[1] && d[2] == o.d[2]; } };

struct AllocReplayer
{
    struct Block { char *p = 0; std::size_t bytes = 0; long kind = 0, n = 0, tag = 0; };
    Block b[5];
    ~AllocReplayer()
    {
        for (int i = 1; i <= 4; ++i) if (b[i].p) with(b[i].kind, [&](auto t, auto al) { release<decltype(t), decltype(al)::value>(b[i]); });
        if (placed_live && !rep().failed_here) rep().fail("HEAP", "chunks were not given back");
    }
    template<typename F> static void with(long kind, const F& f)
    {
#define CASE(N, T, A) case N: f(T(), std::integral_constant<int, A>()); break;
        switch (kind) {
        CASE(0, char, 1) CASE(1, char, 2) CASE(2, short, 4) CASE(3, int, 8) CASE(4, double, 8) CASE(5, char, 16) CASE(6, float, 16)
        CASE(7, double, 32) CASE(8, S3, 32) CASE(9, char, 64) CASE(10, S24, 64) CASE(11, int, 128) CASE(12, char, 256) CASE(13, double, 512)
        CASE(14, char, 1024) CASE(15, char, 4096) CASE(16, S24, 4096)
        default: std::cerr << "HARNESS: kind\n"; exit(3); }
    }
    static unsigned char pattern(long tag, std::size_t k) { return (unsigned char)(tag * 37 + long(k % 251) * 3 + long(k / 251)); }
    template<typename T, int A> static void release(Block& x)
    {
        aligned_allocator<T, A> al;
        al.deallocate((T*)x.p, std::size_t(x.n));
        x = Block();
    }
    template<typename T, int A> std::string allocate(long i, std::size_t n)
    {
        try {
            aligned_allocator<T, A> al;
            T *p = flavour(2) ? al.allocate(n) : al.allocate(n, (const void*)0);
            b[i].p = (char*)p; b[i].bytes = n * sizeof(T); b[i].n = long(n); b[i].tag = 0;
            if (std::size_t(p) % std::size_t(A)) rep().fail("VALUE", "storage is not aligned to " + std::to_string(A));
            if (!p) rep().fail("VALUE", "null pointer returned");
            return "ok";
        } catch (const std::bad_alloc&) { return "bad_alloc"; }
        catch (const std::exception& e) { return std::string("exception:") + e.what(); }
    }
    // elements with constructors and destructors: containers construct and destroy each of them
    template<int A> void objects(std::size_t n)
    {
        std::size_t before = Tracked::live().size();
        {
            typedef std::vector<Tracked, aligned_allocator<Tracked, A> > V;
            V v;
            for (std::size_t k = 0; k < n; ++k) v.push_back(Tracked(long(k)));
            expect("LIFE", before + n, Tracked::live().size(), "live objects in a vector");
            V w(v); w.resize(n / 2, Tracked(-1)); w.resize(n + 3);
            if (n) v.erase(v.begin());
            std::list<Tracked, aligned_allocator<Tracked, A> > li(v.begin(), v.end());
            std::size_t left = n ? n - 1 : 0;
            expect("LIFE", before + 2 * left + n + 3, Tracked::live().size(), "live objects in containers");
            for (std::size_t k = 0; k < left; ++k) expect("VALUE", long(k + 1), v[k].v, "element");
            for (std::size_t k = 0; k < n + 3; ++k) expect("VALUE", k < n / 2 ? long(k) : 0L, w[k].v, "element");
            li.clear(); v.clear();
            expect("LIFE", before + n + 3, Tracked::live().size(), "live objects after clear()");
        }
        expect("LIFE", before, Tracked::live().size(), "live objects after the containers' destruction");
        aligned_allocator<Tracked, A> al;
        Tracked *p = al.allocate(2);
        al.construct(p, Tracked(7)); al.construct(p + 1);
        expect("LIFE", before + 2, Tracked::live().size(), "objects constructed"); expect("VALUE", 7L, p[0].v, "constructed object"); expect("VALUE", 0L, p[1].v, "constructed object");
        al.destroy(p); al.destroy(p + 1);
        expect("LIFE", before, Tracked::live().size(), "objects destroyed");
        al.deallocate(p, 2);
    }
    template<typename T, int A> std::string container(std::size_t n)
    {
        try {
            objects<A>(n);
            typedef std::vector<T, aligned_allocator<T, A> > V;
            V v, w;
            aligned_allocator<char, A> ac; aligned_allocator<T, A> at(ac), other;
            if (!(at == other) || at != other) rep().fail("VALUE", "allocators differ");
            if (at.max_size() == 0 || at.max_size() > ~std::size_t(0) / sizeof(T)) rep().fail("VALUE", "max_size");
            for (std::size_t k = 0; k < n; ++k) {
                v.push_back(T(int(k % 100)));
                if (std::size_t(&v[0]) % std::size_t(A)) rep().fail("VALUE", "vector's storage is not aligned");
            }
            w = v; V u(w); u.swap(v);
            for (std::size_t k = 0; k < n; ++k) { if (!(u[k] == T(int(k % 100))) || !(w[k] == u[k]) || !(v[k] == u[k])) rep().fail("VALUE", "vector lost an element"); ++rep().checks; }
            u.resize(2 * n + 1);
            if (!(u[2 * n] == T())) rep().fail("VALUE", "vector's new element is not default constructed");
            std::list<T, aligned_allocator<T, A> > li(w.begin(), w.end());   // rebound allocators
            std::size_t ln = 0; for (auto& e : li) { if (!(e == w[ln])) rep().fail("VALUE", "list lost an element"); ++ln; }
            if (ln != n) rep().fail("VALUE", "list has a different size");
            v.clear(); v.shrink_to_fit();
            T *p = at.allocate(1);
            at.construct(p, T(42));
            if (!(*p == T(42)) || at.address(*p) != p) rep().fail("VALUE", "construct/address");
            const T& cr = *p;
            if (at.address(cr) != p) rep().fail("VALUE", "address (const)");
            at.destroy(p);
            at.construct(p);
            if (!(*p == T())) rep().fail("VALUE", "default construct");
            at.destroy(p);
            at.deallocate(p, 1);
            return "ok";
        } catch (const std::exception& e) { return std::string("exception:") + e.what(); }
    }

    void step(const Node& st)
    {
        const Node& c = st[0];
        const std::string& op = c[0].s;
        std::string want = st[1].s, got = "ok";
        long i = c[1].n();
        if (op == "alloc" || op == "fault") {
            long kind = c[2].n();
            b[i].kind = kind;
            if (op == "alloc") arm_residue = c[4].n(); else arm_fault = true;
            with(kind, [&](auto t, auto al) { got = allocate<decltype(t), decltype(al)::value>(i, std::size_t(c[3].n())); });
            bool unused = arm_fault;
            arm_residue = -1; arm_fault = false;
            if (op == "fault" && unused && got == "ok") {
                // memory stems from elsewhere
                with(kind, [&](auto t, auto al) { release<decltype(t), decltype(al)::value>(b[i]); });
                got = "bad_alloc";
            }
        } else if (op == "huge") {
            with(c[2].n(), [&](auto t, auto al) {
                typedef decltype(t) T; const std::size_t A = std::size_t(decltype(al)::value), M = ~std::size_t(0), s = sizeof(T);
                const std::size_t ns[12] = { M, M / 2, M / s, M / s - 1, (M - A) / s, (M - A - 8) / s, (M - A - 8) / s + 1, (M - A - 16) / s, (M - 8) / s, M / s / 2, M / s / 2 + 1, std::size_t(1) << 48 };
                std::size_t n = ns[c[3].n()];
                got = allocate<T, decltype(al)::value>(i, n);
                if (got == "ok") b[i] = Block();
                // one element more than fits into the address space
                if (s > 1) { std::string g2 = allocate<T, decltype(al)::value>(i, M / s + 1); if (g2 == "ok") { got = g2; b[i] = Block(); } }
            });
        } else if (op == "write") {
            b[i].tag = c[2].n();
            for (std::size_t k = 0; k < b[i].bytes; ++k) b[i].p[k] = char(pattern(b[i].tag, k));
        } else if (op == "free") {
            with(b[i].kind, [&](auto t, auto al) { release<decltype(t), decltype(al)::value>(b[i]); });
        } else if (op == "null") {
            with(i, [&](auto t, auto al) { aligned_allocator<decltype(t), decltype(al)::value> a; a.deallocate(0, 1); a.deallocate(0, 0); });
        } else if (op == "vector") {
            with(i, [&](auto t, auto al) { got = container<decltype(t), decltype(al)::value>(std::size_t(c[2].n())); });
        } else { std::cerr << "HARNESS: unknown call\n"; exit(3); }
        expect("VALUE", want, got, "outcome of call");
        for (int j = 1; j <= 4 && !rep().failed_here; ++j) {
            const Node& o = st[2][std::size_t(j - 1)];
            std::string who = "block " + std::to_string(j);
            if (!expect("VALUE", o[0].n() != 0, b[j].p != 0, who + " live")) return;
            if (!b[j].p) continue;
            expect("VALUE", o[1].n(), b[j].kind, who + " kind (harness)" );
            expect("VALUE", o[2].n(), b[j].n, who + " size (harness)");
            expect("VALUE", o[3].n(), b[j].tag, who + " content tag (harness)");
            ++rep().checks;
            if (b[j].tag) for (std::size_t k = 0; k < b[j].bytes; ++k) if ((unsigned char)(b[j].p[k]) != pattern(b[j].tag, k)) { rep().fail("VALUE", who + " lost its content at byte " + std::to_string(k)); return; }
            for (int l = 1; l < j; ++l) if (b[l].p && b[j].p < b[l].p + b[l].bytes && b[l].p < b[j].p + b[j].bytes) { rep().fail("VALUE", "blocks overlap"); return; }
        }
        for (std::size_t k = 0; k < MAXCHUNKS; ++k) if (placed[k].used && !check_guards(placed[k])) { rep().fail("HEAP", "memory outside of the allocated chunk was changed"); return; }
    }
};

int main(int argc, char **argv)
{
    return drive(argc, argv, [](const Node& b) -> bool { replay_behaviour<AllocReplayer>(b, "allocator"); return true; });
}
