// Replays ShortVec.tla: registers are short_vec objects, the memory is a
// guarded array which starts at an address that is aligned for the vector
// type, but not any better than that.
// STREAMING: use streaming_short_vec instead. FAMILY_REAL/FAMILY_INT select types.
#include "driver.hpp"
#include "shortvec_common.hpp"
bool verif_alloc_fails(std::size_t) { return false; }

template<typename T, std::size_t A> struct Machine
{
    typedef VecOf<T, A> V;
    typedef short_vec<T, A> Plain;
    static const std::size_t ALIGN = alignment<V>::VALUE;
    static const long GUARD = 160;
    static const bool INT = std::is_same<T, int>::value;

    V reg[3];
    MaskUnit<V, T, A, !VERIF_NO_MASKS(T, A), (!VERIF_NO_MASKS(T, A) && !std::is_same<T, int>::value) || (Basic<T, A>::VALUE && Basic<T, A>::COMPARES)> mask;
    char *raw; T *mem; long size; bool ready;

    Machine() : reg(), size(0), ready(false)
    {
        raw = (char*)malloc(16384);
        std::uintptr_t p = std::uintptr_t(raw) + GUARD * sizeof(T);
        p = (p + 2 * ALIGN - 1) / (2 * ALIGN) * (2 * ALIGN) + ALIGN;
        mem = reinterpret_cast<T*>(p);
    }
    ~Machine() { free(raw); }
    void fill_guards() { for (long k = -GUARD; k < 0; ++k) mem[k] = T(-7777); for (long k = size; k < size + GUARD; ++k) mem[k] = T(-8888); }

    V& R(const Node& n) { return reg[n.n() - 1]; }
    static T val(const Node& n) { return Lane<T>::make(n.n()); }
    static void lanes(const Node& n, T *to) { for (std::size_t i = 0; i < A; ++i) to[i] = val(n[i]); }

    // a buffer of exactly the vector's size
    struct Exact
    {
        char *p; T *d;
        Exact(bool aligned)
        {
            std::size_t a = aligned ? ALIGN : sizeof(T);
            p = (char*)malloc(A * sizeof(T) + 4 * ALIGN + 256);
            // end of data == end of block, as far as alignment permits (malloc rounds up)
            std::uintptr_t e = std::uintptr_t(p) + 128;
            e = (e + 2 * a - 1) / (2 * a) * (2 * a) + a;
            d = reinterpret_cast<T*>(e);
        }
        ~Exact() { free(p); }
    };
    V make(const Node& n, const std::string& how)
    {
        if (how == "list") { T d[A]; lanes(n, d); return from_list<V>(d, std::make_index_sequence<A>()); }
        if (how == "load_aligned") { Exact e(true); lanes(n, e.d); V v; v.load_aligned(e.d); return v; }
        // the very end of a heap block, so that reading too much is noticed
        T *d = (T*)malloc(A * sizeof(T)); lanes(n, d);
        if (how == "ptr") { V v((const T*)d); free(d); return v; }
        if (how == "load") { V v; v.load(d); free(d); return v; }
        V v(Lane<T>::make(INT ? 5 : 5 * UNIT)); v.load((const T*)d); free(d); return v;
    }
    void read(const V& v, T *to) const
    {
        const Plain& p = v;
        p.store(to);
    }
    // expected register contents from the specification's state
    bool check_reg(int r, const Node& want)
    {
        T got[A]; read(reg[r], got);
        for (std::size_t i = 0; i < A; ++i) {
            ++rep().checks;
            if (!Lane<T>::same(val(want[i]), got[i])) {
                std::ostringstream o; o.precision(17); o << "register " << r + 1 << " lane " << i << ": specified " << val(want[i]) << ", got " << got[i];
                rep().fail("VALUE", o.str()); return false;
            }
        }
        return true;
    }
    bool close(const char *what, std::size_t lane, double want, double got, double tol)
    {
        ++rep().checks;
        if (want == got || std::fabs(want - got) <= tol * std::fabs(want)) return true;
        std::ostringstream o; o.precision(17); o << what << " in lane " << lane << ": specified " << want << ", got " << got << ", admissible relative error " << tol;
        rep().fail("VALUE", o.str());
        return false;
    }
    // approximate results: compare, then continue with the exact ones
    void settle(int r, const Node& want, double tol)
    {
        T got[A], w[A]; read(reg[r], got); lanes(want, w);
        for (std::size_t i = 0; i < A; ++i) if (!close("result", i, double(w[i]), double(got[i]), tol)) return;
        if (tol > 0) reg[r].load(w);
        else if (!INT) for (std::size_t i = 0; i < A; ++i) if (!Lane<T>::same(w[i], got[i])) { rep().fail("VALUE", "sign of zero differs"); return; }
    }
    static T scaled(const Node& n) { return Lane<T>::make(n.n()); }
    V divided(const V& a, const V& b, unsigned f)
    {
        if (f == 0) return a / b;
        V t = a; t /= b; return t;
    }

    void step(const Node& st)
    {
        const Node& c = st[0];
        const Node& state = st[2];
        const std::string& op = c[0].s;
        if (!ready) {
            ready = true;
            size = long(state[2].size());
            fill_guards();
            // the initial memory is what the specification starts with
            for (long k = 0; k < size; ++k) { long n = (((k + 1) * 37) % 101) - 40; mem[k] = Lane<T>::make(INT ? n : n * 16); }
            expect("VALUE", A, SizeOf<V, Basic<T, A>::VALUE>::value(), "size()"); expect("VALUE", std::size_t(V::ARITY), A, "ARITY");
            // default construction yields zeros
            T z[A]; V v; read(v, z);
            for (std::size_t i = 0; i < A; ++i) expect("VALUE", T(0), z[i], "default constructed lane");
        }
        if (op == "bin") {
            V &r = R(c[2]); const V &a = R(c[3]), &b = R(c[4]);
            if (c[1].s == "+") r = a + b; else if (c[1].s == "-") r = a - b; else r = a * b;
        } else if (op == "compound") {
            V &r = R(c[2]); const V &b = R(c[3]);
            if (c[1].s == "+") r += b; else if (c[1].s == "-") r -= b; else r *= b;
        } else if (op == "scalar_l") {
            V &r = R(c[2]); T v = val(c[3]); const Plain& b = R(c[4]);
            if (c[1].s == "+") r = v + b; else if (c[1].s == "-") r = v - b; else r = v * b;
        } else if (op == "scalar_r") {
            V &r = R(c[2]); const V& a = R(c[3]); T v = val(c[4]);
            if (c[1].s == "+") r = a + v; else if (c[1].s == "-") r = a - v; else r = a * v;
        } else if (op == "scalar_c") {
            V &r = R(c[2]); T v = val(c[3]);
            if (c[1].s == "+") r += v; else if (c[1].s == "-") r -= v; else r *= v;
        } else if (op == "div") {
            V t = R(c[2]); (void)t;
            R(c[1]) = R(c[2]) / R(c[3]);
            settle(int(c[1].n()) - 1, state[0][c[1].n() - 1], Tolerance<T, A>::div());
        } else if (op == "div_c") {
            R(c[1]) /= R(c[2]);
            settle(int(c[1].n()) - 1, state[0][c[1].n() - 1], Tolerance<T, A>::div());
        } else if (op == "div_sl") {
            const Plain& b = R(c[3]);
            R(c[1]) = val(c[2]) / b;
            settle(int(c[1].n()) - 1, state[0][c[1].n() - 1], Tolerance<T, A>::div());
        } else if (op == "div_sr") {
            if (flavour(2) && c[1].n() == c[2].n()) R(c[1]) /= val(c[3]); else R(c[1]) = R(c[2]) / val(c[3]);
            settle(int(c[1].n()) - 1, state[0][c[1].n() - 1], Tolerance<T, A>::div());
        } else if (op == "quotients") {
            for (unsigned f = 0; f < 2; ++f) {
                T got[A]; V q = divided(R(c[1]), R(c[2]), f); read(q, got);
                for (std::size_t i = 0; i < A; ++i) {
                    T want = T(st[1][i][0].n()) / T(st[1][i][1].n());
                    if (!close("quotient", i, double(want), double(got[i]), Tolerance<T, A>::div())) return;
                }
            }
        } else if (op == "sqrt") {
            if (flavour(2)) { const V& a = R(c[2]); R(c[1]) = a.sqrt(); } else { V t(sqrt(R(c[2]))); R(c[1]) = t; }
            if (Tolerance<T, A>::root() > 0) settle(int(c[1].n()) - 1, state[0][c[1].n() - 1], Tolerance<T, A>::root());
        } else if (op == "roots") {
            for (unsigned f = 0; f < 2; ++f) {
                const V& a = R(c[1]); T got[A];
                if (f) { V t = a.sqrt(); read(t, got); } else { V t(sqrt(a)); read(t, got); }
                for (std::size_t i = 0; i < A; ++i) {
                    T want = std::sqrt(T(st[1][i][0].n()) / T(st[1][i][1].n()));
                    if (!close("root", i, double(want), double(got[i]), Tolerance<T, A>::root())) return;
                }
            }
        } else if (op == "over_sqrt") {
            R(c[1]) = R(c[2]) / sqrt(R(c[3]));
        } else if (op == "over_sqrt_c") {
            R(c[1]) /= sqrt(R(c[2]));
        } else if (op == "over_roots") {
            for (unsigned f = 0; f < 3; ++f) {
                const V &a = R(c[1]), &b = R(c[2]); T got[A];
                V t = a;
                if (f == 0) t = a / sqrt(b);
                else if (f == 1) t /= sqrt(b);
                else { t = sqrt(b) / a; }
                read(t, got);
                for (std::size_t i = 0; i < A; ++i) {
                    double p = double(st[1][i][0].n()) / UNIT, q = std::sqrt(double(st[1][i][1].n()) / UNIT);
                    if (f == 2 && p == 0) continue;
                    double tol = f == 2 ? Tolerance<T, A>::div() + Tolerance<T, A>::root() + 4 * double(std::numeric_limits<T>::epsilon()) : Tolerance<T, A>::oversqrt();
                    if (!close(f == 2 ? "root over vector" : "quotient by root", i, f == 2 ? q / p : p / q, double(got[i]), tol)) return;
                }
            }
        } else if (op == "setup") {
            static const char *const how[4] = { "ptr", "load", "load_aligned", "list" };
            reg[0] = make(c[1], how[flavour(4)]); reg[1] = make(c[2], how[flavour(3)]);
        } else if (op == "make") {
            R(c[2]) = make(c[3], c[1].s);
        } else if (op == "splat") {
            switch (flavour(3)) {
            case 0: R(c[1]) = V(val(c[2])); break;
            case 1: R(c[1]) = val(c[2]); break;
            default: { V v(val(c[2])); R(c[1]) = v; } }
        } else if (op == "copy") {
            if (flavour(2)) { V v(R(c[2])); R(c[1]) = v; } else R(c[1]) = R(c[2]);
        } else if (op == "any") {
            bool r;
            if (mask.any(R(c[1]), r, int(flavour(2)))) expect("VALUE", st[1].n() != 0, r, "any(vector)");
        } else if (op == "lane") {
            T r;
            if (mask.lane(R(c[1]), int(c[2].n()), r) && !Lane<T>::same(val(st[1][0]), r)) { std::ostringstream o; o << "lane " << c[2].n() << " read: specified " << val(st[1][0]) << ", got " << r; rep().fail("VALUE", o.str()); }
        } else if (op == "print") {
            std::ostringstream got, want;
            const Plain& p = R(c[1]);
            got << p;
            want << "[";
            for (std::size_t i = 0; i < A; ++i) want << (i ? ", " : "") << val(st[1][i]);
            want << "]";
            std::string g = got.str();
            for (std::size_t i; (i = g.find("-nan")) != std::string::npos;) g.erase(i, 1);
            expect("VALUE", want.str(), g, "printed form");
        } else if (op == "compare") {
            mask.compare(c[1].s, R(c[2]), R(c[3]));
        } else if (op == "compare_s") {
            mask.compare_s(c[1].s, R(c[2]), val(c[3]));
        } else if (op == "any_mask") {
            bool r;
            if (mask.any_mask(r)) expect("VALUE", st[1].n() != 0, r, "any(mask)");
        } else if (op == "count_mask") {
            long r;
            if (mask.count(r)) expect("VALUE", st[1].n(), r, "count_mask");
        } else if (op == "get_mask") {
            if (mask.valid) expect("VALUE", st[1].n() != 0, mask.bit(int(c[1].n())), "get(mask, i)");
        } else if (op == "blend") {
            if (!mask.blend(R(c[1]), R(c[2]))) reg[c[1].n() - 1] = make(state[0][c[1].n() - 1], "load");
        } else if (op == "blend_f") {
            if (!mask.blend_f(R(c[1]), R(c[2]), R(c[3]))) reg[c[1].n() - 1] = make(state[0][c[1].n() - 1], "load");
        } else if (op == "blend_s") {
            if (!mask.blend_s(R(c[1]), val(c[2]))) reg[c[1].n() - 1] = make(state[0][c[1].n() - 1], "load");
        } else if (op == "load") {
            R(c[1]).load(mem + c[2].n());
        } else if (op == "from_ptr") {
            R(c[1]) = V((const T*)(mem + c[2].n()));
        } else if (op == "load_aligned") {
            R(c[1]).load_aligned(mem + c[2].n());
        } else if (op == "store") {
            const Plain& p = R(c[1]);
            p.store(mem + c[2].n());
        } else if (op == "stream") {
            const Plain& p = R(c[1]);
            (mem + c[2].n()) << p;
        } else if (op == "store_aligned") {
#ifdef STREAMING
            switch (flavour(3)) {
            case 0: R(c[1]).store(mem + c[2].n()); break;
            case 1: R(c[1]).store_aligned(mem + c[2].n()); break;
            default: (mem + c[2].n()) << R(c[1]); }
#else
            const Plain& p = R(c[1]);
            p.store_aligned(mem + c[2].n());
#endif
        } else if (op == "store_nt") {
            const Plain& p = R(c[1]);
            p.store_nt(mem + c[2].n());
        } else if (op == "gather") {
            alignas(64) int off[OFFSETS<A>::N] = {};
            for (std::size_t i = 0; i < A; ++i) off[i] = int(c[3][i].n());
            R(c[1]).gather((const T*)(mem + c[2].n()), off);
        } else if (op == "scatter") {
            alignas(64) int off[OFFSETS<A>::N] = {};
            for (std::size_t i = 0; i < A; ++i) off[i] = int(c[3][i].n());
            const V& v = R(c[1]);
            v.scatter(mem + c[2].n(), off);
        } else { std::cerr << "HARNESS: unknown call " << op << "\n"; exit(3); }

        if (rep().failed_here || !rep().observe) return;
        for (int r = 0; r < 3; ++r) if (!check_reg(r, state[0][r])) return;
        if (mask.valid && state[1].size() == A)
            for (std::size_t i = 0; i < A; ++i)
                if (!expect("VALUE", state[1][i].n() != 0, mask.bit(int(i)), "mask bit " + std::to_string(i))) return;
        for (long k = -GUARD; k < size + GUARD; ++k) {
            T want = k < 0 ? T(-7777) : k >= size ? T(-8888) : val(state[2][k]);
            if (!Lane<T>::same(want, mem[k])) { std::ostringstream o; o << "memory element " << k << ": specified " << want << ", got " << mem[k]; rep().fail("VALUE", o.str()); return; }
        }
        ++rep().checks;
    }
};

template<typename T, std::size_t A> void run(const Node& b, const char *t) { replay_behaviour<Machine<T, A> >(b, std::string(t) + "x" + std::to_string(A)); }
template<typename T> bool arity(const Node& b, const char *t)
{
    switch (b[1][0].n()) {
    case 1: run<T, 1>(b, t); return true; case 2: run<T, 2>(b, t); return true; case 4: run<T, 4>(b, t); return true;
    case 8: run<T, 8>(b, t); return true; case 16: run<T, 16>(b, t); return true; case 32: run<T, 32>(b, t); return true;
    }
    std::cerr << "HARNESS: arity\n"; exit(3);
}

int main(int argc, char **argv)
{
    std::cout << "NOTE widest vector ISA " << LIBFLATARRAY_WIDEST_VECTOR_ISA << " (10 scalar, 11 QPX, 12 NEON, 13 MIC, 14 AVX512F, 15 AVX, 16 AVX2, 17 SSE, 18 SSE2, 19 SSE4.1)\n";
    return drive(argc, argv, [](const Node& b) -> bool {
        bool done = false;
        if (b[0][0].s == "int") {
#ifndef ONLY_REAL
            done = arity<int>(b, "int");
#endif
        } else {
#ifndef ONLY_INT
            done = arity<float>(b, "float");
            if (rep().failed_here) return done;
            done = arity<double>(b, "double");
#endif
        }
        return done;
    });
}
