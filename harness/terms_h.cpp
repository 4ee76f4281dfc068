// Replays ShortVecTerms.tla: leaves become floating point numbers of any magnitude and precision,
// terms are evaluated by scalar arithmetic, one operation at a time.
#include "driver.hpp"
#include "shortvec_common.hpp"
bool verif_alloc_fails(std::size_t) { return false; }

static unsigned long long mix(unsigned long long x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
template<typename T> struct Bits;
template<> struct Bits<float>  { typedef unsigned type; static const int M = 23, E = 8, BIAS = 127; };
template<> struct Bits<double> { typedef unsigned long long type; static const int M = 52, E = 11, BIAS = 1023; };

// a number for leaf <<lane, k>>; k >= 1000: all lanes get neighbours of the same number
template<typename T> T leaf(long lane, long k, unsigned long long salt)
{
    typedef typename Bits<T>::type U;
    const int M = Bits<T>::M, BIAS = Bits<T>::BIAS;
    unsigned long long h = k >= 1000 ? mix(salt * 977 + (unsigned long long)(k)) : mix(salt * 977 + (unsigned long long)(k) * 64 + (unsigned long long)(lane));
    unsigned long long g = mix(h);
    U mant = U(g) & ((U(1) << M) - 1), sign = U((h >> 60) & 1), exp;
    switch (h % 16) {
    case 0: exp = U(BIAS) + U((h >> 8) % 100) - 50; break;                           // large and small
    case 1: exp = U(2 * BIAS) - U((h >> 8) % 3); break;                              // close to overflow
    case 2: exp = 1 + U((h >> 8) % 3); break;                                        // close to underflow
    case 3: exp = 0; break;                                                          // denormal
    case 4: exp = U(BIAS) + U((h >> 8) % 12); mant &= ~U(0) << (M - 11); break;      // integers
    case 5: exp = U(BIAS); mant = U((h >> 8) % 5); break;                            // just above one
    case 6: exp = U(BIAS) - 1; mant = ((U(1) << M) - 1) - U((h >> 8) % 5); break;    // just below one
    case 7: if ((h >> 8) % 4 == 0) { exp = 0; mant = U((h >> 16) % 2); break; }      // zero or the smallest number
            // fall through
    default: exp = U(BIAS) + U((h >> 8) % 9) - 4; break;
    }
    if (k >= 1000) { mant = (mant & ~U(3)) | U(mix(h + (unsigned long long)(lane)) % 4); sign ^= U(mix(h ^ (unsigned long long)(lane)) % 8 == 0); }
    U u = (sign << (M + Bits<T>::E)) | (exp << M) | mant;
    T t; memcpy(&t, &u, sizeof(t)); return t;
}

template<typename T, std::size_t A> struct TermMachine
{
    typedef VecOf<T, A> V;
    typedef short_vec<T, A> Plain;
    V reg[3];
    MaskUnit<V, T, A, !VERIF_NO_MASKS(T, A), (!VERIF_NO_MASKS(T, A) && !std::is_same<T, int>::value) || (Basic<T, A>::VALUE && Basic<T, A>::COMPARES)> mask;
    std::vector<T> value;           // of all terms so far
    std::vector<char> loose;        // term's value is an approximation (or unknown)
    unsigned long long salt;

    TermMachine() : reg(), salt((unsigned long long)(rep().trace) + 1)
    {
        for (long i = 1; i <= 6; ++i) { value.push_back(leaf<T>(0, i, salt)); loose.push_back(0); }
        for (int r = 0; r < 3; ++r) reg[r] = V(value[0]);
    }
    V& R(const Node& n) { return reg[n.n() - 1]; }
    T S(const Node& n) { return value[std::size_t(n.n() - 1)]; }
    T at(const Node& n) { return value[std::size_t(n.n() - 1)]; }
    static bool compare(const std::string& op, T a, T b) { return op == "<" ? a < b : op == "<=" ? a <= b : op == "==" ? a == b : op == ">=" ? a >= b : a > b; }
    // magnitudes for which approximations of reciprocals work
    static bool tame(T x) { double y = std::fabs(double(x)); return y == y && y > 1e-30 && y < 1e30; }
    // the scalar operation; tol < 0: not determined
    T evaluate(const Node& t, double& tol)
    {
        tol = 0;
        const std::string& op = t[0].s;
        volatile T a = op == "leaf" || op == "select" ? T(0) : at(t[1]), r;
        if (op == "leaf") return leaf<T>(t[1].n(), t[2].n(), salt);
        if (op == "select") return at(t[1]) != T(0) ? at(t[2]) : at(t[3]);
        if (op == "sqrt") { r = std::sqrt(a); tol = Tolerance<T, A>::root(); if (tol > 0 && !tame(a)) tol = -1; return r; }
        volatile T b = at(t[2]);
        if (op == "/sqrt") {
            volatile double s = std::sqrt(double(b)), q = double(a) / s;
            tol = Tolerance<T, A>::oversqrt(); if (!tame(b) || !tame(a) || !tame(T(q)) || b < 0) tol = -1;
            r = T(q); return r;
        }
        if (op == "+") r = a + b; else if (op == "-") r = a - b; else if (op == "*") r = a * b;
        else if (op == "/") { r = a / b; tol = Tolerance<T, A>::div(); if (tol > 0 && !(tame(a) && tame(b) && tame(r))) tol = -1; }
        else return compare(op, a, b) ? T(1) : T(0);
        return r;
    }
    void step(const Node& st)
    {
        const Node& c = st[0];
        const std::string& op = c[0].s;
        const Node& fresh = st[1];
        const Node& state = st[2];
        std::size_t first = value.size();
        std::vector<double> tols;
        for (auto& t : fresh.l) { double tol; T v = evaluate(t, tol); value.push_back(v); loose.push_back(0); tols.push_back(tol); }
        auto apply = [](const std::string& o, V& r, const auto& a, const auto& b) { if (o == "+") r = a + b; else if (o == "-") r = a - b; else if (o == "*") r = a * b; else r = a / b; };
        auto compound = [](const std::string& o, V& r, const auto& b) { if (o == "+") r += b; else if (o == "-") r -= b; else if (o == "*") r *= b; else r /= b; };
        int target = -1;
        if (op == "fill") {
            T *d = (T*)malloc(A * sizeof(T));
            for (std::size_t i = 0; i < A; ++i) d[i] = value[first + i];
            if (flavour(2)) R(c[1]).load((const T*)d); else R(c[1]) = V((const T*)d);
            free(d);
        }
        else if (op == "splat") R(c[1]) = V(S(c[2]));
        else if (op == "copy") R(c[1]) = R(c[2]);
        else if (op == "bin") { apply(c[1].s, R(c[2]), R(c[3]), R(c[4])); target = int(c[2].n()) - 1; }
        else if (op == "compound") { compound(c[1].s, R(c[2]), R(c[3])); target = int(c[2].n()) - 1; }
        else if (op == "scalar_l") { const Plain& b = R(c[4]); apply(c[1].s, R(c[2]), S(c[3]), b); target = int(c[2].n()) - 1; }
        else if (op == "scalar_r") { apply(c[1].s, R(c[2]), R(c[3]), S(c[4])); target = int(c[2].n()) - 1; }
        else if (op == "scalar_c") { compound(c[1].s, R(c[2]), S(c[3])); target = int(c[2].n()) - 1; }
        else if (op == "sqrt") { if (flavour(2)) { const V& a = R(c[2]); R(c[1]) = a.sqrt(); } else { V t(sqrt(R(c[2]))); R(c[1]) = t; } target = int(c[1].n()) - 1; }
        else if (op == "over_sqrt") { R(c[1]) = R(c[2]) / sqrt(R(c[3])); target = int(c[1].n()) - 1; }
        else if (op == "over_sqrt_c") { R(c[1]) /= sqrt(R(c[2])); target = int(c[1].n()) - 1; }
        else if (op == "compare") {
            if (!mask.compare(c[1].s, R(c[2]), R(c[3]))) { rep().abandoned = true; return; }
        }
        else if (op == "blend") mask.blend(R(c[1]), R(c[2]));
        else if (op == "blend_f") mask.blend_f(R(c[1]), R(c[2]), R(c[3]));
        else if (op == "any") {
            bool r, want = false, determined = true;
            for (auto& i : state[0][c[1].n() - 1].l) { T v = at(i); want = want || v != T(0); determined = determined && !(v == T(0) && std::signbit(v)); }
            // (whether vectors of negative zeros count as zero differs between back ends)
            if (determined && mask.any(R(c[1]), r, int(flavour(2)))) expect("VALUE", want, r, "any(vector)");
        }
        else if (op == "any_mask") {
            bool r, want = false;
            for (auto& i : state[1].l) want = want || at(i) != T(0);
            if (mask.any_mask(r)) expect("VALUE", want, r, "any(mask)");
        }
        else { std::cerr << "HARNESS: unknown call " << op << "\n"; exit(3); }
        if (!mask.can_blend() && (op == "blend" || op == "blend_f")) { rep().abandoned = true; return; }
        // approximate results: check, then continue with what was computed
        if (target >= 0) {
            T got[A]; const Plain& p = reg[target]; p.store(got);
            for (std::size_t i = 0; i < A; ++i) {
                double tol = tols[i]; T want = value[first + i];
                if (tol == 0) continue;
                ++rep().checks;
                if (tol > 0 && !Lane<T>::same(want, got[i]) && !(std::fabs(double(want) - double(got[i])) <= tol * std::fabs(double(want)))) {
                    std::ostringstream o; o.precision(17); o << "lane " << i << ": specified " << want << ", got " << got[i] << ", admissible relative error " << tol;
                    rep().fail("VALUE", o.str()); return;
                }
                value[first + i] = got[i];
            }
        }
        for (int r = 0; r < 3; ++r) {
            T got[A]; const Plain& p = reg[r]; p.store(got);
            for (std::size_t i = 0; i < A; ++i) {
                T want = at(state[0][std::size_t(r)][i]);
                ++rep().checks;
                if (!Lane<T>::same(want, got[i])) {
                    std::ostringstream o; o.precision(17); o << "register " << r + 1 << " lane " << i << ": specified " << want << ", got " << got[i];
                    rep().fail("VALUE", o.str()); return;
                }
            }
        }
        if (mask.valid && state[1].size() == A)
            for (std::size_t i = 0; i < A; ++i)
                if (!expect("VALUE", at(state[1][i]) != T(0), mask.bit(int(i)), "mask bit " + std::to_string(i))) return;
    }
};

template<typename T, std::size_t A> void run(const Node& b, const char *t) { replay_behaviour<TermMachine<T, A> >(b, std::string(t) + "x" + std::to_string(A)); }
template<typename T> bool arity(const Node& b, const char *t)
{
    switch (b[1][0].n()) {
    case 1: run<T, 1>(b, t); return true; case 2: run<T, 2>(b, t); return true; case 4: run<T, 4>(b, t); return true;
    case 8: run<T, 8>(b, t); return true; case 16: run<T, 16>(b, t); return true; case 32: run<T, 32>(b, t); return true;
    }
    std::cerr << "HARNESS: arity\n"; exit(3);
}
int main(int argc, char **argv)
{
    return drive(argc, argv, [](const Node& b) -> bool {
        bool done = arity<float>(b, "float");
        if (rep().failed_here) return done;
        return arity<double>(b, "double");
    });
}
