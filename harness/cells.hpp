// Registered cell types used by the container harnesses. All have KSLOTS
// member slots; array members contribute one slot per index. Slot values are
// small integers (0..120), so that they fit every member type.
#ifndef VERIF_CELLS_HPP
#define VERIF_CELLS_HPP
#include "replay.hpp"
#include <libflatarray/flat_array.hpp>
#include <libflatarray/member_ptr_to_offset.hpp>

// value <-> member conversion
template<typename M> struct conv { static M in(long v) { return M(v); } static long out(const M& m) { return long(m); } };
template<> struct conv<std::string>
{
    static std::string in(long v)
    {
        if (v == 0) return std::string();
        std::string s = std::to_string(v);
        return (v % 2) ? s : s + ":a string which is way too long for small string optimization";
    }
    static long out(const std::string& s)
    {
        if (s.empty()) return 0;
        long v = atol(s.c_str());
        return s == in(v) ? v : -999;
    }
};
template<> struct conv<Tracked> { static Tracked in(long v) { return Tracked(v); } static long out(const Tracked& m) { m.check("read"); return m.v; } };

#ifdef RECORD
template<int N> struct conv<Rec<N> > { static Rec<N> in(long) { return Rec<N>(); } static long out(const Rec<N>& m) { rec().ev(5, rec().addr(&m), m.stamp()); return 0; } };
template<typename CELL> struct recorded { static const long MEMBERS = 5; };
#endif

// plain old data, mixed sizes, array members
struct CellPod
{
    CellPod() : a(0), b(0), d(0), e(0) { c[0] = c[1] = c[2] = 0; }
    double a; int b; float c[3]; char d; long e;
};
LIBFLATARRAY_REGISTER_SOA(CellPod, ((double)(a))((int)(b))((float)(c)(3))((char)(d))((long)(e)))

#if defined(VERIF_CONC) || defined(VERIF_THREADS)
typedef std::string ObjMember;      // (objects which know their peers could not be used by several threads)
#else
typedef Tracked ObjMember;
#endif
// objects with ownership and identity
struct CellObj
{
    CellObj() : b(0), e(0) {}
    ObjMember a; int b; ObjMember c[3]; std::string d; double e;
};
LIBFLATARRAY_REGISTER_SOA(CellObj, ((ObjMember)(a))((int)(b))((ObjMember)(c)(3))((std::string)(d))((double)(e)))

// array members first and last, odd sizes, private members
class CellArr
{
public:
    LIBFLATARRAY_ACCESS
    CellArr() { a[0] = a[1] = 0; b = 0; c = 0; d[0] = d[1] = d[2] = 0; }
    long get(int k) const { switch (k) { case 0: case 1: return a[k]; case 2: return b; case 3: return long(c); default: return long(d[k - 4]); } }
    void set(int k, long v) { switch (k) { case 0: case 1: a[k] = short(v); break; case 2: b = (unsigned char)(v); break; case 3: c = float(v); break; default: d[k - 4] = double(v); } }
private:
    short a[2]; unsigned char b; float c; double d[3];
};
LIBFLATARRAY_REGISTER_SOA(CellArr, ((short)(a)(2))((unsigned char)(b))((float)(c))((double)(d)(3)))

#ifndef VERIF_KSLOTS
#define VERIF_KSLOTS 7
#endif
static const int KSLOTS = VERIF_KSLOTS;

template<typename CELL> struct slots;
template<typename M> void kill_at(char *p) { ((M*)p)->~M(); }

#define SLOT_STRUCT(CELL, MA, MB, MC, MD, ME)                                                   \
    static long get(const CELL& x, int k) {                                                     \
        switch (k) { case 0: return conv<MA>::out(x.a); case 1: return conv<MB>::out(x.b);      \
        case 2: case 3: case 4: return conv<MC>::out(x.c[k - 2]);                               \
        case 5: return conv<MD>::out(x.d); default: return conv<ME>::out(x.e); } }              \
    static void set(CELL& x, int k, long v) {                                                   \
        switch (k) { case 0: x.a = conv<MA>::in(v); break; case 1: x.b = conv<MB>::in(v); break; \
        case 2: case 3: case 4: x.c[k - 2] = conv<MC>::in(v); break;                            \
        case 5: x.d = conv<MD>::in(v); break; default: x.e = conv<ME>::in(v); } }               \
    template<typename A> static long aget(const A& x, int k) {                                  \
        switch (k) { case 0: return conv<MA>::out(x.a()); case 1: return conv<MB>::out(x.b());  \
        case 2: return conv<MC>::out(x.template c<0>());                                        \
        case 3: return conv<MC>::out(x.template c<1>());                                        \
        case 4: return conv<MC>::out(x.template c<2>());                                        \
        case 5: return conv<MD>::out(x.d()); default: return conv<ME>::out(x.e()); } }          \
    template<typename A> static long aget_dyn(const A& x, int k) {                              \
        if (k >= 2 && k <= 4) return conv<MC>::out(x.c()[k - 2]);                               \
        return aget(x, k); }                                                                    \
    template<typename A> static void aset(A& x, int k, long v) {                                \
        switch (k) { case 0: x.a() = conv<MA>::in(v); break; case 1: x.b() = conv<MB>::in(v); break; \
        case 2: x.template c<0>() = conv<MC>::in(v); break;                                     \
        case 3: x.template c<1>() = conv<MC>::in(v); break;                                     \
        case 4: x.template c<2>() = conv<MC>::in(v); break;                                     \
        case 5: x.d() = conv<MD>::in(v); break; default: x.e() = conv<ME>::in(v); } }           \
    template<typename A> static void aset_dyn(A& x, int k, long v) {                            \
        if (k >= 2 && k <= 4) { x.c()[k - 2] = conv<MC>::in(v); return; }                       \
        aset(x, k, v); }                                                                        \
    /* by type and number of the member */                                                      \
    template<typename A> static void aset_typed(A& x, int k, long v) {                          \
        switch (k) { case 0: x.template access_member<MA, 0>() = conv<MA>::in(v); break;        \
        case 1: x.template access_member<MB, 1>() = conv<MB>::in(v); break;                     \
        case 2: case 3: case 4: (&x.template access_member<MC, 2>())[A::DIM_PROD * (k - 2)] = conv<MC>::in(v); break; \
        case 5: x.template access_member<MD, 3>() = conv<MD>::in(v); break;                     \
        default: x.template access_member<ME, 4>() = conv<ME>::in(v); } }                       \
    static std::size_t size_of(int k) { const std::size_t s[7] = { sizeof(MA), sizeof(MB),      \
        sizeof(MC), sizeof(MC), sizeof(MC), sizeof(MD), sizeof(ME) }; return s[k]; }            \
    static void raw_set(char *p, int k, long v) {                                               \
        switch (k) { case 0: *(MA*)p = conv<MA>::in(v); break; case 1: *(MB*)p = conv<MB>::in(v); break; \
        case 2: case 3: case 4: *(MC*)p = conv<MC>::in(v); break;                               \
        case 5: *(MD*)p = conv<MD>::in(v); break; default: *(ME*)p = conv<ME>::in(v); } }       \
    static long raw_get(const char *p, int k) {                                                 \
        switch (k) { case 0: return conv<MA>::out(*(const MA*)p); case 1: return conv<MB>::out(*(const MB*)p); \
        case 2: case 3: case 4: return conv<MC>::out(*(const MC*)p);                            \
        case 5: return conv<MD>::out(*(const MD*)p); default: return conv<ME>::out(*(const ME*)p); } } \
    static void raw_construct(char *p, int k) {                                                 \
        switch (k) { case 0: new (p) MA(); break; case 1: new (p) MB(); break;                  \
        case 2: case 3: case 4: new (p) MC(); break;                                            \
        case 5: new (p) MD(); break; default: new (p) ME(); } }                                 \
    static void raw_destroy(char *p, int k) {                                                   \
        switch (k) { case 0: kill_at<MA>(p); break; case 1: kill_at<MB>(p); break;              \
        case 2: case 3: case 4: kill_at<MC>(p); break;                                          \
        case 5: kill_at<MD>(p); break; default: kill_at<ME>(p); } }

template<> struct slots<CellPod> { static const char *name() { return "pod"; } SLOT_STRUCT(CellPod, double, int, float, char, long) };
template<> struct slots<CellObj>
{
    static const char *name() { return "obj"; }
    SLOT_STRUCT(CellObj, ObjMember, int, ObjMember, std::string, double)
};
template<typename CELL> struct slots_arr
{
    static const char *name() { return "arr"; }
    static long get(const CELL& x, int k) { return x.get(k); }
    static void set(CELL& x, int k, long v) { x.set(k, v); }
    template<typename A> static long aget(const A& x, int k)
    {
        switch (k) {
        case 0: return long(x.template a<0>()); case 1: return long(x.template a<1>());
        case 2: return long(x.b()); case 3: return long(x.c());
        case 4: return long(x.template d<0>()); case 5: return long(x.template d<1>()); default: return long(x.template d<2>()); }
    }
    template<typename A> static long aget_dyn(const A& x, int k)
    {
        if (k < 2) return long(x.a()[k]);
        if (k > 3) return long(x.d()[k - 4]);
        return aget(x, k);
    }
    template<typename A> static void aset(A& x, int k, long v)
    {
        switch (k) {
        case 0: x.template a<0>() = short(v); break; case 1: x.template a<1>() = short(v); break;
        case 2: x.b() = (unsigned char)(v); break; case 3: x.c() = float(v); break;
        case 4: x.template d<0>() = double(v); break; case 5: x.template d<1>() = double(v); break; default: x.template d<2>() = double(v); }
    }
    template<typename A> static void aset_dyn(A& x, int k, long v)
    {
        if (k < 2) { x.a()[k] = short(v); return; }
        if (k > 3) { x.d()[k - 4] = double(v); return; }
        aset(x, k, v);
    }
    template<typename A> static void aset_typed(A& x, int k, long v)
    {
        switch (k) {
        case 0: case 1: (&x.template access_member<short, 0>())[A::DIM_PROD * k] = short(v); break;
        case 2: x.template access_member<unsigned char, 1>() = (unsigned char)(v); break;
        case 3: x.template access_member<float, 2>() = float(v); break;
        default: (&x.template access_member<double, 3>())[A::DIM_PROD * (k - 4)] = double(v); }
    }
    static std::size_t size_of(int k) { const std::size_t s[7] = { 2, 2, 1, 4, 8, 8, 8 }; return s[k]; }
    static void raw_set(char *p, int k, long v)
    {
        if (k < 2) { short t = short(v); memcpy(p, &t, 2); } else if (k == 2) *p = char(v);
        else if (k == 3) { float t = float(v); memcpy(p, &t, 4); } else { double t = double(v); memcpy(p, &t, 8); }
    }
    static long raw_get(const char *p, int k)
    {
        if (k < 2) { short t; memcpy(&t, p, 2); return t; }
        if (k == 2) return (unsigned char)*p;
        if (k == 3) { float t; memcpy(&t, p, 4); return long(t); }
        double t; memcpy(&t, p, 8); return long(t);
    }
    static void raw_construct(char *p, int k) { raw_set(p, k, 0); }
    static void raw_destroy(char*, int) {}
};

template<> struct slots<CellArr> : slots_arr<CellArr> {};

// sum of member sizes, computed independently from the library
template<typename CELL> std::size_t sum_of_sizes() { std::size_t r = 0; for (int k = 0; k < KSLOTS; ++k) r += slots<CELL>::size_of(k); return r; }
template<typename CELL> std::size_t slot_offset(int k) { std::size_t r = 0; for (int j = 0; j < k; ++j) r += slots<CELL>::size_of(j); return r; }

template<typename CELL> CELL make_cell(const Node& n)
{
    CELL c;
    for (int k = 0; k < KSLOTS; ++k) slots<CELL>::set(c, k, n[std::size_t(k)].n());
    return c;
}
template<typename CELL> Ints cell_slots(const CELL& c)
{
    Ints r;
    for (int k = 0; k < KSLOTS; ++k) r.push_back(slots<CELL>::get(c, k));
    return r;
}

// compare with the specified slots; -1 means: left open by the specification
inline void expect_slots(const Node& want, const Ints& got, const std::string& what)
{
    ++rep().checks;
    for (std::size_t k = 0; k < got.size(); ++k) {
        if (want[k].i != -1 && want[k].i != got[k]) {
            Ints w; for (auto& x : want.l) w.push_back(x.i);
            rep().fail("VALUE", what + ": specified " + join(w) + ", got " + join(got));
            return;
        }
    }
}
#endif
