// Families of cell types (as in cells.hpp), one set per kind of size traits in Grid.tla.
#ifndef VERIF_GRIDCELLS_HPP
#define VERIF_GRIDCELLS_HPP
#include "cells.hpp"

#define CUSTOM_API(...) class API { public: __VA_ARGS__ };
#define ASYM_API(...)   class API : public LibFlatArray::api_traits::has_asymmetric_dual_callback { public: __VA_ARGS__ };
#define TRAIT_API(T)    class API : public LibFlatArray::api_traits::T {};
#define NO_API

#ifdef FAM_POD
#define GRID_POD(KIND, ...)                                                     \
    struct Pod_##KIND { __VA_ARGS__                                             \
        Pod_##KIND() : a(0), b(0), d(0), e(0) { c[0] = c[1] = c[2] = 0; }       \
        double a; int b; float c[3]; char d; long e; };                         \
    LIBFLATARRAY_REGISTER_SOA(Pod_##KIND, ((double)(a))((int)(b))((float)(c)(3))((char)(d))((long)(e))) \
    template<> struct slots<Pod_##KIND> { static const char *name() { return "pod"; } SLOT_STRUCT(Pod_##KIND, double, int, float, char, long) };
#else
#define GRID_POD(KIND, ...)
#endif

#ifdef FAM_OBJ
#define GRID_OBJ(KIND, ...)                                                     \
    struct Obj_##KIND { __VA_ARGS__                                             \
        Obj_##KIND() : b(0), e(0) {}                                            \
        ObjMember a; int b; ObjMember c[3]; std::string d; double e; };             \
    LIBFLATARRAY_REGISTER_SOA(Obj_##KIND, ((ObjMember)(a))((int)(b))((ObjMember)(c)(3))((std::string)(d))((double)(e))) \
    template<> struct slots<Obj_##KIND> { static const char *name() { return "obj"; } SLOT_STRUCT(Obj_##KIND, ObjMember, int, ObjMember, std::string, double) };
#else
#define GRID_OBJ(KIND, ...)
#endif

#ifdef FAM_ARR
#define GRID_ARR(KIND, ...)                                                     \
    class Arr_##KIND { public: __VA_ARGS__                                      \
        LIBFLATARRAY_ACCESS                                                     \
        Arr_##KIND() { a[0] = a[1] = 0; b = 0; c = 0; d[0] = d[1] = d[2] = 0; } \
        long get(int k) const { switch (k) { case 0: case 1: return a[k]; case 2: return b; case 3: return long(c); default: return long(d[k - 4]); } } \
        void set(int k, long v) { switch (k) { case 0: case 1: a[k] = short(v); break; case 2: b = (unsigned char)(v); break; case 3: c = float(v); break; default: d[k - 4] = double(v); } } \
    private: short a[2]; unsigned char b; float c; double d[3]; };              \
    LIBFLATARRAY_REGISTER_SOA(Arr_##KIND, ((short)(a)(2))((unsigned char)(b))((float)(c))((double)(d)(3))) \
    template<> struct slots<Arr_##KIND> : slots_arr<Arr_##KIND> {};
#else
#define GRID_ARR(KIND, ...)
#endif

// nothing but one array member
template<typename CELL, typename M> struct slots_sole
{
    static const char *name() { return "sole"; }
    static long get(const CELL& x, int k) { return long(x.v[k]); }
    static void set(CELL& x, int k, long v) { x.v[k] = M(v); }
    template<typename A> static M& at(A& x, int k)
    {
        switch (k) { case 0: return x.template v<0>(); case 1: return x.template v<1>(); case 2: return x.template v<2>(); case 3: return x.template v<3>();
        case 4: return x.template v<4>(); case 5: return x.template v<5>(); default: return x.template v<6>(); }
    }
    template<typename A> static long aget(const A& x, int k)
    {
        switch (k) { case 0: return long(x.template v<0>()); case 1: return long(x.template v<1>()); case 2: return long(x.template v<2>()); case 3: return long(x.template v<3>());
        case 4: return long(x.template v<4>()); case 5: return long(x.template v<5>()); default: return long(x.template v<6>()); }
    }
    template<typename A> static long aget_dyn(const A& x, int k) { return long(x.v()[k]); }
    template<typename A> static void aset(A& x, int k, long v) { at(x, k) = M(v); }
    template<typename A> static void aset_dyn(A& x, int k, long v) { x.v()[k] = M(v); }
    template<typename A> static void aset_typed(A& x, int k, long v) { (&x.template access_member<M, 0>())[A::DIM_PROD * k] = M(v); }
    static std::size_t size_of(int) { return sizeof(M); }
    static void raw_set(char *p, int, long v) { M t = M(v); memcpy(p, &t, sizeof t); }
    static long raw_get(const char *p, int) { M t; memcpy(&t, p, sizeof t); return long(t); }
    static void raw_construct(char *p, int k) { raw_set(p, k, 0); }
    static void raw_destroy(char*, int) {}
};
// two bytes, for grids with very many cells
template<typename CELL> struct slots_tiny
{
    typedef signed char M;
    static const char *name() { return "tiny"; }
    static long get(const CELL& x, int k) { return k ? x.b : x.a; }
    static void set(CELL& x, int k, long v) { (k ? x.b : x.a) = M(v); }
    template<typename A> static long aget(const A& x, int k) { return k ? x.b() : x.a(); }
    template<typename A> static long aget_dyn(const A& x, int k) { return aget(x, k); }
    template<typename A> static void aset(A& x, int k, long v) { (k ? x.b() : x.a()) = M(v); }
    template<typename A> static void aset_dyn(A& x, int k, long v) { aset(x, k, v); }
    template<typename A> static void aset_typed(A& x, int k, long v) { (k ? x.template access_member<M, 1>() : x.template access_member<M, 0>()) = M(v); }
    static std::size_t size_of(int) { return 1; }
    static void raw_set(char *p, int, long v) { *p = char(v); }
    static long raw_get(const char *p, int) { return (signed char)(*p); }
    static void raw_construct(char *p, int) { *p = 0; }
    static void raw_destroy(char*, int) {}
};
#ifdef FAM_TINY
#define GRID_TINY(KIND, ...)                                                    \
    struct Tiny_##KIND { __VA_ARGS__                                            \
        Tiny_##KIND() : a(0), b(0) {}                                           \
        signed char a, b; };                                                    \
    LIBFLATARRAY_REGISTER_SOA(Tiny_##KIND, ((signed char)(a))((signed char)(b))) \
    template<> struct slots<Tiny_##KIND> : slots_tiny<Tiny_##KIND> {};
#else
#define GRID_TINY(KIND, ...)
#endif
#ifdef FAM_SOLE
#define GRID_SOLE(KIND, ...)                                                    \
    struct Sole_##KIND { __VA_ARGS__                                            \
        Sole_##KIND() { for (int i = 0; i < 7; ++i) v[i] = 0; }                 \
        short v[7]; };                                                          \
    LIBFLATARRAY_REGISTER_SOA(Sole_##KIND, ((short)(v)(7)))                     \
    template<> struct slots<Sole_##KIND> : slots_sole<Sole_##KIND, short> {};
#else
#define GRID_SOLE(KIND, ...)
#endif

// members whose constructions and destructions in device memory are counted
#ifdef FAM_DEV
#define GRID_DEV(KIND, ...)                                                     \
    struct Dev_##KIND { __VA_ARGS__                                             \
        Dev_##KIND() : b(0), d(0), e(0) {}                                      \
        DevTracked a; int b; DevTracked c[3]; char d; double e; };              \
    LIBFLATARRAY_REGISTER_SOA(Dev_##KIND, ((DevTracked)(a))((int)(b))((DevTracked)(c)(3))((char)(d))((double)(e))) \
    template<> struct slots<Dev_##KIND> { static const char *name() { return "dev"; } SLOT_STRUCT(Dev_##KIND, DevTracked, int, DevTracked, char, double) };
struct DevTracked
{
    typedef std::set<const void*> Live;
    static Live& live() { static Live l; return l; }
    DevTracked(long v = 0) : v(v) { if (verif_cuda::dev().in_kernel && !live().insert(this).second) rep().fail("LIFE", "constructed over a live member in device memory"); }
    DevTracked(const DevTracked& o) : v(o.v) { if (verif_cuda::dev().in_kernel && !live().insert(this).second) rep().fail("LIFE", "constructed over a live member in device memory"); }
    DevTracked& operator=(const DevTracked& o) { v = o.v; return *this; }
    ~DevTracked() { if (verif_cuda::dev().in_kernel && !live().erase(this)) rep().fail("LIFE", "destroyed a member which was never constructed in device memory"); v = -77; }
    long v;
};
template<> struct conv<DevTracked> { static DevTracked in(long v) { return DevTracked(v); } static long out(const DevTracked& m) { return m.v; } };
#else
#define GRID_DEV(KIND, ...)
#endif

// recorded members of various sizes
#ifdef RECORD
#define GRID_REC(KIND, ...)                                                     \
    struct Rec_##KIND { __VA_ARGS__                                             \
        Rec_##KIND() : b(0) {}                                                  \
        Rec<1> a; int b; Rec<24> c[3]; std::string d; Rec<8> e; };              \
    LIBFLATARRAY_REGISTER_SOA(Rec_##KIND, ((Rec<1>)(a))((int)(b))((Rec<24>)(c)(3))((std::string)(d))((Rec<8>)(e))) \
    template<> struct slots<Rec_##KIND> { static const char *name() { return "rec"; } SLOT_STRUCT(Rec_##KIND, Rec<1>, int, Rec<24>, std::string, Rec<8>) }; \
    struct Sro_##KIND { __VA_ARGS__                                             \
        Rec<3> a, b; Rec<2> c[3]; Rec<16> d; Rec<4> e; };                       \
    LIBFLATARRAY_REGISTER_SOA(Sro_##KIND, ((Rec<3>)(a))((Rec<3>)(b))((Rec<2>)(c)(3))((Rec<16>)(d))((Rec<4>)(e))) \
    template<> struct slots<Sro_##KIND> { static const char *name() { return "sro"; } SLOT_STRUCT(Sro_##KIND, Rec<3>, Rec<3>, Rec<2>, Rec<16>, Rec<4>) }; \
    template<> struct recorded<Sro_##KIND> { static const long MEMBERS = 7; };
#else
#define GRID_REC(KIND, ...)
#endif

#define GRID_CELLS(KIND, ...) GRID_REC(KIND, __VA_ARGS__) GRID_DEV(KIND, __VA_ARGS__) GRID_POD(KIND, __VA_ARGS__) GRID_OBJ(KIND, __VA_ARGS__) GRID_ARR(KIND, __VA_ARGS__) GRID_SOLE(KIND, __VA_ARGS__) GRID_TINY(KIND, __VA_ARGS__)

#ifdef K_AXES
GRID_CELLS(axes, CUSTOM_API(LIBFLATARRAY_CUSTOM_SIZES((8)(16)(24), (4)(12), (2)(6)(10))))
#endif
#ifdef K_UNI1
GRID_CELLS(uni1, CUSTOM_API(LIBFLATARRAY_CUSTOM_SIZES_1D_UNIFORM((4)(10)(64)(100))))
#endif
#ifdef K_UNI2
GRID_CELLS(uni2, CUSTOM_API(LIBFLATARRAY_CUSTOM_SIZES_2D_UNIFORM((8)(16)(40))))
#endif
#ifdef K_UNI3
GRID_CELLS(uni3, CUSTOM_API(LIBFLATARRAY_CUSTOM_SIZES_3D_UNIFORM((4)(8)(12))))
#endif
#ifdef K_WIDE
GRID_CELLS(wide, CUSTOM_API(LIBFLATARRAY_CUSTOM_SIZES((520)(1100), (1)(6), (1)(3))))
#endif
#ifdef K_BIG1
GRID_CELLS(big1, CUSTOM_API(LIBFLATARRAY_CUSTOM_SIZES_1D_UNIFORM((4)(320000000))))
#endif
#ifdef K_BIG3
GRID_CELLS(big3, CUSTOM_API(LIBFLATARRAY_CUSTOM_SIZES((4)(2048), (4)(2048), (2)(520))))
#endif
#ifdef K_ASYM
GRID_CELLS(asym, ASYM_API(LIBFLATARRAY_CUSTOM_SIZES((8)(16), (4)(8), (2)(4))))
#endif
#ifdef K_DEFAULT
GRID_CELLS(default, NO_API)
#endif
#ifdef K_DEFAULT1D
GRID_CELLS(default1d, TRAIT_API(has_default_1d_sizes))
#endif
#endif
