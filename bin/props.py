"""What each property's check consists of. (quick, thorough) pairs are tier dependent."""
import os
import subprocess

import cudasrc
import metadata

HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
BUILDS = {
    # AddressSanitizer: accesses outside of the memory which belongs to a container abort the replay
    "asan":  dict(cxx="g++", flags=["-g1", "-O1", "-fsanitize=address", "-march=x86-64-v2"]),
    # same, without optimization (compiles much faster)
    "asan0": dict(cxx="clang++", flags=["-g1", "-O0", "-fsanitize=address", "-march=x86-64-v2"]),
    # a different compiler, optimizing, as users would compile
    "opt":   dict(cxx="clang++", flags=["-O2", "-march=x86-64-v2"]),
    # library configured without C++14 support
    "gcc":   dict(cxx="g++", flags=["-O2", "-march=x86-64-v2"]),
    "cpp98": dict(cxx="g++", flags=["-O2", "-march=x86-64-v2"], cpp14=False),
    # the vector back ends; _o: other compiler and optimization
    "scalar":   dict(cxx="clang++", flags=["-g1", "-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-U__SSE__", "-U__SSE2__"]),
    "scalar_o": dict(cxx="g++", flags=["-O2", "-U__SSE__", "-U__SSE2__"]),
    "sse":      dict(cxx="clang++", flags=["-g1", "-O0", "-fsanitize=address", "-U__SSE2__"]),
    "sse_o":    dict(cxx="clang++", flags=["-O2", "-U__SSE2__"]),
    "sse2":     dict(cxx="clang++", flags=["-g1", "-O0", "-fsanitize=address", "-march=x86-64"]),
    "sse2_o":   dict(cxx="g++", flags=["-O2", "-march=x86-64"]),
    "sse41":    dict(cxx="clang++", flags=["-g1", "-O0", "-fsanitize=address", "-march=x86-64-v2"], cpu=["sse4_1"]),
    "sse41_o":  dict(cxx="g++", flags=["-O2", "-march=x86-64-v2"], cpu=["sse4_1"]),
    "avx":      dict(cxx="clang++", flags=["-g1", "-O0", "-fsanitize=address", "-mavx"], cpu=["avx"]),
    "avx_o":    dict(cxx="g++", flags=["-O2", "-mavx"], cpu=["avx"]),
    "avx2":     dict(cxx="clang++", flags=["-g1", "-O0", "-fsanitize=address", "-march=x86-64-v3"], cpu=["avx2", "fma", "bmi2"]),
    "avx2_o":   dict(cxx="g++", flags=["-O2", "-march=x86-64-v3"], cpu=["avx2", "fma", "bmi2"]),
    # (the library uses AVX-512 with GCC only)
    "avx512":   dict(cxx="g++", flags=["-g1", "-O0", "-fsanitize=address", "-march=x86-64-v4"], cpu=["avx512f", "avx512dq", "avx512vl", "avx512bw"]),
    "avx512_o": dict(cxx="g++", flags=["-O2", "-march=x86-64-v4"], cpu=["avx512f", "avx512dq", "avx512vl", "avx512bw"]),
}
# ThreadSanitizer reports accesses which are not ordered, whatever the schedule (linked by hand, as the harness brings its own operator new)
try:
    _tsan = subprocess.run(["clang++", "--print-file-name=libclang_rt.tsan-x86_64.a"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode().strip()
except OSError:
    _tsan = ""
if os.path.isabs(_tsan):
    BUILDS["tsan"] = dict(cxx="clang++", flags=["-g1", "-O0", "-Xclang", "-fsanitize=thread", "-march=x86-64-v2"],
                          libs=["-Wl,--whole-archive," + _tsan + ",--no-whole-archive", "-Wl,--export-dynamic", "-lpthread", "-ldl", "-lrt", "-lresolv", "-lm"])
else:
    BUILDS["tsan"] = dict(cxx="g++", flags=["-g1", "-O0", "-fsanitize=thread", "-march=x86-64-v2"])
BUILDS["tsan_o"] = dict(cxx="g++", flags=["-g1", "-O2", "-fsanitize=thread", "-march=x86-64-v2"])
BUILDS["threads"] = dict(cxx="clang++", flags=["-O2", "-march=x86-64-v2", "-pthread"])
# back ends for other processors, with their intrinsics emulated
BUILDS["neon"]   = dict(cxx="clang++", flags=["-g1", "-O0", "-fsanitize=address", "-U__SSE__", "-U__SSE2__", "-U__LP64__", "-D__ARM_NEON__", "-I" + os.path.join(HARNESS, "neon")])
BUILDS["neon_o"] = dict(cxx="g++", flags=["-O2", "-U__SSE__", "-U__SSE2__", "-U__LP64__", "-D__ARM_NEON__", "-I" + os.path.join(HARNESS, "neon")])
BUILDS["mic"]    = dict(cxx="g++", flags=["-g1", "-O0", "-fsanitize=address", "-mavx512f", "-D__MIC__", "-I" + os.path.join(HARNESS, "mic"), "-include", "mic.h"], cpu=["avx512f"])
BUILDS["mic_o"]  = dict(cxx="g++", flags=["-O2", "-mavx512f", "-D__MIC__", "-I" + os.path.join(HARNESS, "mic"), "-include", "mic.h"], cpu=["avx512f"])
# what device code selects
BUILDS["cudadev"] = dict(cxx="clang++", flags=["-g1", "-O0", "-fsanitize=address", "-D__CUDA_ARCH__=300"])
BUILDS["cudadev_o"] = dict(cxx="g++", flags=["-O2", "-D__CUDA_ARCH__=300"])
EMUS = ["neon", "mic"]
CUDA = ["-D__CUDACC__", "-DLIBFLATARRAY_WITH_CUDA", "-I" + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "cuda"), "-include", "cuda_shim.hpp"]
# gpu_benchmark needs parts of the CUDA runtime
BUILDS["testbed"]   = dict(cxx="g++", flags=["-g1", "-O1", "-fsanitize=address", "-I" + os.path.join(HARNESS, "testbed")])
BUILDS["testbed_o"] = dict(cxx="clang++", flags=["-O2", "-I" + os.path.join(HARNESS, "testbed")])
# CUDA code on an emulated device
BUILDS["cuda"]   = dict(cxx="clang++", flags=["-g1", "-O0", "-fsanitize=address", "-march=x86-64-v2"] + CUDA, prepare=cudasrc.prepare)
BUILDS["cuda_o"] = dict(cxx="g++", flags=["-O2", "-march=x86-64-v2"] + CUDA, prepare=cudasrc.prepare)
ISAS = ["scalar", "sse", "sse2", "sse41", "avx", "avx2", "avx512"]

TECH = "TLA+ specification checked with TLC; behaviours generated by TLC are replayed into the real code"
NOT_APPLICABLE = {}

ALLFAM = ["FAM_POD", "FAM_OBJ", "FAM_ARR", "FAM_SOLE"]


def grid_harness(withs, sets, fams=ALLFAM):
    """sets: name -> (kinds, builds)"""
    return [dict(src="grid_h.cpp", tag="grid_" + n, defs=["K_" + k.upper() for k in kinds] + fams + ["WITH_" + w for w in withs], builds=b)
            for n, (kinds, b) in sets.items()]


GRIDNOTE = (" Grids of every size-trait kind (per-axis, uniform 1D/2D/3D, asymmetric, default) over POD, object, array-member and single-array cell "
            "types; dimensions cluster around the borders of supported sizes. After each call every cell of every grid, dimensions, extents, "
            "storage bytes, exceptions, member life cycles and heap blocks are compared. Trusts TLC, compilers, AddressSanitizer; sizes and "
            "operation sequences beyond those generated are not covered.")


VECNOTE = (" Float division on AVX/AVX-512 and float division by square roots may use reciprocal approximations (relative error up to 2^-11 is accepted); "
           "integer division and square root are compared for magnitudes up to 2^20; offsets for gather/scatter are 64-byte aligned, as AVX-512 demands. "
           "NEON and MIC back ends run on emulated intrinsics (NEON as on 32-bit ARM); QPX, whose headers do not compile, is not covered. Trusts TLC, the compilers and the host's vector units.")


REC = dict(module="LifecycleTrace", events=(90000, 400000))


def mc_grid(*cfgs, **kw):
    return [dict(module="GridMC", cfg="GridMC_%s.cfg" % c, workers=2, **kw) for c in cfgs]


def big_gen(ops, num=(2, 12), depth=(14, 20)):
    """behaviours of grids with more than 2^31 cells or 2^32 bytes"""
    return [dict(module="GridGen", cfg="GridGen_big%s%s.cfg" % (ops, k), depth=depth, num=num, memory=16, **{"for": ["big" + k]}) for k in "13"]


def big_harness(withs):
    return [dict(src="grid_h.cpp", tag="big" + k, defs=["K_BIG" + k, fam, "VERIF_KSLOTS=%d" % n, "WITH_SCAN"] + ["WITH_" + w for w in withs], no_selftest=True, builds=(["opt"], ["opt", "gcc"]))
            for k, fam, n in (("1", "FAM_SOLE", 7), ("3", "FAM_TINY", 2))]


PROPS = {
    "P01": dict(
        technique=TECH,
        note="Grid.tla is model checked (two grids, small extents: writes change exactly the addressed cells); random behaviours of up to 80 calls "
             "(set, set row, broadcast, get, accessor writes, load, transfer, resize) are replayed into soa_grid." + GRIDNOTE,
        level="model_checking",
        mc=mc_grid("map", "map2"),
        gen=[dict(module="GridGen", cfg="GridGen_map.cfg", depth=(50, 80), num=(900, 12000), shards=(3, 6), **{"for": ["grid_a", "grid_b", "grid_c", "grid_d"]})] + big_gen("map"),
        harness=grid_harness(["ACC", "RAW"], dict(
            a=(["uni1", "uni2"], (["asan0"], ["asan0", "opt", "cpp98"])),
            b=(["uni3", "asym"], (["asan0", "gcc"], ["asan0", "gcc", "opt"])),
            c=(["axes"], (["asan0"], ["asan0", "opt"])),
            d=(["default"], (["asan0"], ["asan0", "opt"])))) + big_harness(["ACC", "RAW"]),
    ),
    "P02": dict(
        technique=TECH,
        note="Sizes.tla specifies for every size-trait kind which extents a requested size gets; TLC enumerates all sizes up to the largest "
             "supported ones (densely for small axes, borders +-1 and far beyond for large ones, incl. values which overflow 32 bits) and each is "
             "replayed into the size selection; random behaviours of Grid.tla replay construction, resize, copy and callbacks and compare dimensions, "
             "extents, byte_size and alignment." + GRIDNOTE,
        level="model_checking",
        mc=mc_grid("call1"),
        gen=[dict(module="Sizes", cfg=("SizesQuick.cfg", "SizesGen.cfg"), depth=1, exhaustive=True, **{"for": ["sizes"]}),
             dict(module="GridGen", cfg="GridGen_size.cfg", depth=(40, 60), num=(600, 9000), shards=(2, 6), **{"for": ["grid_a", "grid_b", "grid_c"]})],
        harness=[dict(src="sizes_h.cpp", tag="sizes", builds=(["gcc"], ["gcc", "opt", "cpp98"]))] + grid_harness(["CALL"], dict(
            a=(["uni1", "uni2", "default1d"], (["asan0"], ["asan0", "opt"])),
            b=(["uni3", "asym", "axes"], (["asan0"], ["asan0", "opt"])),
            c=(["default"], (["asan0"], ["asan0", "opt"]))), ["FAM_POD", "FAM_OBJ", "FAM_SOLE"]),
    ),
    "P03": dict(
        technique=TECH,
        note="Model checking of Grid.tla (copies independent, resize/assign/swap semantics, failures change nothing) and replay of random behaviours "
             "of copy, assignment (incl. self), swap, resize and construction with unsupported sizes and with injected allocation failures." + GRIDNOTE,
        level="model_checking",
        mc=mc_grid("value", "value3"),
        gen=[dict(module="GridGen", cfg="GridGen_value.cfg", depth=(50, 80), num=(900, 12000), shards=(3, 6), **{"for": ["grid_a", "grid_b", "grid_c", "grid_d"]})] + big_gen("value"),
        harness=grid_harness([], dict(
            a=(["uni1", "uni2"], (["asan0"], ["asan0", "opt", "cpp98"])),
            b=(["uni3", "asym"], (["asan0", "gcc"], ["asan0", "gcc", "opt"])),
            c=(["axes"], (["asan0"], ["asan0", "opt"])),
            d=(["default"], (["asan0"], ["asan0", "opt"])))) + big_harness([]),
    ),
    "P04": dict(
        technique=TECH,
        note="Model checking of Grid.tla (save reads exactly the streaks in SoA order, load writes them, load after save is the identity) and replay "
             "of random sequences of save, load and transfer between grids (rows, streak sequences incl. empty streaks, via grid and via accessors, "
             "buffers larger than the streaks) against guarded buffers with live member objects." + GRIDNOTE,
        level="model_checking",
        mc=mc_grid("raw1") + mc_grid("raw", only="thorough"),
        gen=[dict(module="GridGen", cfg="GridGen_raw.cfg", depth=(40, 70), num=(900, 12000), shards=(3, 6), **{"for": ["grid_a", "grid_b", "grid_c", "grid_d"]})] + big_gen("raw"),
        harness=grid_harness(["RAW"], dict(
            a=(["uni1", "uni2"], (["asan0"], ["asan0", "opt", "cpp98"])),
            b=(["uni3", "asym"], (["asan0", "gcc"], ["asan0", "gcc", "opt"])),
            c=(["axes"], (["asan0"], ["asan0", "opt"])),
            d=(["default"], (["asan0"], ["asan0", "opt"])))) + big_harness(["RAW"]),
    ),
    "P05": dict(
        technique=TECH,
        note="Model checking of Grid.tla's accessor actions and replay of random accessor reads/writes: all four flavours, five ways to reach the "
             "position, chained relative coordinates, compile-time and run-time array indices, raw member addresses, walking along rows, "
             "(in)equality." + GRIDNOTE,
        level="model_checking",
        mc=mc_grid("acc"),
        gen=[dict(module="GridGen", cfg=("GridGen_accq.cfg", "GridGen_acc.cfg"), depth=(60, 90), num=(900, 12000), shards=(3, 6), **{"for": sum([["grid_" + x + f for x in "abce"] for f in ("FAM_POD", "FAM_OBJ", "FAM_ARR")], [])})] + big_gen("acc"),
        harness=sum([grid_harness(["ACC", "NEIGHBOURS"], {
            "e" + f: (["asym"], (["asan0"], ["asan0", "gcc"])),
            "b" + f: (["uni3"], (["asan0"], ["asan0"])),
            "c" + f: (["axes"], ([], ["asan0"])),
            "a" + f: (["uni1", "uni2"], (["asan0"], ["asan0"]))}, [f]) for f in ("FAM_POD", "FAM_OBJ", "FAM_ARR")], []) + big_harness(["ACC", "NEIGHBOURS"]),
    ),
    "P06": dict(
        technique=TECH,
        note="Model checking of Grid.tla's callbacks (also asymmetric) and replay of random callbacks and dual callbacks on pairs of grids of equal "
             "and different dimensions; number of invocations, storage, extents, position, effects and rejections are compared." + GRIDNOTE,
        level="model_checking",
        mc=mc_grid("call1", "callasym1") + mc_grid("call", "callasym", only="thorough"),
        gen=[dict(module="GridGen", cfg="GridGen_call.cfg", depth=(50, 80), num=(900, 12000), shards=(3, 6))],
        harness=grid_harness(["CALL"], dict(
            a=(["uni1", "uni2"], (["asan0"], ["asan0", "opt", "cpp98"])),
            b=(["uni3"], (["asan0", "gcc"], ["asan0", "gcc", "opt"])),
            e=(["asym"], (["asan0", "gcc"], ["asan0", "gcc", "opt"])),
            c=(["axes"], (["asan0"], ["asan0", "opt"])),
            d=(["default"], (["asan0"], ["asan0", "opt"]))), ["FAM_POD", "FAM_OBJ", "FAM_ARR"]),
    ),
    "P07": dict(
        technique="TLA+ specification checked with TLC; traces recorded from the real code are validated against it by TLC, and behaviours generated by TLC are replayed under life cycle monitors",
        note="Lifecycle.tla specifies memory with stamped objects in blocks of storage; TLC checks that containers built by its rules construct and destroy every object exactly once and leave nothing behind. "
             "TLC-generated call sequences on soa_grid, soa_array and soa_vector (incl. growth, copies, self assignment, load/save, failing calls and failing allocations) are executed with "
             "members of 1 to 24 bytes which record construction, copy, assignment, read and destruction together with the stamp found in memory; TLC validates each recorded "
             "trace event by event. Many more sequences run under an equivalent monitor in the harness, AddressSanitizer and heap accounting. Members whose operations throw are not covered.",
        level="model_checking",
        mc=[dict(module="LifecycleMC", cfg=("LifecycleMC.cfg", "LifecycleMC_T.cfg"), workers=2)],
        gen=[dict(module="SoaArrayGen", cfg="SoaArrayGen.cfg", depth=(25, 40), num=(400, 6000), shards=(1, 3), **{"for": ["array_rec", "array_mon"]}),
             dict(module="SoaVectorGen", cfg="SoaVectorGen.cfg", depth=(25, 40), num=(400, 6000), shards=(1, 3), **{"for": ["vector_rec", "vector_mon"]}),
             dict(module="GridGen", cfg="GridGen_value.cfg", depth=(16, 40), num=(400, 6000), shards=(1, 3), **{"for": ["grid_rec", "grid_mon", "grid_mon2"]}),
             dict(module="GridGen", cfg="GridGen_raw.cfg", depth=(16, 40), num=(300, 6000), shards=(1, 3), **{"for": ["grid_rec", "grid_mon", "grid_mon2"]}),
             dict(module="GridGen", cfg="GridGen_call.cfg", depth=(16, 40), num=(200, 4000), shards=(1, 3), **{"for": ["grid_rec", "grid_mon", "grid_mon2"]})],
        harness=[dict(src="array_h.cpp", tag="array_rec", defs=["RECORD"], monitor_only=True, record=REC, builds=(["asan0"], ["asan0", "gcc"])),
                 dict(src="vector_h.cpp", tag="vector_rec", defs=["RECORD"], monitor_only=True, record=REC, builds=(["asan0"], ["asan0", "gcc"])),
                 dict(src="grid_h.cpp", tag="grid_rec", defs=["RECORD", "K_UNI1", "K_UNI2", "K_UNI3", "K_ASYM", "WITH_RAW", "WITH_CALL"], monitor_only=True, record=REC,
                      builds=(["asan0"], ["asan0", "gcc"])),
                 dict(src="array_h.cpp", tag="array_mon", defs=["LIFE_ONLY"], monitor_only=True, builds=(["asan0"], ["asan0", "opt"])),
                 dict(src="vector_h.cpp", tag="vector_mon", defs=["LIFE_ONLY"], monitor_only=True, builds=(["asan0"], ["asan0", "opt"])),
                 dict(src="grid_h.cpp", tag="grid_mon", defs=["LIFE_ONLY", "FAM_OBJ", "K_UNI1", "K_UNI2", "K_UNI3", "WITH_RAW", "WITH_CALL"], monitor_only=True, builds=(["asan0"], ["asan0", "opt"])),
                 dict(src="grid_h.cpp", tag="grid_mon2", defs=["LIFE_ONLY", "FAM_OBJ", "K_AXES", "K_ASYM", "K_DEFAULT", "WITH_RAW", "WITH_CALL"], monitor_only=True, builds=(["asan0"], ["asan0", "opt"]))],
    ),
    "P08": dict(
        technique=TECH,
        note="Every transition of the bounded state graph (two array objects, capacities 5 and 3) and long random behaviours (four objects, "
             "mixed capacities) of SoaArray.tla are replayed call by call; sizes, elements, raw layout, exceptions, member life cycles and heap "
             "blocks are compared after each call, for POD, array-member and non-trivial cell types, under AddressSanitizer and optimized. "
             "Trusts TLC, the compilers, and that behaviour does not depend on capacities beyond those sampled.",
        level="model_checking",
        mc=[dict(module="SoaArrayMC", cfg="SoaArrayMC.cfg", workers=3)],
        gen=[dict(module="SoaArrayGen", cfg="SoaArrayGen.cfg", depth=(40, 60), num=(600, 8000), shards=(2, 6)),
             dict(module="SoaArrayGen", cfg="SoaArrayExh.cfg", depth=(3, 4), exhaustive=True)],
        harness=[dict(src="array_h.cpp", builds=(["asan", "opt"], ["asan", "opt", "cpp98"]))],
    ),
    "P09": dict(
        technique=TECH,
        note="Every transition of the bounded state graph of SoaVector.tla (two vectors, sizes up to 6) and long random behaviours (three vectors, "
             "cell types with four different size traits, up to the largest supported size) are replayed; size, empty, capacity bounds, elements via "
             "get and via callbacks, exceptions, member life cycles and heap blocks are compared after each call. Allocation failures are injected "
             "into the first or second large allocation of a call and must leave all vectors unchanged. Members whose copying throws are not covered.",
        level="model_checking",
        mc=[dict(module="SoaVectorMC", cfg="SoaVectorMC.cfg", workers=2)],
        gen=[dict(module="SoaVectorGen", cfg="SoaVectorGen.cfg", depth=(50, 80), num=(600, 9000), shards=(2, 6)),
             dict(module="SoaVectorGen", cfg="SoaVectorExh.cfg", depth=(3, 4), exhaustive=True)],
        harness=[dict(src="vector_h.cpp", builds=(["asan0", "opt"], ["asan0", "opt", "gcc", "cpp98"]))],
    ),
    "P10": dict(
        technique=TECH,
        note="Allocator.tla models memory as byte intervals; TLC checks alignment, exclusiveness and room for every chunk address. All combinations of "
             "17 (element size, alignment) pairs, 15 sizes and 18 chunk address residues are replayed with operator new placing the chunk there and canaries "
             "around it, plus random behaviours with four live blocks, allocation failures, overflowing sizes and std containers.",
        level="model_checking",
        mc=[dict(module="AllocatorMC", cfg="AllocatorMC.cfg", workers=2)],
        gen=[dict(module="AllocatorGen", cfg="AllocatorGen.cfg", depth=(60, 100), num=(2000, 20000), shards=(2, 6)),
             dict(module="AllocatorGen", cfg="AllocatorExh.cfg", depth=3, exhaustive=True)],
        harness=[dict(src="alloc_h.cpp", builds=(["asan", "opt", "gcc"], ["asan", "opt", "gcc", "asan0"]))],
    ),
    "P11": dict(
        technique=TECH,
        note="LoopPeeler.tla specifies how iterations are handed out (TLC: every iteration exactly once, in order, chunks aligned, all chunks used, "
             "termination). Every (start, end, arity) with end <= 70 (thorough: 140) and arity 1..32 is replayed through the macro, the template macro and "
             "the C++14 function with five vector types and counters of five types, also at offsets near the counter type's limit. Negative bounds are excluded.",
        level="model_checking",
        mc=[dict(module="LoopPeeler", cfg="LoopPeeler.cfg", workers=2)],
        gen=[dict(module="LoopPeelerGen", cfg=("LoopPeelerGen.cfg", "LoopPeelerDeep.cfg"), depth=1, exhaustive=True)],
        harness=[dict(src="peeler_h.cpp", builds=(["opt", "asan0"], ["opt", "asan0", "gcc", "cpp98"]))],
    ),
    "P12": dict(
        technique=TECH,
        note="ShortVec.tla is a register machine with exact dyadic lanes, IEEE specials and truncating integers; TLC checks its algebraic laws, lane "
             "equivariance and frame conditions. Systematic behaviours (each operation with all register choices on operands whose lanes all differ) "
             "and random programs are replayed into float, double and int vectors of all arities, compiled for nine instruction sets. ShortVecTerms.tla "
             "specifies lanes as terms over scalar operations; its random programs run on floats and doubles of any magnitude and precision and are "
             "compared bit by bit with scalar arithmetic." + VECNOTE,
        level="model_checking",
        mc=[dict(module="ShortVecMC", cfg=("ShortVecMC_arith.cfg", "ShortVecMC_arithT.cfg"), workers=2),
            dict(module="ShortVecTerms", cfg=("ShortVecTerms.cfg", "ShortVecTerms_T.cfg"))],
        gen=[dict(module="ShortVecExh", cfg="ShortVecExh_arith.cfg", depth=3, exhaustive=True, **{"for": ["shortvec"]}),
             dict(module="ShortVecGen", cfg="ShortVecGen_arith.cfg", depth=(50, 80), num=(480, 9000), shards=(4, 6), prio=1, **{"for": ["shortvec"]}),
             dict(module="ShortVecTermsGen", cfg="ShortVecTermsGen.cfg", depth=(40, 60), num=(400, 6000), shards=(2, 6), prio=1, **{"for": ["terms"]})],
        harness=[dict(src="terms_h.cpp", tag="terms", builds=(ISAS + EMUS, ISAS + EMUS + [i + "_o" for i in ISAS + EMUS])),
                 dict(src="shortvec_h.cpp", tag="shortvec", builds=(ISAS + EMUS, ISAS + EMUS + [i + "_o" for i in ISAS + EMUS]))],
    ),
    "P13": dict(
        technique=TECH,
        note="ShortVec.tla's comparisons, masks and blends: TLC checks their laws; all masks of up to 8 lanes, all one-, two-, all-but-one- and all-but-two-lane "
             "masks of 16 and 32 lanes, each comparison with each outcome (and NaN, infinities, signed zeros) in each lane, any() with each single lane "
             "set, and random programs (also those of ShortVecTerms.tla on values of any magnitude) are replayed." + VECNOTE,
        level="model_checking",
        mc=[dict(module="ShortVecMC", cfg=("ShortVecMC_masks.cfg", "ShortVecMC_masksT.cfg"), workers=2)],
        gen=[dict(module="ShortVecExh", cfg="ShortVecExh_mask.cfg", depth=3, exhaustive=True, **{"for": ["shortvec"]}),
             dict(module="ShortVecExh", cfg="ShortVecExh_compare.cfg", depth=3, exhaustive=True, **{"for": ["shortvec"]}),
             dict(module="ShortVecExh", cfg="ShortVecExh_any.cfg", depth=3, exhaustive=True, **{"for": ["shortvec"]}),
             dict(module="ShortVecGen", cfg="ShortVecGen_mask.cfg", depth=(50, 80), num=(500, 9000), shards=(2, 6), prio=1, **{"for": ["shortvec"]}),
             dict(module="ShortVecTermsGen", cfg="ShortVecTermsGen.cfg", depth=(40, 60), num=(300, 6000), shards=(2, 6), prio=1, **{"for": ["terms"]})],
        harness=[dict(src="terms_h.cpp", tag="terms", builds=(ISAS + EMUS, ISAS + EMUS + [i + "_o" for i in ISAS + EMUS])),
                 dict(src="shortvec_h.cpp", tag="shortvec", builds=(ISAS + EMUS, ISAS + EMUS + [i + "_o" for i in ISAS + EMUS]))],
    ),
    "P14": dict(
        technique=TECH,
        note="ShortVec.tla's memory operations: TLC checks footprints and agreement of the ways to access memory; every address (aligned ones exactly as "
             "aligned as the type's alignment demands, not better), families of permuted, strided, negative and colliding offsets, and random programs "
             "are replayed against a guarded memory whose elements are all compared after each call." + VECNOTE,
        level="model_checking",
        mc=[dict(module="ShortVecMC", cfg=("ShortVecMC_memory.cfg", "ShortVecMC_memoryT.cfg"), workers=2)],
        gen=[dict(module="ShortVecExh", cfg="ShortVecExh_memory.cfg", depth=3, exhaustive=True),
             dict(module="ShortVecGen", cfg="ShortVecGen_memory.cfg", depth=(50, 80), num=(500, 9000), shards=(3, 6), prio=1)],
        harness=[dict(src="shortvec_h.cpp", builds=(ISAS + EMUS, ISAS + EMUS + [i + "_o" for i in ISAS + EMUS]))],
    ),
    "P15": dict(
        technique=TECH,
        note="TypeSelection.tla answers every query for nine instruction sets and CUDA device code (ilp_to_arity, estimate_optimum_short_vec_type incl. sizes at and around the cache "
             "size, sibling and streaming switches, alignment), each is compared with the compile-time tables (TLC: vectors fill exactly the registers "
             "asked for, streaming is monotone); accessors of real grids are checked as well. Systematic and random programs of ShortVec.tla are replayed "
             "with streaming_short_vec, whose stores go to memory that is exactly as aligned as alignment<> demands." + VECNOTE,
        level="model_checking",
        mc=[dict(module="ShortVecMC", cfg="ShortVecMC_memory.cfg", workers=2)],
        gen=[dict(module="TypeSelectionGen", cfg="TypeSelectionGen.cfg", depth=1, exhaustive=True, **{"for": ["types"]}),
             dict(module="ShortVecExh", cfg="ShortVecExh_memory.cfg", depth=3, exhaustive=True, **{"for": ["streaming"]}),
             dict(module="ShortVecExh", cfg="ShortVecExh_arith.cfg", depth=3, exhaustive=True, **{"for": ["streaming"]}),
             dict(module="ShortVecGen", cfg="ShortVecGen_mask.cfg", depth=(50, 80), num=(200, 4000), shards=(2, 6), prio=1, **{"for": ["streaming"]}),
             dict(module="ShortVecGen", cfg="ShortVecGen_memory.cfg", depth=(50, 80), num=(200, 4000), shards=(2, 6), prio=1, **{"for": ["streaming"]})],
        harness=[dict(src="types_h.cpp", tag="types", optional_defs=["WITH_DETAIL"], builds=(ISAS + EMUS + ["cudadev"], ISAS + EMUS + ["cudadev"] + [i + "_o" for i in ISAS + EMUS + ["cudadev"]])),
                 dict(src="shortvec_h.cpp", tag="streaming", defs=["STREAMING"], builds=(ISAS + EMUS, ISAS + EMUS + [i + "_o" for i in ISAS + EMUS]))],
    ),
    "P16": dict(
        technique="TLA+ specification checked with TLC; classes and lists generated by TLC from the specification are compiled against the library and compared with it",
        note="Metadata.tla defines number, sizes and offsets of registered members, the addresses which follow from them, and the list macros; TLC checks that "
             "members' arrays tile the storage without overlap (all classes with up to 4 members over the given types). For every list length 1..51 TLC generates "
             "classes (mixed member types, array members, unregistered members, registration order different from declaration order, private members, "
             "several grid extents), whose metadata, member addresses, cells, saved buffers and arrays are compared under AddressSanitizer, and lists for "
             "every list macro. Trusts TLC and the compiler.",
        level="model_checking",
        mc=[dict(module="MetadataMC", cfg=("MetadataMC.cfg", "MetadataMC_T.cfg"))],
        custom=[metadata.run],
    ),
    "P17": dict(
        technique=TECH + " (CUDA kernels run on an emulated device)",
        note="CudaArray.tla (sequences in device memory) and CudaLaunch.tla (each element is handled by exactly one thread) are model checked; Grid.tla covers grids. "
             "Every transition of CudaArray's bounded state graph and random behaviours (sizes around multiples of the block size) are replayed into cuda_array, "
             "random behaviours of Grid.tla (construction, resize, swap, set, rows, broadcast, load, save, transfer) into soa_grid with device functors. No GPU or nvcc here: launches "
             "kernel<<<...>>>(...) are rewritten to calls of an emulation which runs all threads sequentially in varying order, bounds cudaMemcpy to the right kind of "
             "memory and has AddressSanitizer reject accesses to device memory by host code, and to host buffers by kernels. Concurrency of threads, device memory exhaustion and copying of "
             "grids on the device (which the library does not offer) are not covered.",
        level="model_checking",
        mc=[dict(module="CudaArrayMC", cfg=("CudaArrayMC.cfg", "CudaArrayMC_T.cfg"), workers=2), dict(module="CudaLaunch", cfg="CudaLaunch.cfg")],
        gen=[dict(module="CudaArrayGen", cfg="CudaArrayGen.cfg", depth=(40, 60), num=(400, 6000), shards=(1, 3), **{"for": ["cuda_array"]}),
             dict(module="CudaArrayGen", cfg="CudaArrayExh.cfg", depth=(3, 4), exhaustive=True, **{"for": ["cuda_array"]}),
             dict(module="GridGen", cfg="GridGen_cuda.cfg", depth=(40, 60), num=(500, 9000), shards=(2, 6), **{"for": ["cuda_grid_a", "cuda_grid_b", "cuda_grid_c"]}),
             dict(module="SoaArrayGen", cfg="SoaArrayGen.cfg", depth=(40, 60), num=(200, 3000), **{"for": ["cuda_soa_array"]}),
             dict(module="GridGen", cfg="GridGen_cudawide.cfg", depth=(25, 40), num=(18, 300), shards=(3, 6), prio=1, **{"for": ["cuda_grid_w"]})],
        harness=[dict(src="cuda_h.cpp", tag="cuda_array", builds=(["cuda"], ["cuda", "cuda_o"])),
                 dict(src="array_h.cpp", tag="cuda_soa_array", defs=["WITH_CUDA"], builds=(["cuda"], ["cuda", "cuda_o"]))] +
                [dict(src="grid_h.cpp", tag="cuda_grid_" + n, defs=["K_" + k for k in ks] + fs + ["WITH_CUDA", "WITH_RAW", "WITH_CALL"], builds=(["cuda"], ["cuda", "cuda_o"]))
                 for n, ks, fs in (("a", ["UNI1", "UNI2", "UNI3"], ["FAM_POD", "FAM_DEV", "FAM_ARR"]), ("b", ["ASYM", "AXES"], ["FAM_DEV", "FAM_ARR"]), ("c", ["DEFAULT"], ["FAM_DEV", "FAM_POD"]), ("w", ["WIDE"], ["FAM_DEV"]))],
    ),
    "P18": dict(
        technique="TLA+ specification checked with TLC; behaviours generated by TLC are executed by concurrent threads under ThreadSanitizer and compared with the specified results",
        note="Concurrent.tla lets threads use grids which are local to one thread, shared for reading, or whose cells are divided among the threads (by rows, cells or blocks of three cells), "
             "with all steps interleaving freely between barriers; TLC checks that each thread always sees what it would see alone. Random behaviours (four threads, three grids: construction, "
             "copies, resize, rows, broadcast, accessors incl. neighbours, load, save, callbacks, dual callbacks) are executed by real, otherwise unsynchronized threads; each call's result and all cells "
             "after each barrier are compared, and ThreadSanitizer reports unordered accesses whichever schedule happens. Behaviours of the other specifications (arrays, vectors, grids, "
             "allocators, loop peelers, short vectors, size selection) are replayed by four threads at a time, each with its own objects, and finally each object is read by three threads at once. "
             "ThreadSanitizer does not see accesses by streaming instructions; what the device does concurrently is not covered. Trusts TLC, the compilers and ThreadSanitizer.",
        level="model_checking",
        mc=[dict(module="ConcurrentMC", cfg=("ConcurrentMC.cfg", "ConcurrentMC_T.cfg"), workers=2, timeout=(600, 3000))],
        gen=[dict(module="ConcurrentGen", cfg="ConcurrentGen.cfg", depth=(120, 200), num=(160, 2400), shards=(2, 4), slack=20, prio=1, **{"for": ["conc", "conc2"]}),
             dict(module="SoaVectorGen", cfg="SoaVectorGen.cfg", depth=(30, 50), num=(120, 1200), **{"for": ["vectors"]}),
             dict(module="SoaArrayGen", cfg="SoaArrayGen.cfg", depth=(30, 50), num=(120, 1200), **{"for": ["arrays"]}),
             dict(module="AllocatorGen", cfg="AllocatorGen.cfg", depth=(40, 60), num=(160, 1600), **{"for": ["allocators"]}),
             dict(module="GridGen", cfg="GridGen_value.cfg", depth=(30, 50), num=(120, 1200), **{"for": ["grids"]}),
             dict(module="GridGen", cfg="GridGen_call.cfg", depth=(30, 50), num=(120, 1200), **{"for": ["grids"]}),
             dict(module="LoopPeelerGen", cfg="LoopPeelerGen.cfg", depth=1, exhaustive=True, **{"for": ["peelers"]}),
             dict(module="ShortVecGen", cfg="ShortVecGen_arith.cfg", depth=(30, 50), num=(60, 600), **{"for": ["shortvecs"]}),
             dict(module="ShortVecGen", cfg="ShortVecGen_memory.cfg", depth=(30, 50), num=(60, 600), **{"for": ["shortvecs"]}),
             dict(module="Sizes", cfg="SizesQuick.cfg", depth=1, exhaustive=True, **{"for": ["sizesel"]})],
        harness=[dict(src="grid_h.cpp", tag="conc", defs=["VERIF_CONC", "K_UNI2", "K_ASYM", "FAM_OBJ", "FAM_ARR", "WITH_ACC", "WITH_NEIGHBOURS", "WITH_RAW", "WITH_CALL"], builds=(["tsan"], ["tsan", "threads"])),
                 dict(src="grid_h.cpp", tag="grids", defs=["VERIF_THREADS=4", "K_UNI1", "K_AXES", "FAM_OBJ", "WITH_CALL"], builds=(["tsan"], ["tsan", "threads"]))] +
                [dict(src=src + "_h.cpp", tag=tag, defs=["VERIF_THREADS=4"], builds=(["tsan"], ["tsan", "threads"]))
                 for src, tag in (("vector", "vectors"), ("array", "arrays"), ("alloc", "allocators"), ("peeler", "peelers"), ("shortvec", "shortvecs"), ("sizes", "sizesel"))],
    ),
    "P19": dict(
        technique=TECH,
        note="Testbed.tla specifies evaluate (which benchmarks run, how often and with which dimensions, what is printed), cpu_benchmark and gpu_benchmark with the machine's "
             "self description as part of the state; TLC checks that every run prints one line at most, which can be taken apart again and is aligned with the header, and that devices' "
             "names stem from the environment. Random behaviours are replayed with a substituted likwid-topology, /proc/cpuinfo and CUDA runtime; open files and child processes are counted. "
             "Model names are generated without runs of blanks, colons and commas; each likwid entry occurs once at most. Date and host name are compared with the machine's.",
        level="model_checking",
        mc=[dict(module="TestbedMC", cfg="TestbedMC.cfg", workers=2)],
        gen=[dict(module="TestbedGen", cfg="TestbedGen.cfg", depth=(30, 60), num=(300, 4000), shards=(1, 4))],
        harness=[dict(src="testbed_h.cpp", builds=["testbed", "testbed_o"])],
    ),
}
