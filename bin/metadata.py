"""P16: turns the classes and lists which TLC generated from Metadata.tla into client code of the library."""
import concurrent.futures as cf
import json
import os

HEAD = r'''
#include <libflatarray/flat_array.hpp>
#include <libflatarray/member_ptr_to_offset.hpp>
#include <libflatarray/preprocessor.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <stdexcept>
#include <vector>
using namespace LibFlatArray;
struct B3  { char v[3];   bool operator==(const B3& o)  const { return std::memcmp(v, o.v, 3) == 0; } };
struct B16 { double v[2]; bool operator==(const B16& o) const { return v[0] == o.v[0] && v[1] == o.v[1]; } };
template<typename T> T make(long n) { return T(n % 100); }
template<> B3  make<B3>(long n)  { B3 r;  r.v[0] = char(n % 100); r.v[1] = char(n / 100 % 100); r.v[2] = char(n / 10000 % 100); return r; }
template<> B16 make<B16>(long n) { B16 r; r.v[0] = double(n); r.v[1] = -double(n); return r; }
template<> float  make<float>(long n)  { return float(n) * 0.5f; }
template<> double make<double>(long n) { return double(n) * 0.25; }
template<> int    make<int>(long n)    { return int(n) * 31; }
template<> long   make<long>(long n)   { return n * 1000003; }
static long checks = 0;
static void expect(const char *what, int cell, long spec, long got)
{
    ++checks;
    if (spec != got) { std::printf("FAIL %s of class %d: specified %ld, got %ld\n", what, cell, spec, got); std::fflush(stdout); std::exit(1); }
}
'''


def cell_code(b):
    L, copy, decl, reg, number, total, ext, samples, offsets, _ = b
    n = "C%d_%d" % (L, copy)
    cid = L * 100 + copy
    private = (L + copy) % 2
    o = ["class %s {\npublic:" % n]
    o.append("    class API { public: LIBFLATARRAY_CUSTOM_SIZES((%d), (%d), (%d)) };" % tuple(ext))
    if private:
        o.append("    LIBFLATARRAY_ACCESS")
    o.append("    static int lookup(int d)\n    {\n        member_ptr_to_offset f;\n        try {\n            switch (d) {")
    for d in range(len(decl)):
        o.append("            case %d: return f(&%s::m%d);" % (d + 1, n, d + 1))
    o.append("            }\n        } catch (const std::invalid_argument&) { return -1; }\n        return -2;\n    }")
    o.append("    void fill(long s)\n    {")
    for d, (ty, ln, off) in enumerate(decl):
        if ln == 0:
            o.append("        m%d = make<%s>(s + %d);" % (d + 1, ty, 97 * d))
        else:
            o.append("        for (int k = 0; k < %d; ++k) m%d[k] = make<%s>(s + %d + k);" % (ln, d + 1, ty, 97 * d))
    o.append("    }")
    # compares registered members only, the others do not take part
    o.append("    int differs(const %s& o) const\n    {" % n)
    for d, (ty, ln, off) in enumerate(decl):
        if off < 0:
            continue
        if ln == 0:
            o.append("        if (!(m%d == o.m%d)) return %d;" % (d + 1, d + 1, d + 1))
        else:
            o.append("        for (int k = 0; k < %d; ++k) if (!(m%d[k] == o.m%d[k])) return %d;" % (ln, d + 1, d + 1, d + 1))
    o.append("        return 0;\n    }")
    o.append("    int compare_raw(const char *buf, std::size_t i, std::size_t count) const\n    {")
    for p, d in enumerate(reg):
        ty, ln, off = decl[d - 1]
        for k in range(max(1, ln)):
            o.append("        { %s v; std::memcpy(&v, buf + %d * count + (%d * count + i) * sizeof(v), sizeof(v)); if (!(v == m%d%s)) return %d; }"
                     % (ty, offsets[p], k, d, "[%d]" % k if ln else "", d))
    o.append("        return 0;\n    }")
    if private:
        o.append("private:")
    for d, (ty, ln, off) in enumerate(decl):
        o.append("    %s m%d%s;" % (ty, d + 1, "[%d]" % ln if ln else ""))
    o.append("};")
    lst = "".join("((%s)(m%d)%s)" % (decl[d - 1][0], d, "(%d)" % decl[d - 1][1] if decl[d - 1][1] else "") for d in reg)
    o.append("LIBFLATARRAY_REGISTER_SOA(%s, %s)" % (n, lst))
    o.append("""struct F%s {
    const char *base;
    template<typename A> void operator()(A& a) const
    {
        expect("extent", %d, %d, A::DIM_PROD);""" % (n, cid, ext[0] * ext[1] * ext[2]))
    for i, k, c, addr in samples:
        d = reg[i - 1]
        ln = decl[d - 1][1]
        o.append("        a.index() = A::gen_index(long(%d), long(%d), long(%d)); expect(\"address of a member\", %d, %d, (const char*)&a.m%d()%s - base);"
                 % (c[0], c[1], c[2], cid, addr, d, "[%d]" % k if ln else ""))
    o.append("    }\n};")
    o.append("void test_%s()\n{" % n)
    o.append("    expect(\"number_of_members\", %d, %d, number_of_members<%s>::VALUE);" % (cid, number, n))
    o.append("    expect(\"aggregated_member_size\", %d, %d, aggregated_member_size<%s>::VALUE);" % (cid, total, n))
    for d, (ty, ln, off) in enumerate(decl):
        o.append("    expect(\"offset of member %d\", %d, %d, %s::lookup(%d));" % (d + 1, cid, off, n, d + 1))
    o.append("    soa_grid<%s> g(%d, %d, %d);" % ((n,) + tuple(ext)))
    o.append("    expect(\"byte_size\", %d, %d, g.byte_size());" % (cid, total * ext[0] * ext[1] * ext[2]))
    o.append("    F%s f; f.base = g.data(); g.callback(f);" % n)
    o.append("""    std::vector<%(n)s> ref(%(x)d * %(y)d * %(z)d);
    for (int z = 0; z < %(z)d; ++z) for (int y = 0; y < %(y)d; ++y) for (int x = 0; x < %(x)d; ++x) {
        %(n)s& c = ref[(z * %(y)d + y) * %(x)d + x]; c.fill(x * 7 + y * 57 + z * 1009); g.set(x, y, z, c); }
    for (int z = 0; z < %(z)d; ++z) for (int y = 0; y < %(y)d; ++y) {
        for (int x = 0; x < %(x)d; ++x) {
            %(n)s c = g.get(x, y, z);
            expect("member after set and get", %(cid)d, 0, c.differs(ref[(z * %(y)d + y) * %(x)d + x])); }
        std::vector<char> buf(%(total)d * %(x)d);
        g.save(0, y, z, buf.data(), %(x)d);
        for (int x = 0; x < %(x)d; ++x) expect("member in saved data", %(cid)d, 0, ref[(z * %(y)d + y) * %(x)d + x].compare_raw(buf.data(), x, %(x)d));
    }
    for (std::size_t i = 0; i < ref.size(); ++i) expect("member in the grid's storage", %(cid)d, 0, ref[i].compare_raw(g.data(), i, ref.size()));
    soa_array<%(n)s, 8> a;
    for (int i = 0; i < 5; ++i) a.push_back(ref[i]);
    expect("byte_size of an array", %(cid)d, 5 * %(total)d, a.byte_size());
    for (int i = 0; i < 5; ++i) { %(n)s c = a[i]; expect("member in an array", %(cid)d, 0, c.differs(ref[i])); expect("member in an array's storage", %(cid)d, 0, ref[i].compare_raw(a.data(), i, 8)); }
}""" % dict(n=n, x=ext[0], y=ext[1], z=ext[2], cid=cid, total=total))
    return n, "\n".join(o)


def list_code(b):
    L, copy = b[0], b[1]
    lst, size, elems, each, shorter = b[9]
    n = "L%d_%d" % (L, copy)
    cid = L * 100 + copy
    t = "".join("(%d)" % e for e in lst)
    o = ["static void list_%s()\n{" % n]
    o.append("    expect(\"LIBFLATARRAY_SIZE\", %d, %d, LIBFLATARRAY_SIZE(%s));" % (cid, size, t))
    o.append("    expect(\"LIBFLATARRAY_SIZE of the dequeued list\", %d, %d, LIBFLATARRAY_SIZE(LIBFLATARRAY_DEQUEUE(%s)));" % (cid, size - 1, t))
    for i, e in enumerate(elems):
        o.append("    expect(\"LIBFLATARRAY_ELEM(%d)\", %d, %d, LIBFLATARRAY_ELEM(%d, %s));" % (i, cid, e, i, t))
    for k, r in enumerate(shorter):
        o.append("    expect(\"LIBFLATARRAY_IF_SHORTER(%d)\", %d, %d, LIBFLATARRAY_IF_SHORTER(%s, %d, 1, 2));" % (k, cid, r, t, k))
    o.append("    { long spec[][2] = {%s}; int at = 0;" % ", ".join("{%d, %d}" % tuple(p) for p in each))
    o.append("    #define VISIT(INDEX, ARG, ITEM) expect(\"index in LIBFLATARRAY_FOR_EACH\", %d, spec[at < %d ? at : 0][0], INDEX); expect(\"item in LIBFLATARRAY_FOR_EACH\", %d, spec[at < %d ? at : 0][1], ITEM); expect(\"argument in LIBFLATARRAY_FOR_EACH\", %d, 4711, ARG); ++at;"
             % (cid, len(each), cid, len(each), cid))
    o.append("    LIBFLATARRAY_FOR_EACH(VISIT, 4711, %s)" % t)
    o.append("    expect(\"iterations of LIBFLATARRAY_FOR_EACH\", %d, %d, at); }" % (cid, len(each)))
    o.append("    #undef VISIT\n}")
    return "list_" + n, "\n".join(o)


def run(check):
    import props
    from check import CheckError, Violation, sh, REPO
    copies = check.q((1, 3))
    out_file, _ = check.generate(dict(module="MetadataGen", cfg="MetadataGen.cfg", depth=1, exhaustive=True, env={"COPIES": copies}), 0)
    rows = []
    for l in open(out_file):
        b = json.loads(l)
        rows.append(json.loads(b) if isinstance(b, str) else b)
    if {r[0] for r in rows} != set(range(1, 52)):
        raise CheckError("not all list lengths were generated")
    rows.sort(key=lambda r: (r[1], r[0]))
    parts = []
    chunk = {}
    for i, r in enumerate(rows):
        chunk.setdefault(i % (13 * copies), []).append(r)
    for k, rs in chunk.items():
        fn = [cell_code(r) for r in rs]
        parts.append(("cells%d" % k, fn, [f[0] for f in fn], rs))
    fn = [list_code(r) for r in rows if r[1] == 1]
    parts.append(("lists", fn, [f[0] for f in fn], None))
    builds = check.q((["asan0"], ["asan0", "gcc"]))

    def one(part, variant):
        name, fns, calls, rs = part
        v = props.BUILDS[variant]
        src = os.path.join(check.dir, "meta-%s.cpp" % name)
        exe = src[:-4] + "-" + variant
        calls = [c if c.startswith("list_") else "test_" + c for c in calls]
        with open(src, "w") as f:
            f.write(HEAD + "\n".join(c for _, c in fns) + "\nint main()\n{\n" + "".join("    %s();\n" % c for c in calls)
                    + "    std::printf(\"SUMMARY checks=%ld\\n\", checks);\n}\n")
        cmd = [v["cxx"], "-std=c++14", "-w"] + v["flags"] + ["-I" + os.path.join(REPO, "include"), "-I" + check.config_dir(True), src, "-o", exe]
        rc, out = sh(cmd, 600)
        if rc == "timeout":
            raise CheckError("compiler timed out on " + src)
        data = {"source": open(src).read()[:400000], "command": cmd}
        if rc != 0:
            rc, out = sh(cmd, 600)
            ctl = os.path.join(check.dir, "meta-control-%s-%s.cpp" % (name, variant))
            open(ctl, "w").write("#include <vector>\nint main(){ std::vector<int> v(3); }\n")
            rc2, _ = sh([v["cxx"], "-std=c++14"] + v["flags"] + [ctl, "-o", ctl + ".exe"], 200)
            if rc2 != 0 or "error:" not in out:
                raise CheckError("cannot compile %s: %s" % (src, out[-2000:]))
            raise Violation("classes or lists of supported length do not compile (%s): %s" % (name, [l for l in out.splitlines() if "error:" in l][:1]), dict(data, log=out[-4000:]))
        rc, out = sh([exe], 300)
        if rc == "timeout":
            raise CheckError("program hangs: " + src)
        if rc != 0:
            m = [l for l in out.splitlines() if l.startswith("FAIL") or "AddressSanitizer" in l]
            raise Violation(m[0] if m else "abnormal termination (%s) of %s" % (rc, name), dict(data, log=out[-4000:]))
        n = int(out.split("SUMMARY checks=")[1].split()[0])
        with check.lock:
            check.cov["traces_validated_against_impl"] += len(fns)
            check.cov["replays"].append({"program": os.path.basename(exe), "behaviours": "MetadataGen", "traces": len(fns), "calls": len(calls), "comparisons": n})

    first = None
    with cf.ThreadPoolExecutor(max_workers=7) as pool:
        fs = [pool.submit(one, p, v) for v in builds for p in parts]
        for f in fs:
            try:
                f.result()
            except (Violation, CheckError) as e:
                if first is None or (isinstance(first, CheckError) and isinstance(e, Violation)):
                    first = e
    if first:
        raise first
    # a wrong number has to be noticed
    bad = json.loads(json.dumps(rows[5]))
    bad[5] += 1
    try:
        one(("selftest", [cell_code(bad)], [cell_code(bad)[0]], None), "asan0")
    except Violation:
        check.cov["binding_selftest"] = {"corrupted_behaviours": 1, "rejected": 1}
    else:
        raise CheckError("binding self test: a corrupted behaviour was accepted")
