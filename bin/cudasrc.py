"""A copy of the library's headers in which kernel<<<grid, block>>>(args) is a call which any C++
compiler understands (see harness/cuda/cuda_shim.hpp). Nothing else is changed."""
import os
import re
import shutil


def close(s, i, o="(", c=")"):
    """index behind the bracket which closes s[i]"""
    n = 0
    while i < len(s):
        n += {o: 1, c: -1}.get(s[i], 0)
        i += 1
        if n == 0:
            return i
    raise ValueError("unbalanced brackets")


def blank_comments(s):
    def f(m):
        return re.sub(r"[^\n]", " ", m.group(0)) if m.group(0)[0] == "/" else m.group(0)
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"', f, s, flags=re.S)


def rewrite(src):
    s = blank_comments(src)
    while "<<<" in s:
        a = s.index("<<<")
        b = s.index(">>>", a)
        e = close(s, s.index("(", b))
        # the kernel's name (with template parameters) in front of <<<
        i = max(s.rfind(c, 0, a) for c in ";{}") + 1
        # (statement may follow a preprocessor directive, `else', a label or a condition)
        k = re.search(r"((?:::)?[A-Za-z_][\w:]*\s*(?:<[^;{}]*>)?\s*)$", s[i:a])
        i += k.start()
        args = s[s.index("(", b) + 1:e - 1]
        call = "::verif_cuda::launch(::verif_cuda::config(%s), [&](auto... verif_a) { %s(verif_a...); }%s)" % (
            s[a + 3:b], s[i:a].strip(), ", " + args if args.strip() else "")
        s = s[:i] + call + s[e:]
    return s


def prepare(check, inc):
    d = os.path.join(check.dir, "cuda-include")
    with check.lock:
        if not os.path.exists(d):
            tmp = d + ".tmp"
            shutil.copytree(inc, tmp)
            for root, _, files in os.walk(tmp):
                for f in files:
                    p = os.path.join(root, f)
                    t = open(p, encoding="utf-8", errors="surrogateescape").read()
                    if "<<<" in t:
                        open(p, "w", encoding="utf-8", errors="surrogateescape").write(rewrite(t))
            os.rename(tmp, d)
    return d
