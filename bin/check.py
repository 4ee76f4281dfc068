#!/usr/bin/env python3
"""Decides one property: model checks its TLA+ specification, lets TLC generate
behaviours of the specification, replays them into the code built from /repo's
working tree (or validates traces recorded there against the specification),
and writes evidence/<property>.json.

usage: check.py PROPERTY [quick|thorough]
exit 0: held; exit 1: violation (with a VIOLATION line); exit 2: the check itself failed
"""
import concurrent.futures as cf, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JAVA = ["java", "-XX:+UseSerialGC", "-Xss16m"]
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.modules["check"] = sys.modules[__name__]  # one set of exception classes
import props  # noqa: E402


class CheckError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, data):
        super().__init__(what)
        self.what, self.data = what, data


_running, _running_lock, _stopped = set(), threading.Lock(), threading.Event()


class Stopped(Exception):
    """a violation was found elsewhere, nothing else needs to be run"""


def stop_all():
    with _running_lock:
        _stopped.set()
        for p in _running:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass


def sh(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    with _running_lock:
        if _stopped.is_set():
            raise Stopped()
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd,
                             start_new_session=True)
        _running.add(p)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        rc = "timeout"
    finally:
        with _running_lock:
            _running.discard(p)
    if _stopped.is_set():
        raise Stopped()
    return rc, out.decode("utf-8", "replace")


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.p = props.PROPS[prop]
        self.quick = tier == "quick"
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "model_checking_runs": [], "behaviour_sources": [], "replays": []}
        self.calls = {}
        self.lock = threading.Lock()
        self.big = threading.Lock()
        self.t0 = time.time()

    def q(self, v):
        """tier dependent setting: (quick, thorough) or one value"""
        return v[0 if self.quick else 1] if isinstance(v, tuple) else v

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg, opts, env, timeout, tag, heap="3g"):
        meta = os.path.join(self.dir, "tlc-" + tag)
        os.makedirs(meta, exist_ok=True)
        cmd = ["tlc"] + opts + ["-metadir", meta, "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg),
                                os.path.join(SPEC, module + ".tla")]
        e = {"JAVA_TOOL_OPTIONS": "-Xmx%s -Xss16m -Djava.io.tmpdir=%s" % (heap, meta)}
        e.update(env)
        rc, out = sh(cmd, timeout, e, cwd=meta)
        shutil.rmtree(meta, ignore_errors=True)
        return rc, out

    def model_check(self, m):
        t = time.time()
        cfg = self.q(m["cfg"])
        rc, out = self.tlc(m["module"], cfg, ["-workers", str(m.get("workers", 2))], {}, self.q(m.get("timeout", (400, 3000))),
                           "mc-" + cfg, heap=m.get("heap", "4g"))
        g = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if rc != 0 or not g or "No error has been found" not in out:
            raise CheckError("TLC on %s/%s: rc=%s\n%s" % (m["module"], cfg, rc, out[-3000:]))
        gen, dist = [int(x.replace(",", "")) for x in g[-1]]
        with self.lock:
            self.cov["states"] += dist
            self.cov["transitions"] += gen
            self.cov["model_checking_runs"].append(
                {"module": m["module"], "config": cfg, "distinct_states": dist, "states_generated": gen,
                 "exhaustive": True, "wall_s": round(time.time() - t, 1)})

    def generate(self, g, shard):
        """TLC writes behaviours of the specification into a file"""
        t = time.time()
        cfg = self.q(g["cfg"])
        tag = "%s-%d" % (cfg.replace(".cfg", ""), shard)
        out_file = os.path.join(self.dir, "traces-" + tag)
        depth = self.q(g["depth"])
        env = {"OUT": out_file, "DEPTH": str(depth)}
        for k, v in g.get("env", {}).items():
            env[k] = str(self.q(v))
        exh = g.get("exhaustive", False)
        if exh:
            opts = ["-workers", "1"]
        else:
            num = max(1, self.q(g["num"]) // self.q(g.get("shards", 1)))
            opts = ["-simulate", "num=%d" % num, "-depth", str(depth * g.get("slack", 12) + 50), "-seed",
                    str(self.seed * 10007 + shard * 101 + 1), "-workers", "1"]
        rc, out = self.tlc(g["module"], cfg, opts, env, self.q(g.get("timeout", (500, 3000))), "gen-" + tag,
                           heap=g.get("heap", "3g"))
        n = 0
        if os.path.exists(out_file):
            with open(out_file, "rb") as f:
                n = sum(1 for _ in f)
        if rc != 0 or n == 0 or "rror:" in out:
            raise CheckError("TLC generator %s/%s: rc=%s, %d behaviours\n%s" % (g["module"], cfg, rc, n, out[-3000:]))
        with self.lock:
            src = {"module": g["module"], "config": cfg, "behaviours": n, "depth": depth,
                   "mode": "every transition of the bounded state graph" if exh else "random walks, seed %d" % self.seed,
                   "wall_s": round(time.time() - t, 1)}
            if exh:
                m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
                if m:
                    src["distinct_states"] = int(m[-1][1].replace(",", ""))
            self.cov["behaviour_sources"].append(src)
            if len(self.cov["samples"]) < 6 and shard == 0:
                with open(out_file) as f:
                    line = f.readlines()[n // 2]
                b = json.loads(line)
                b = json.loads(b) if isinstance(b, str) else b
                self.cov["samples"].append({"source": tag, "calls": [s[0] if isinstance(s, list) and s else s for s in b if not isinstance(s, list) or len(s) > 1][:12]})
        return out_file, "last" if exh else "all"

    # ------------------------------------------------------------ builds
    def config_dir(self, cpp14):
        d = os.path.join(self.dir, "cfg14" if cpp14 else "cfg98")
        with self.lock:
            if not os.path.exists(d):
                os.makedirs(os.path.join(d, "libflatarray"))
                with open(os.path.join(d, "libflatarray", "config.h"), "w") as f:
                    f.write("#ifndef VERIF_CONFIG_H\n#define VERIF_CONFIG_H\n%s#endif\n" % ("#define LIBFLATARRAY_WITH_CPP14\n" if cpp14 else ""))
        return d

    def build(self, h, variant):
        src, v = h["src"], props.BUILDS[variant]
        need = v.get("cpu")
        if need and not set(need) <= cpu_flags():
            with self.lock:
                self.cov.setdefault("skipped_builds", []).append({"build": variant, "reason": "this CPU lacks " + ",".join(need)})
            return None
        exe = os.path.join(self.dir, tag_of(h) + "-" + variant)
        inc = os.path.join(REPO, "include")
        if v.get("prepare"):
            inc = v["prepare"](self, inc)
        def command(defs):
            return [v["cxx"], "-std=" + v.get("std", "c++14"), "-w"] + v["flags"] + ["-D" + d for d in defs] + ["-I" + inc, "-I" + self.config_dir(v.get("cpp14", True)), "-I" + HARN,
                                                             "-DVERIF_VARIANT=\"%s\"" % variant,
                                                             os.path.join(HARN, src), "-o", exe] + v.get("libs", [])
        # optional_defs: parts which use more than the public interface
        opt = h.get("optional_defs", [])
        if opt:
            rc, out = sh(command(h.get("defs", []) + opt), 800)
            if rc == 0:
                return exe
            with self.lock:
                self.cov.setdefault("notes", []).append("%s (%s): left out %s, does not compile" % (src, variant, ",".join(opt)))
        cmd = command(h.get("defs", []))
        for attempt in (1, 2):
            rc, out = sh(cmd, 800)
            if rc == 0:
                return exe
        # does the tool chain itself work?
        ctl = os.path.join(self.dir, "control.cpp")
        with open(ctl, "w") as f:
            f.write("#include <vector>\n#include <iostream>\nint main(){ std::vector<int> v(3); std::cout << v.size(); }\n")
        rc2, out2 = sh([v["cxx"], "-std=c++14"] + v["flags"] + [ctl, "-o", ctl + ".exe"] + v.get("libs", []), 200)
        if rc2 != 0 or rc == "timeout" or "error:" not in out:
            raise CheckError("cannot build %s (%s): rc=%s\n%s" % (src, variant, rc, out[-3000:]))
        raise Violation("client code of the public interface (%s, %s) does not compile any more" % (src, variant),
                        {"command": cmd, "log": out[-6000:]})

    # ------------------------------------------------------------ replay
    def run_harness(self, exe, traces, mode, rng=None, timeout=None, extra=None):
        prog = os.path.join(self.dir, "progress-%s-%s" % (os.path.basename(exe), os.path.basename(traces)))
        if rng:
            prog += "-%d" % rng[0]
        cmd = [exe, traces, prog, mode] + ([str(rng[0]), str(rng[1])] if rng else [])
        env = {"ASAN_OPTIONS": "detect_leaks=0:malloc_fill_byte=190:max_malloc_fill_size=1073741824:allocator_may_return_null=1:exitcode=99:detect_stack_use_after_return=0",
               "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0", "UBSAN_OPTIONS": "halt_on_error=1", "RECORD_OUT": prog + ".events"}
        env.update(extra or {})
        rc, out = sh(cmd, timeout or self.q((300, 3000)), env)
        at = None
        try:
            at = open(prog).read().split()
        except OSError:
            pass
        return rc, out, at

    def replay_big(self, exe, traces, mode, gigabytes):
        """one at a time, and only if there is plenty of memory"""
        with self.big:
            avail = [int(l.split()[1]) for l in open("/proc/meminfo") if l.startswith("MemAvailable")][0] >> 20
            if avail < gigabytes:
                with self.lock:
                    self.cov.setdefault("notes", []).append("%s left out: %d GB of memory available, %d needed" % (os.path.basename(exe), avail, gigabytes))
                return
            try:
                self.replay(exe, traces, mode)
            except Violation as v:
                if "rc=-9" not in v.what:
                    raise
                with self.lock:
                    self.cov.setdefault("notes", []).append("%s left out: ended by the system" % os.path.basename(exe))

    def replay(self, exe, traces, mode, record=None):
        t = time.time()
        extra = {}
        if record:
            extra = {"RECORD_OUT": os.path.join(self.dir, "events-%s-%s" % (os.path.basename(exe), os.path.basename(traces))),
                     "RECORD_TOTAL": str(self.q(record["events"]))}
        rc, out, at = self.run_harness(exe, traces, mode, extra=extra)
        if rc == 3:
            raise CheckError("harness %s: %s" % (exe, out[-2000:]))
        if rc == "timeout":
            # a hang counts only if the behaviour it was in hangs on its own again
            n = int(at[0]) if at else 0
            rc2, out2, _ = self.run_harness(exe, traces, mode, (n, n), 120)
            if rc2 != "timeout":
                raise CheckError("harness %s timed out, but behaviour %d does not hang" % (exe, n))
            raise Violation("a call does not return", self.replay_data(exe, traces, n, mode, "hang in behaviour %d step %s" % (n, at[1:2])))
        if rc != 0:
            m = re.search(r"^FAIL class=(\S+) variant=(\S+) trace=(\d+) step=(\d+) call=(\S+) :: (.*)$", out, re.M)
            n = int(m.group(3)) if m else (int(at[0]) if at else 0)
            rc2, out2, at2 = self.run_harness(exe, traces, mode, (n, n))
            if rc2 == 0:
                # state carried over from earlier behaviours? repeat everything.
                rc2, out2, at2 = self.run_harness(exe, traces, mode)
            if rc2 == 0 or rc2 == 3:
                raise CheckError("failure of %s did not repeat: %s" % (exe, out[-2000:]))
            m2 = re.search(r"^FAIL (.*)$", out2, re.M)
            asan = re.search(r"(?:ERROR|WARNING): ((?:Address|Thread)Sanitizer: .*)", out2)
            what = m2.group(1) if m2 else ("%s in behaviour %s step %s" % (asan.group(1) if asan else "abnormal termination rc=%s" % rc2, n, (at2 or ["?", "?"])[1]))
            raise Violation(what, self.replay_data(exe, traces, n, mode, out2[-5000:]))
        s = re.search(r"SUMMARY traces=(\d+) steps=(\d+) checks=(\d+)", out)
        if not s:
            raise CheckError("harness %s printed no summary: %s" % (exe, out[-2000:]))
        with self.lock:
            for name, n in re.findall(r"^CALL (\S+) (\d+)$", out, re.M):
                self.calls[name] = self.calls.get(name, 0) + int(n)
            for note in re.findall(r"^NOTE (.*)$", out, re.M):
                notes = self.cov.setdefault("notes", [])
                if note not in notes and len(notes) < 40:
                    notes.append(note)
            self.cov["traces_validated_against_impl"] += int(s.group(1))
            self.cov["replays"].append({"program": os.path.basename(exe), "behaviours": os.path.basename(traces),
                                        "traces": int(s.group(1)), "calls": int(s.group(2)), "comparisons": int(s.group(3)),
                                        "wall_s": round(time.time() - t, 1)})
        if record:
            self.validate(record["module"], extra["RECORD_OUT"], os.path.basename(exe))

    # ------------------------------------------------------------ recorded traces against the specification
    def accepts(self, module, events, tag):
        """TLC decides which of the recorded behaviours are behaviours of the specification -> [(verdict, behaviour, position)]"""
        out_file = events + ".verdict"
        if os.path.exists(out_file):
            os.unlink(out_file)
        with open(events) as f:
            n = sum(1 for _ in f)
        if n == 0:
            raise CheckError("nothing was recorded in " + events)
        rc, out = self.tlc(module, module + ".cfg", ["-workers", "1"], {"TRACE": events, "OUT": out_file},
                           self.q((600, 3000)), "val-" + tag, heap="4g")
        v = []
        if os.path.exists(out_file):
            for l in open(out_file):
                m = re.match(r'"?(accepted|rejected)"?,(\d+),(\d+)', l)
                if m:
                    v.append((m.group(1), int(m.group(2)), int(m.group(3))))
        if rc != 0 or len(v) != n or "No error has been found" not in out:
            raise CheckError("TLC on recorded traces %s: rc=%s, %d of %d decided\n%s" % (events, rc, len(v), n, out[-3000:]))
        return v

    def validate(self, module, events, tag):
        t = time.time()
        tag = os.path.basename(events)
        verdicts = self.accepts(module, events, tag)
        lines = open(events).read().splitlines()
        for verdict, n, at in verdicts:
            if verdict == "rejected":
                b = json.loads(lines[n - 1])
                raise Violation("recorded behaviour %d is rejected by %s at event %d: %s" % (n, module, at, b[at - 1]),
                                {"program": tag, "module": module, "rejected_event": at, "events": b[:at]})
        total = sum(v[2] for v in verdicts) - len(verdicts)
        with self.lock:
            self.cov["recorded_behaviours_accepted"] = self.cov.get("recorded_behaviours_accepted", 0) + len(verdicts)
            self.cov["recorded_events"] = self.cov.get("recorded_events", 0) + total
            self.cov["replays"].append({"program": tag, "behaviours": "recorded, accepted by " + module, "traces": len(verdicts),
                                        "events": total, "wall_s": round(time.time() - t, 1)})
            first = not self.cov.get("trace_selftest")
            if first:
                self.cov["trace_selftest"] = {"corrupted": 0, "rejected": 0}
        if first:
            # traces which are wrong in one place have to be rejected
            bad = events + "-corrupt"
            with open(bad, "w") as f:
                n = 0
                for k, l in enumerate(lines[:8]):
                    b = json.loads(l)
                    b = corrupt_events(b, k)
                    if b:
                        f.write(json.dumps(b, separators=(",", ":")) + "\n")
                        n += 1
            v = self.accepts(module, bad, tag + "-corrupt")
            rej = sum(x[0] == "rejected" for x in v)
            with self.lock:
                self.cov["trace_selftest"] = {"corrupted": n, "rejected": rej}
            if rej != n:
                raise CheckError("trace self test: %d of %d corrupted traces were accepted" % (n - rej, n))

    def replay_data(self, exe, traces, n, mode, log):
        line = None
        with open(traces) as f:
            for i, l in enumerate(f):
                if i == n:
                    line = l
        b = json.loads(line) if line else None
        return {"program": os.path.basename(exe), "mode": mode, "behaviour": json.loads(b) if isinstance(b, str) else b, "log": log}

    def binding_selftest(self, exe, traces, mode):
        """a corrupted expectation has to be rejected, or the binding is void"""
        with open(traces) as f:
            lines = [next(f, None) for _ in range(40)]
        bad = os.path.join(self.dir, "corrupt-%s-%s" % (os.path.basename(exe), os.path.basename(traces)))
        rejected = tried = 0
        for l in lines:
            if not l or tried >= 5:
                continue
            b = json.loads(l)
            b = json.loads(b) if isinstance(b, str) else b
            if not corrupt(b):
                continue
            with open(bad, "w") as f:
                f.write(json.dumps(b, separators=(",", ":")) + "\n")
            rc, out, _ = self.run_harness(exe, bad, "all")
            if rc == 0 and "SUMMARY traces=0 " in out:
                continue
            tried += 1
            rejected += rc == 1
        if tried and not rejected:
            raise CheckError("binding self test: corrupted behaviours were accepted by " + exe)
        with self.lock:
            o = self.cov.setdefault("binding_selftest", {"corrupted_behaviours": 0, "rejected": 0})
            o["corrupted_behaviours"] += tried
            o["rejected"] += rejected

    # ------------------------------------------------------------ main
    def run(self):
        viol, errs = [], []
        pool = cf.ThreadPoolExecutor(max_workers=7)
        futs = []

        def guarded(fn, *a):
            if _stopped.is_set():
                return None
            try:
                return fn(*a)
            except Violation as v:
                with self.lock:
                    viol.append(v)
                if not any(re.search(k[0], v.what) for k in known_findings(self.prop)):
                    stop_all()
            except Stopped:
                pass
            except CheckError as e:
                with self.lock:
                    errs.append(str(e))
            except Exception as e:  # noqa
                with self.lock:
                    errs.append(repr(e))
            return None

        builds, gens = {}, []
        hs = [(h, b) for h in self.p.get("harness", []) for b in self.q(h["builds"])]
        # generators and builds first, the slow ones among them at the front
        for g in sorted(self.p.get("gen", []), key=lambda g: -g.get("prio", 0)):
            for s in range(self.q(g.get("shards", 1))):
                gens.append((g, s, pool.submit(guarded, self.generate, g, s)))
        for h, b in hs:
            builds[(tag_of(h), b)] = pool.submit(guarded, self.build, h, b)
        for m in self.p.get("mc", []):
            if not m.get("only") or m["only"] == self.tier:
                futs.append(pool.submit(guarded, self.model_check, m))
        for fn in self.p.get("custom", []):
            futs.append(pool.submit(guarded, fn, self))
        jobs = []
        tested = set()
        for h, b in hs:
            exe = builds[(tag_of(h), b)].result()
            if not exe:
                continue
            for g, s, f in gens:
                if g.get("for") and tag_of(h) not in g["for"]:
                    continue
                r = f.result()
                if not r:
                    continue
                if g.get("memory"):
                    jobs.append(pool.submit(guarded, self.replay_big, exe, r[0], r[1], g["memory"]))
                    continue
                jobs.append(pool.submit(guarded, self.replay, exe, r[0], r[1], h.get("record")))
                if s == 0 and tag_of(h) not in tested and not h.get("monitor_only") and not h.get("no_selftest"):
                    tested.add(tag_of(h))
                    jobs.append(pool.submit(guarded, self.binding_selftest, exe, r[0], r[1]))
        for f in futs + jobs:
            f.result()
        pool.shutdown()
        return viol, errs

    def finish(self, viol, errs):
        self.cov["calls_replayed"] = dict(sorted(self.calls.items()))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.p["level"], "coverage": self.cov,
              "assumptions": self.p.get("assumptions", []), "wall_s": round(time.time() - self.t0, 1), "violations": len(viol)}
        if errs:
            ev["coverage"]["errors"] = errs[:5]
        d = os.path.join(VERIF, "evidence")
        os.makedirs(os.path.join(d, "replay"), exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        known = known_findings(self.prop)
        code = 0
        n = 0
        for v in viol:
            hit = [k for k in known if re.search(k[0], v.what)]
            if hit:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, hit[0][1]))
                continue
            code = 1
            n += 1
            if n > 5:
                continue
            path = os.path.join(d, "replay", "%s-%d.json" % (self.prop, n))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "what": v.what, "seed": self.seed, "tier": self.tier, "data": v.data}, f, indent=1)
            print("FOUND: " + v.what[:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        if code == 0 and errs:
            for e in errs[:3]:
                print("ERROR: " + e, file=sys.stderr)
            code = 2
        if code == 0:
            print("OK property=%s tier=%s behaviours=%d comparisons=%d wall=%.0fs" % (
                self.prop, self.tier, self.cov["traces_validated_against_impl"],
                sum(r.get("comparisons", 0) for r in self.cov["replays"]), time.time() - self.t0))
        return code


def tag_of(h):
    return h.get("tag", os.path.basename(h["src"]).replace(".cpp", ""))


def corrupt(b):
    """change one specified number in the state recorded last; False if there is none"""
    steps = [s for s in b if isinstance(s, list) and len(s) > 2]
    for st in reversed(steps):
        if bump(st[2]):
            del b[b.index(st) + 1:]
            return True
    return False


def corrupt_events(b, k):
    """damages a recorded life cycle (see record.hpp) in one of several ways"""
    kinds = {0: 4, 1: 1, 2: 4, 3: 3, 4: 7, 5: 3, 6: 9, 7: 2}
    at = [i for i, e in enumerate(b) if e[0] == kinds[k % 8]]
    if not at:
        return None
    i = at[len(at) // 2]
    e = list(b[i])
    if k % 8 in (0, 1, 4):      # a destruction, construction or release does not happen
        return b[:i] + b[i + 1:]
    if k % 8 == 2:              # destroyed twice
        return b[:i] + [e, e] + b[i + 1:]
    if k % 8 in (3, 5):         # overwritten by a raw copy; assigned from a dead object
        e[2 if k % 8 == 3 else 4] += 1
    if k % 8 == 6:
        e[1] += 1
    if k % 8 == 7:
        return b[:i] + [e, e] + b[i + 1:]
    return b[:i] + [e] + b[i + 1:]


def bump(x):
    if isinstance(x, list):
        for i in range(len(x) - 1, -1, -1):
            if isinstance(x[i], bool) or (i == 0 and (len(x) == 1 or isinstance(x[1], list))):
                continue
            if isinstance(x[i], int) and 0 <= x[i] < 100:
                x[i] += 1
                return True
            if isinstance(x[i], list) and bump(x[i]):
                return True
    return False


_flags = None


def cpu_flags():
    global _flags
    if _flags is None:
        try:
            m = re.search(r"^flags\s*:\s*(.*)$", open("/proc/cpuinfo").read(), re.M)
            _flags = set(m.group(1).split()) if m else set()
        except OSError:
            _flags = set()
    return _flags


def known_findings(prop):
    """lines `known: property=<id> match=/<regex>/ <description>' suppress matching violations"""
    r = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)$", l.strip())
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3)))
    return r


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in props.PROPS:
        print(__doc__, file=sys.stderr)
        return 2
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = Check(sys.argv[1], tier, seed)
    try:
        viol, errs = c.run()
        return c.finish(viol, errs)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(c.dir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
