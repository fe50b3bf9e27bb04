#!/usr/bin/env python3
"""Decide one property of householder by running its monitors.

    check.py C07                 tier and seed from VERIF_TIER / VERIF_SEED
    check.py C07 --tier thorough --seed 5
    check.py --replay FILE       run the recorded violation again

Exit 0: the property held on everything explored (KNOWN-FINDING lines name the
recorded findings that were seen again).  Exit 1: a VIOLATION line.  Exit 2:
no verdict (build failure, watchdog, monitor fault, or nothing was observed).
"""
import argparse
import concurrent.futures as cf
import json
import os
import re
import signal
import shutil
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, ".build")
EVID = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(HERE, "replays")
FINDINGS = os.path.join(HERE, "known-findings.txt")
HOST = "x86_64-unknown-linux-gnu"
BORROW = os.path.join(HARNESS, "borrow")
CORES = os.cpu_count() or 4
# the monitoring heap refuses single requests beyond this many bytes
HEAP_CAP = 8 << 30

CRASH = {signal.SIGSEGV: "SIGSEGV", signal.SIGABRT: "SIGABRT", signal.SIGBUS: "SIGBUS",
         signal.SIGILL: "SIGILL", signal.SIGFPE: "SIGFPE", signal.SIGTRAP: "SIGTRAP"}

MIRI_SB = "-Zmiri-disable-isolation -Zmiri-deterministic-floats"
MIRI_TB = MIRI_SB + " -Zmiri-tree-borrows"


def cfg(name, **kw):
    d = dict(name=name, factor=1.0, procs=1, cases=None, args=[])
    d.update(kw)
    return d


def plan(prop, tier):
    """Which builds run the workload of a property, and how much of it."""
    th = tier == "thorough"
    dev, rel = cfg("dev"), cfg("release", factor=4.0)
    asan, tsan = cfg("asan", factor=0.5), cfg("tsan", factor=0.25)
    sb = cfg("miri-sb", procs=4, cases=8)
    tb = cfg("miri-tb", procs=4, cases=8)
    if th:
        sb, tb = cfg("miri-sb", procs=4, cases=150), cfg("miri-tb", procs=4, cases=100)
    if prop == "C05":
        out = [dev, dict(rel, factor=1.5), dict(asan, factor=0.2), dict(sb, procs=6, cases=150 if th else 4)]
    elif prop == "C10":
        out = [dev, dict(rel, factor=1.5), tsan, dict(sb, procs=6, cases=60 if th else 2)]
    elif prop == "C21":
        out = [dev, rel, asan] + ([sb] if th else [])
    elif prop == "C24":
        out = [dev, rel, dict(sb, cases=250 if th else 30), dict(tb, cases=200 if th else 24)]
    elif prop in ("C08", "C09", "C19"):
        out = [dev, rel] + ([asan, sb, tb] if th else [])
    else:
        out = [dev, rel] + ([asan, dict(sb, cases=60)] if th else [])
    return out


def base_env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "MIRIFLAGS",
              "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "HH_SHOW_PANICS", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUST_BACKTRACE"] = "0"
    return e


def builder(c, bins):
    """Command, environment and path pattern of the build of a configuration."""
    e = base_env()
    n = c["name"]
    sel = []
    for b in bins:
        sel += ["--bin", b]
    td = os.path.join(BUILD, n)
    if n == "dev":
        return (["cargo", "build", "--offline", "--target-dir", td] + sel, e, os.path.join(td, "debug"))
    if n == "release":
        return (["cargo", "build", "--release", "--offline", "--target-dir", td] + sel, e, os.path.join(td, "release"))
    if n == "asan":
        e["RUSTFLAGS"] = "-Zsanitizer=address -Cdebug-assertions=on -Coverflow-checks=off -Copt-level=1"
        return (["cargo", "+nightly", "build", "--offline", "--target", HOST, "--features", "plainheap",
                 "--target-dir", td] + sel, e, os.path.join(td, HOST, "debug"))
    if n == "tsan":
        e["RUSTFLAGS"] = "-Zsanitizer=thread -Copt-level=1"
        return (["cargo", "+nightly", "build", "-Zbuild-std", "--offline", "--target", HOST, "--features",
                 "plainheap", "--target-dir", td] + sel, e, os.path.join(td, HOST, "debug"))
    if n.startswith("miri"):
        e["MIRIFLAGS"] = MIRI_TB if n == "miri-tb" else MIRI_SB
        return (["cargo", "+nightly", "miri", "run", "-q", "--offline", "--target-dir", os.path.join(BUILD, "miri")]
                + sel + ["--", "--cases", "0", "--no-probes", "x"], e, None)
    raise SystemExit("no such configuration: " + n)


def miri_sysroot():
    """The interpreter's standard library: the user's cached one, else one below .build."""
    err = ""
    for own in (False, True):
        e = base_env()
        if own:
            e["XDG_CACHE_HOME"] = os.path.join(BUILD, "miri-sysroot")
            os.makedirs(e["XDG_CACHE_HOME"], exist_ok=True)
        r = subprocess.run(["cargo", "+nightly", "miri", "setup", "--print-sysroot"], cwd=HARNESS, env=e,
                           capture_output=True, text=True, timeout=400)
        p = r.stdout.strip().splitlines()
        if r.returncode == 0 and p:
            return p[-1], ""
        err = r.stderr[-2000:]
    return None, err


def misuse_command(name, control, sysroot):
    e = base_env()
    e["MIRIFLAGS"] = MIRI_SB + " -Zmiri-ignore-leaks"
    e["MIRI_SYSROOT"] = sysroot
    return (["cargo", "+nightly", "miri", "run", "-q", "--offline", "--bin", name, "--target-dir",
             os.path.join(BUILD, "borrow-miri")] + (["--features", "control"] if control else []), e)


class Verdict:
    def __init__(self):
        self.violations = []   # (config, sig, msg, replay dict)
        self.known = []        # text
        self.unclear = []      # text
        self.reports = []
        self.notes = []


def findings():
    """known-findings.txt: `known: property=<id> probe=<name> sig=<sig> -- text`."""
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"known: property=(\S+) probe=(\S+) sig=(\S+) -- (.*)", line.strip())
            if m:
                out[(m.group(1), m.group(2), m.group(3))] = m.group(4)
    return out


# seconds after which a case that has not ended is looked at more closely
STUCK = int(os.environ.get("HH_STUCK", "150"))


def run_cmd(cmd, env, timeout, cwd=HARNESS):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors="replace", start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e, False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return None, o, e, True


def run_env(name):
    e = base_env()
    if name == "asan":
        e["ASAN_OPTIONS"] = "detect_leaks=0:halt_on_error=1:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=4096"
    if name == "tsan":
        e["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=66:report_signal_unsafe=0"
    return e


def sanitizer_report(name, err):
    """The first lines of a sanitizer report, or None."""
    if name == "asan":
        m = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
        if m:
            kind = m.group(1)
            if kind in ("out-of-memory", "requested-allocation-size") or "allocation-size-too-big" in err:
                return ("allocation", err[m.start():m.start() + 400])
            return ("asan:" + kind, err[m.start():m.start() + 1800])
    if name == "tsan":
        m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", err)
        if m:
            return ("tsan:" + m.group(1).strip().replace(" ", "-"), err[m.start():m.start() + 2500])
    if name.startswith("miri"):
        m = re.search(r"error: (Undefined Behavior: [^\n]*|memory leaked[^\n]*|abnormal termination[^\n]*|"
                      r"deadlock[^\n]*|the evaluated program (?:aborted|deadlocked|leaked)[^\n]*|"
                      r"post-monomorphization[^\n]*)", err)
        if m:
            t = re.sub(r"<\d+>|alloc\d+|\d+", "N", m.group(1))
            return ("miri:" + t, err[m.start():m.start() + 2500])
    return None


def crashed(rc, err):
    """(violation?, text) of a process that a signal ended."""
    s = -rc if rc is not None and rc < 0 else None
    if s is None and rc is not None and rc > 128:
        s = rc - 128
    name = CRASH.get(s)
    if not name:
        return False, "ended with status %s: %s" % (rc, err[-400:])
    m = re.search(r"memory allocation of (\d+) bytes failed", err)
    if m and int(m.group(1)) <= HEAP_CAP:
        return False, "out of memory: " + m.group(0)
    return True, "%s: %s" % (name, err.strip()[-600:])


class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.bin = prop.lower()
        self.v = Verdict()
        self.tmp = tempfile.mkdtemp(prefix="hh-%s-" % prop)
        self.t0 = time.time()
        self.budget = 840 if tier == "quick" else 6 * 3600
        self.paths = {}
        self.timing = {}
        self.known = findings()
        self.sysroot = None
        self.borrow = {}

    def left(self):
        return max(5.0, self.budget - (time.time() - self.t0))

    # ---- building
    def build(self, c):
        t = time.time()
        cmd, env, d = builder(c, [self.bin])
        if c["name"].startswith("miri"):
            env["MIRI_SYSROOT"] = self.sysroot
        rc, o, e, late = run_cmd(cmd, env, self.left())
        self.timing["build " + c["name"]] = round(time.time() - t, 1)
        if late:
            return "building %s: watchdog" % c["name"]
        if rc:
            return "building %s failed:\n%s" % (c["name"], e[-3000:])
        if d:
            self.paths[c["name"]] = os.path.join(d, self.bin)
        return None

    def build_all(self, cs):
        errs = []
        miri = [c for c in cs if c["name"].startswith("miri")]
        rest = [c for c in cs if not c["name"].startswith("miri")]

        def do_miri():
            t = time.time()
            p, e = miri_sysroot()
            self.timing["build miri sysroot"] = round(time.time() - t, 1)
            if not p:
                return ["building the Miri sysroot failed: " + e]
            self.sysroot = p
            x = self.build(miri[0])
            return [x] if x else []

        with cf.ThreadPoolExecutor(8) as ex:
            fs = [ex.submit(self.build, c) for c in rest]
            fm = ex.submit(do_miri) if miri else None
            errs += [x for x in (f.result() for f in fs) if x]
            if fm:
                errs += fm.result()
        return errs

    # ---- running
    def replay(self, c, case, sig, msg, extra=None):
        os.makedirs(REPLAYS, exist_ok=True)
        f = os.path.join(REPLAYS, "%s-%s-%s.json" % (self.prop, c["name"], case))
        d = dict(property=self.prop, config=c["name"], seed=self.seed, tier=self.tier, case=case, sig=sig, msg=msg,
                 command="python3 %s --replay %s" % (os.path.join(HERE, "check.py"), f))
        if extra:
            d.update(extra)
        with open(f, "w") as h:
            json.dump(d, h, indent=1)
        return f

    def violation(self, c, case, sig, msg, extra=None):
        self.v.violations.append((c["name"], sig, msg, self.replay(c, case, sig, msg, extra)))

    def take(self, c, rep):
        rep["config"] = c["name"]
        self.v.reports.append(rep)
        stopped = False
        for f in rep["violations"]:
            stopped = True
            if f["sig"] == "HARNESS":
                self.v.unclear.append("%s case %s: %s" % (c["name"], f["case"], f["msg"]))
            else:
                self.violation(c, f["case"], f["sig"], f["msg"], {"desc": f["desc"]})
        for p in rep["probes"]:
            self.probe(c, p["probe"], p["sig"], p["msg"])
        if rep["unobserved"] and not stopped and not c["name"].startswith("miri"):
            self.v.unclear.append("%s observed no: %s" % (c["name"], ", ".join(rep["unobserved"])))

    def probe(self, c, name, sig, msg):
        if sig == "HARNESS":
            self.v.unclear.append("%s probe %s: %s" % (c["name"], name, msg))
            return
        k = (self.prop, name, sig)
        if k in self.known:
            self.v.known.append("%s: %s" % (name, self.known[k]))
        else:
            self.violation(c, "probe-" + name, sig, msg)

    def cases(self, c):
        return c["cases"]

    def run_native(self, c, runs):
        """`runs`: how many native runs, this one included, share the time that is left."""
        t = time.time()
        soft = int(max(30, (self.left() - STUCK - 30) / runs))
        n = c["name"]
        note, out = os.path.join(self.tmp, n + ".note"), os.path.join(self.tmp, n + ".json")
        cmd = [self.paths[n], "--seed", str(self.seed), "--tier", self.tier, "--note", note, "--out", out,
               "--config", n, "--factor", str(c["factor"]), "--stuck", str(STUCK), "--soft", str(soft)]
        rc, o, e, late = run_cmd(cmd, run_env(n), self.left())
        self.timing["run " + n] = round(time.time() - t, 1)
        if late:
            self.v.unclear.append("%s: watchdog" % n)
            return
        if rc == 97 and "STUCK" in e:
            self.stuck(c, cmd, e)
            return
        rep = sanitizer_report(n, e)
        if n == "tsan" and os.path.exists(out):
            self.take(c, json.load(open(out)))
            if rep:
                self.violation(c, "run", rep[0], rep[1])
            return
        if rc == 0 and os.path.exists(out):
            self.take(c, json.load(open(out)))
            return
        # the process died: find the case
        ks = []
        if os.path.exists(note):
            b = open(note, "rb").read()
            ks = sorted(set(struct.unpack("<%dQ" % (len(b) // 8), b[:len(b) // 8 * 8])))
        bad, text = (True, rep[1]) if rep and rep[0] != "allocation" else crashed(rc, e)
        if rep and rep[0] == "allocation":
            bad, text = False, rep[1]
        if not bad:
            self.v.unclear.append("%s: %s" % (n, text))
            return
        for k in ks:
            rc1, o1, e1, late1 = run_cmd([self.paths[n], "--seed", str(self.seed), "--tier", self.tier,
                                          "--config", n, "--case", str(k)], run_env(n), 120)
            rep1 = sanitizer_report(n, e1)
            if late1:
                continue
            if rep1 and rep1[0] != "allocation":
                self.violation(c, k, rep1[0], rep1[1])
                return
            b1, t1 = crashed(rc1, e1)
            if b1:
                self.violation(c, k, "crash", t1)
                return
            if rc1 == 1 and "FAIL sig=" in o1 and "FAIL sig=HARNESS" not in o1:
                self.violation(c, k, "fail", o1[-1500:])
                return
        self.violation(c, "run", rep[0] if rep else "crash", text, {"running": ks})

    def stuck(self, c, cmd, err):
        """A case has not come to an end for a time in which thousands do. It is
        a violation when it does not end alone either, or when the run gets
        stuck again."""
        n = c["name"]
        found = [json.loads(f) for f in re.findall(r"^FOUND (\{.*\})$", err, re.M)]
        if found:
            # what was found before decides
            for f in found:
                self.violation(c, f["case"], f["sig"], f["msg"], {"desc": f["desc"]})
            return
        ks = re.findall(r"\d+", re.search(r"STUCK ([\d ]+)", err).group(1))
        text = "the case does not end (%d s; cases take milliseconds, large ones seconds)" % STUCK
        for k in ks[:2]:
            rc, o, e, late = run_cmd([self.paths[n], "--seed", str(self.seed), "--tier", self.tier,
                                      "--config", n, "--case", k], run_env(n), min(STUCK, self.left()))
            if late:
                self.violation(c, k, "never-ends", text)
                return
        rc, o, e, late = run_cmd(cmd, run_env(n), self.left())
        if rc == 97 and "STUCK" in e:
            self.violation(c, "run", "never-ends", text + ", twice in a run of many", {"running": ks})
        else:
            self.v.unclear.append("%s: case %s got stuck once" % (n, ks[0]))

    def run_miri(self, c, i):
        n = c["name"]
        cmd, env, _ = builder(c, [self.bin])
        env["MIRI_SYSROOT"] = self.sysroot
        # every process interprets under its own scheduler and address seed
        env["MIRIFLAGS"] += " -Zmiri-seed=%d" % (self.seed * 64 + i)
        cmd = cmd[:cmd.index("--")] + ["--", "--seed", str(self.seed), "--tier", self.tier, "--cases",
                                       str(c["cases"]), "--first", str(i * c["cases"]), "--no-probes", "x",
                                       "--config", n]
        rc, o, e, late = run_cmd(cmd, env, self.left())
        return (c, i, rc, o, e, late)

    def take_miri(self, res):
        c, i, rc, o, e, late = res
        begun = re.findall(r"^CASE (\d+)$", e, re.M)
        if late and len(begun) > 1 and not sanitizer_report(c["name"], e):
            # the cases before the last came to their end and were observed
            self.v.notes.append("%s: stopped by the time limit at case %s" % (c["name"], begun[-1]))
            return
        if late:
            self.v.unclear.append("%s: watchdog" % c["name"])
            return
        rep = sanitizer_report(c["name"], e)
        m = re.search(r"^REPORT (\{.*\})$", o, re.M)
        if rep:
            ks = re.findall(r"^CASE (\d+)$", e, re.M)
            self.violation(c, ks[-1] if ks else "first-%d" % (i * c["cases"]), rep[0], rep[1], {"miriseed": self.seed * 64 + i})
        elif m:
            self.take(c, json.loads(m.group(1)))
        else:
            self.v.unclear.append("%s: status %s: %s" % (c["name"], rc, e[-800:]))

    def miri_probe(self, c):
        """The recorded aliasing finding, interpreted on its own."""
        cmd, env, _ = builder(c, [self.bin])
        env["MIRI_SYSROOT"] = self.sysroot
        cmd = cmd[:cmd.index("--")] + ["--", "--cases", "0", "--config", c["name"]]
        rc, o, e, late = run_cmd(cmd, env, self.left())
        rep = sanitizer_report(c["name"], e)
        if rep:
            top = re.search(r"stack backtrace:\s*0: (\S+)", rep[1])
            where = top.group(1) if top else "?"
            sig = "aliasing-in-" + where if "attempting a" in rep[0] or "access through" in rep[0] else rep[0]
            self.probe(c, "raw-slice-overlap", sig, rep[1])
        elif rc:
            self.v.unclear.append("%s probe: status %s: %s" % (c["name"], rc, e[-500:]))
        elif '"probes":[{' in o:
            for p in json.loads(re.search(r"^REPORT (\{.*\})$", o, re.M).group(1))["probes"]:
                self.probe(c, p["probe"], p["sig"], p["msg"])

    # ---- safe programs that misuse the library
    def misuses(self):
        """Programs without unsafe code of which each misuses the library: a use
        after the end of the storage, two writers, a race. The compiler has to
        refuse them. One that it takes is interpreted, and undefined behaviour
        in it is the library's. The controls are the same programs without the
        misuse."""
        d = os.path.join(BORROW, "src", "bin")
        pre = self.prop.lower() + "_"
        names = sorted(f[:-3] for f in os.listdir(d) if f.startswith(pre) and f.endswith(".rs"))
        if not names:
            return
        t = time.time()
        taken = {}
        codes = {}
        for control in (True, False):
            cmd = ["cargo", "+nightly", "check", "--offline", "--keep-going", "--message-format=json",
                   "--target-dir", os.path.join(BUILD, "borrow")]
            for n in names:
                cmd += ["--bin", n]
            if control:
                cmd += ["--features", "control"]
            rc, o, e, late = run_cmd(cmd, base_env(), self.left(), cwd=BORROW)
            if late:
                self.v.unclear.append("misuses: watchdog")
                return
            ok = set()
            for line in o.splitlines():
                try:
                    m = json.loads(line)
                except ValueError:
                    continue
                if m.get("reason") == "compiler-artifact" and "bin" in m["target"]["kind"]:
                    ok.add(m["target"]["name"])
                if m.get("reason") == "compiler-message" and not control and m["message"]["level"] == "error":
                    c = m["message"].get("code")
                    if c:
                        codes[c["code"]] = codes.get(c["code"], 0) + 1
            taken[control] = ok & set(names)
        if not taken[True]:
            self.v.unclear.append("misuses: no control compiles: %s" % e[-1500:])
            return
        todo = [(n, False) for n in sorted(taken[False])]
        if self.tier == "thorough":
            todo += [(n, True) for n in sorted(taken[True])]
        if todo and not self.sysroot:
            self.sysroot, err = miri_sysroot()
            if not self.sysroot:
                self.v.unclear.append("misuses: building the Miri sysroot failed: " + err)
                return
        bad = 0
        for n, control in todo:
            rc, o, e, late = run_cmd(*misuse_command(n, control, self.sysroot), timeout=min(self.left(), 120), cwd=BORROW)
            rep = sanitizer_report("miri", e)
            if rep:
                bad += 1
                self.violation(cfg("misuse"), n, rep[0], "the safe program harness/borrow/src/bin/%s.rs compiles and "
                               "has undefined behaviour:\n%s" % (n, rep[1]), {"control": control})
        self.timing["misuses"] = round(time.time() - t, 1)
        self.borrow = {"misuses refused by the compiler": len(names) - len(taken[False]),
                       "misuses accepted and interpreted": len(taken[False]),
                       "misuses with undefined behaviour": bad,
                       "controls accepted by the compiler": len(taken[True]),
                       "controls interpreted": sum(c for _, c in todo)}
        for c in sorted(codes):
            self.borrow["refusals with " + c] = codes[c]

    def run_all(self, cs):
        native = [c for c in cs if not c["name"].startswith("miri")]
        miri = [c for c in cs if c["name"].startswith("miri")]
        with cf.ThreadPoolExecutor(max(8, CORES)) as ex:
            fs = []
            for c in miri:
                fs += [ex.submit(self.run_miri, c, i) for i in range(c["procs"])]
            fn = ex.submit(lambda: [self.run_native(c, len(native) - i) for i, c in enumerate(native)])
            t = time.time()
            for f in fs:
                self.take_miri(f.result())
            if miri:
                self.timing["run miri"] = round(time.time() - t, 1)
                if self.prop == "C24":
                    for c in miri:
                        self.miri_probe(c)
            fn.result()

    # ---- evidence
    def evidence(self):
        rs = self.v.reports
        obs, dist, samples = {}, {}, []
        for r in rs:
            for k, n in r["observed"].items():
                obs[k] = obs.get(k, 0) + n
            for k, n in r["distinct"].items():
                dist[k] = max(dist.get(k, 0), n)
            samples += ["[%s] %s" % (r["config"], s) for s in r["samples"][:3]]
        obs.update(self.borrow)
        per = {}
        for r in rs:
            p = per.setdefault(r["config"], dict(evaluations=0, distinct_nontrivial=0))
            p["evaluations"] += r["evaluations"]
            if r["evaluations"] < r.get("planned", 0):
                p["planned"] = r["planned"]
            if "slowest case" in r and not r["config"].startswith("miri"):
                p["slowest_case_ms"], p["slowest_case"] = r["slowest case"]
            p["distinct_nontrivial"] += r["distinct_nontrivial"]
        cov = dict(
            evaluations=sum(r["evaluations"] for r in rs),
            # the same cases run in every build: they are counted once
            distinct_nontrivial=max([p["distinct_nontrivial"] for p in per.values()] or [0]),
            rule=(rs[0]["rule"] if rs else "nothing ran"),
            samples=samples[:12] or ["nothing ran"],
            observed_events=obs, distinct_states=dist, builds=per,
            timing_s=self.timing, known_findings_seen=sorted(set(self.v.known)),
            no_verdict=self.v.unclear[:5], notes=self.v.notes[:8])
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="exploration", coverage=cov,
                  assumptions=["the rustc toolchains, sanitizers and Miri report faithfully",
                               "what was not executed is not covered"],
                  wall_s=round(time.time() - self.t0, 1), violations=len(self.v.violations))
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as h:
            json.dump(ev, h, indent=1)
        return ev

    def decide(self):
        cs = plan(self.prop, self.tier)
        errs = self.build_all(cs)
        if errs:
            self.v.unclear += errs
        else:
            self.run_all(cs)
            if self.prop in ("C05", "C10", "C24"):
                self.misuses()
        ev = self.evidence()
        shutil.rmtree(self.tmp, ignore_errors=True)
        for k in sorted(set(self.v.known)):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        print("%s %s seed %d: %d evaluations, %d distinct non-trivial, %.1f s %s" % (
            self.prop, self.tier, self.seed, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"],
            ev["wall_s"], json.dumps(self.timing)))
        if self.v.violations:
            for n, sig, msg, f in self.v.violations[:6]:
                print("[%s] %s: %s" % (n, sig, msg[:1200]))
            print("VIOLATION property=%s replay=%s" % (self.prop, self.v.violations[0][3]))
            return 1
        if self.v.unclear:
            for u in self.v.unclear[:6]:
                print("NO VERDICT: " + u[:3000])
            return 2
        print("held")
        return 0


def replay(path):
    d = json.load(open(path))
    r = Runner(d["property"], d["tier"], d["seed"])
    if d["config"] == "misuse":
        sysroot, err = miri_sysroot()
        if not sysroot:
            print(err)
            return 2
        rc, o, e, late = run_cmd(*misuse_command(str(d["case"]), d["control"], sysroot), timeout=300, cwd=BORROW)
        sys.stdout.write(o[-3000:] + e[-6000:])
        return 1 if sanitizer_report("miri", e) else 0
    c = cfg(d["config"])
    errs = r.build_all([c])
    if errs:
        print("\n".join(errs))
        return 2
    case = str(d["case"])
    tail = ["--seed", str(d["seed"]), "--tier", d["tier"], "--config", d["config"]]
    if case.isdigit():
        tail += ["--case", case]
    elif case.startswith("first-"):
        tail += ["--first", case[6:], "--cases", "200", "--no-probes", "x"]
    elif case.startswith("probe-"):
        tail += ["--cases", "0"]
    if c["name"].startswith("miri"):
        cmd, env, _ = builder(c, [r.bin])
        env["MIRI_SYSROOT"] = r.sysroot
        if "miriseed" in d:
            env["MIRIFLAGS"] += " -Zmiri-seed=%d" % d["miriseed"]
        cmd = cmd[:cmd.index("--")] + ["--"] + tail
    else:
        cmd, env = [r.paths[c["name"]]] + tail, run_env(c["name"])
    print(" ".join(cmd))
    rc, o, e, late = run_cmd(cmd, env, 900)
    if late:
        print("does not end")
        return 1 if d["sig"] == "never-ends" else 2
    sys.stdout.write(o[-6000:])
    sys.stdout.write(e[-6000:])
    rep = sanitizer_report(c["name"], e)
    return 1 if rep or rc not in (0, None) or '"violations":[{' in o or '"probes":[{' in o else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.seed is None:
        try:
            a.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            a.seed = sum(ord(x) * 257 ** i for i, x in enumerate(os.environ["VERIF_SEED"])) % (1 << 31)
    a.seed = abs(a.seed) % (1 << 48)
    if a.replay:
        return replay(a.replay)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    return Runner(a.prop, a.tier, a.seed).decide()


if __name__ == "__main__":
    sys.exit(main())
