"""Generate, build and run monitor programs, and report."""
import concurrent.futures as cf
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
NCPU = os.cpu_count() or 8


class Broken(Exception):
    """The check itself could not give an answer."""


class DoesNotBuild(Exception):
    """Safe programs over supported key types are refused by the compiler while
    the crates under test do build: a violation of what is being checked for
    those key types."""

    def __init__(self, rep, message):
        super().__init__(message)
        self.rep = rep
        self.message = message


def known_findings(pid):
    """Lines `finding: property=<id> key=<key> <text>` of KNOWN_FINDINGS.txt."""
    out = {}
    path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding:"):
                parts = line.split(None, 3)
                if len(parts) == 4 and parts[1] == "property=" + pid and parts[2].startswith("key="):
                    out[parts[2][4:]] = parts[3]
    return out


class Report:
    current = None

    def __init__(self, pid, rule):
        self.pid = pid
        self.level = "fault_enumeration" if pid in ("C12", "C21") else "exploration"
        self.rule = rule
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        Report.current = self
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = 0
        self.samples = []
        self.violations = []
        self.coverage = {}
        self.counters = {}
        self.assumptions = []
        self.known = known_findings(pid)
        self.known_hit = {}
        self.replay_dir = os.path.join(ROOT, "replay")
        self.work = os.path.join(ROOT, ".build", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, file=sys.stderr, flush=True)

    def add_counters(self, c):
        for k, v in c.items():
            self.counters[k] = self.counters.get(k, 0) + v

    def violation(self, info, key=None):
        """`key` identifies a listed finding."""
        if key is not None and key in self.known:
            if key not in self.known_hit:
                self.known_hit[key] = info
            return
        self.violations.append(info)

    def finish(self, cleanup=True):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": self.distinct,
            "rule": self.rule,
            "samples": self.samples[:24],
        }
        if self.counters:
            cov["observed"] = self.counters
        cov.update(self.coverage)
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(self.violations),
        }
        path = os.path.join(ROOT, "evidence", self.pid + ".json")
        tmp = path + ".tmp"
        with open(tmp, "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        os.replace(tmp, path)
        for k in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[k]))
        code = 0
        if self.violations:
            os.makedirs(self.replay_dir, exist_ok=True)
            for i, v in enumerate(self.violations[:int(os.environ.get("FM_SHOW", "5"))]):
                p = os.path.join(self.replay_dir, "%s-%d.json" % (self.pid, i))
                d = {"property": self.pid, "tier": self.tier, "seed": self.seed}
                d.update(v)
                d["reproduce"] = "cd /verif && VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s" % (
                    self.seed, self.tier, self.pid)
                with open(p, "w", encoding="utf-8") as f:
                    json.dump(d, f, indent=1, ensure_ascii=False)
                print("%s: %s: %s" % (self.pid, v.get("shape", ""), str(v.get("message", ""))[:1500]))
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
            code = 1
        else:
            print("%s: held on %d evaluations (%d distinct), %.1f s" % (
                self.pid, self.evaluations, self.distinct, time.time() - self.t0))
        sys.stdout.flush()
        if cleanup and not os.environ.get("FM_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)
        return code


def env_for_build(extra=None):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "MIRIFLAGS"):
            del e[k]
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    if extra:
        e.update(extra)
    return e


def run(cmd, cwd=None, env=None, timeout=800, mem_gb=None, stdin=None):
    def pre():
        os.setsid()
        if mem_gb:
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         stdin=subprocess.DEVNULL, preexec_fn=pre)
    try:
        out, err = p.communicate(timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        to = True
    return p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), to


CARGO_TOML = """[package]
name = "mon"
version = "0.1.0"
edition = "2021"

[workspace]

[features]
default = []

[dependencies]
fm = {{ path = {fm}, default-features = false, features = [{features}] }}
fixed-map = {{ path = {repo}, default-features = false, features = [{fxfeatures}] }}
{deps}

[profile.dev]
opt-level = {opt}
debug = {debug}
incremental = false
debug-assertions = true
overflow-checks = true
codegen-units = {cgu}

[profile.dev.build-override]
opt-level = 0

{bins}
"""

PRELUDE = """#![allow(warnings)]
use fixed_map::{Key, Map, Set};
use fm::shape::Shape;
use fm::Ctx;
"""


def program(pid, roots, call, extra="", derives="", more=()):
    """Source of one monitor program: definitions, then one call per root."""
    from corpus import closure, rs, Enum

    src = [PRELUDE, extra]
    for e in closure(roots):
        src.append(e.source(derives))
        if e in roots:
            src.append(e.api())
    src.append("fn main() {")
    src.append("    let mut ctx = Ctx::new(%s);" % rs(pid))
    for t in roots:
        for c in call(t):
            src.append("    ctx.shape(%s, |ctx| { let _ = &ctx; %s });" % (rs(t.desc), c))
    for desc, c in more:
        src.append("    ctx.shape(%s, |ctx| { %s });" % (rs(desc), c))
    src.append("    ctx.finish();")
    src.append("}")
    return "\n".join(src) + "\n"


def crate(work, programs, features=("hashbrown", "std"), deps="", opt=0, debug="false", cgu=4, name="mon"):
    """Write a crate with one binary per program; returns its directory."""
    d = os.path.join(work, name)
    os.makedirs(os.path.join(d, "src", "bin"), exist_ok=True)
    bins = []
    for i, src in enumerate(programs):
        with open(os.path.join(d, "src", "bin", "p%d.rs" % i), "w", encoding="utf-8") as f:
            f.write(src)
        bins.append('[[bin]]\nname = "p%d"\npath = "src/bin/p%d.rs"\n' % (i, i))
    q = lambda s: json.dumps(s)
    fxf = [f for f in features if f in ("hashbrown", "std", "serde")]
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(CARGO_TOML.format(
            fm=q(os.path.join(ROOT, "fm")), repo=q(REPO), features=", ".join(q(x) for x in features),
            fxfeatures=", ".join(q(x) for x in fxf), deps=deps, opt=opt, debug=debug, cgu=cgu, bins="\n".join(bins)))
    shutil.copy(os.path.join(ROOT, "tools", "mon.lock"), os.path.join(d, "Cargo.lock"))
    return d


def build(rep, d, env=None, args=(), toolchain=None, timeout=700, jobs=None):
    cmd = ["cargo"] + (["+" + toolchain] if toolchain else []) + [
        "build", "--offline", "--bins", "--target-dir", os.path.join(d, "target")] + list(args)
    if jobs:
        cmd += ["-j", str(jobs)]
    rc, out, err, to = run(cmd, cwd=d, env=env_for_build(env), timeout=timeout)
    if rc != 0:
        errs = [b for b in err.split("\n\n") if b.lstrip().startswith("error")]
        text = "\n\n".join(errs)[:6000]
        if not to and text and "signal:" not in err and re.search(r"could not compile `(mon|fm)`", err) \
                and not re.search(r"could not compile `(?!mon|fm)", err) and re.search(r"^error(\[E\d+\])?: ", err, re.M):
            raise DoesNotBuild(rep, "programs over supported key types do not compile:\n" + text)
        raise Broken("the monitor programs do not build%s:\n%s" % (" (timeout)" if to else "", "\n\n".join(errs)[:6000] or err[-4000:]))
    rep.log("built", os.path.basename(d))


def parse(out):
    r = {"shapes": [], "violations": [], "result": None}
    for line in out.splitlines():
        if line.startswith("@@S "):
            r["shapes"].append(json.loads(line[4:]))
        elif line.startswith("@@V "):
            r["violations"].append(json.loads(line[4:]))
        elif line.startswith("@@R "):
            r["result"] = json.loads(line[4:])
    return r


def run_programs(rep, d, n, env=None, factor=None, timeout=600, mem_gb=6, target_sub="debug", exes=None, sources=None, jobs=None):
    """Run the programs; a violation for each report and each crash."""
    e = dict(os.environ)
    e["FM_FACTOR"] = str(factor if factor is not None else (1 if not rep.thorough else 8))
    e["VERIF_SEED"] = str(rep.seed)
    e["RUST_BACKTRACE"] = "0"
    if env:
        e.update(env)
    exes = exes or [os.path.join(d, "target", target_sub, "p%d" % i) for i in range(n)]

    def one(i):
        r = run([exes[i]], cwd=d, env=e, timeout=timeout, mem_gb=mem_gb)
        if r[0] < 0 and not r[3] and r[0] != -signal.SIGKILL:
            # Crashed: once more, to be sure.
            r2 = run([exes[i]], cwd=d, env=e, timeout=timeout, mem_gb=mem_gb)
            return r, r2
        return r, None

    with cf.ThreadPoolExecutor(jobs or NCPU) as ex:
        results = list(ex.map(one, range(len(exes))))
    for i, (r, r2) in enumerate(results):
        rc, out, err, to = r
        p = parse(out)
        for v in p["violations"]:
            v["program"] = "p%d" % i
            rep.violation(v, v.pop("key", None))
        if p["result"]:
            rep.evaluations += p["result"]["evaluations"]
            rep.distinct += p["result"]["distinct"]
            rep.add_counters(p["result"]["counters"])
            rep.add_counters({"key types": p["result"]["shapes"]})
            rep.samples += p["result"]["samples"]
        if rc == 0 and p["result"]:
            continue
        if rc == 3 and p["violations"]:
            continue
        if to:
            raise Broken("program p%d did not finish in %d s" % (i, timeout))
        where = p["shapes"][-1] if p["shapes"] else "?"
        if rc < 0 and rc != -signal.SIGKILL:
            if r2 is not None and r2[0] < 0:
                rep.violation({
                    "shape": where, "case": "crash",
                    "message": "the process died from signal %d while running %s; stderr: %s" % (-rc, where, err[-1500:]),
                })
                continue
        raise Broken("program p%d ended with %d in %s: %s" % (i, rc, where, err[-2000:]))
