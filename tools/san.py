"""C11 and C29: the sanitizers and the undefined-behaviour interpreter."""
import concurrent.futures as cf
import os
import random
import re
import signal
import time

from c28 import Lib
from corpus import corpus as make_corpus, shards
from drive import NCPU, Broken, DoesNotBuild, Report, build, crate, env_for_build, parse, program, run, run_programs

TARGET = "x86_64-unknown-linux-gnu"
USE = "use fm::val::*; use std::num::NonZeroU8;\n"

OWNING = ["String", "Box<u64>", "Option<Box<u64>>", "std::rc::Rc<std::cell::Cell<u64>>", "Box<[String]>", "Nested", "Vec<u16>", "(u8, String)", "(String, Big)"]
LAYOUTS = ["u64", "()", "Option<Option<u32>>", "u8", "Big", "bool", "NonZeroU8", "&'static str", "Zst16", "std::cell::Cell<u64>", "&'static u64",
           "char", "f64"]


class Miri:
    """Programs under the interpreter."""

    def __init__(self, rep):
        self.rep = rep
        self.env = env_for_build({"XDG_CACHE_HOME": os.path.join(rep.work, "cache")})

    def setup(self):
        rc, out, err, to = run(["cargo", "+nightly", "miri", "setup"], cwd=self.rep.work, env=self.env, timeout=400)
        if rc != 0:
            raise Broken("no Miri sysroot: " + err[-1500:])
        self.rep.log("Miri is ready")

    def run(self, d, exe, flags, factor, seed, timeout):
        env = dict(self.env)
        env.update({"VERIF_SEED": str(seed), "FM_FACTOR": str(factor), "RUST_BACKTRACE": "0",
                    "MIRIFLAGS": "-Zmiri-env-forward=VERIF_SEED -Zmiri-env-forward=FM_FACTOR -Zmiri-env-forward=RUST_BACKTRACE " + flags})
        return run(["cargo", "+nightly", "miri", "run", "--offline", "-q", "--target-dir", os.path.join(d, "target"), "--bin", exe],
                   cwd=d, env=env, timeout=timeout, mem_gb=None)


def judge(rep, what, r, timeout_is_broken=True):
    """Turn the end of one run under a sanitizer into reports."""
    rc, out, err, to = r
    p = parse(out)
    for v in p["violations"]:
        v["message"] = "under %s: %s" % (what, v["message"])
        rep.violation(v, v.pop("key", None))
    if p["result"]:
        rep.evaluations += p["result"]["evaluations"]
        rep.distinct += p["result"]["distinct"]
        rep.add_counters(p["result"]["counters"])
        rep.add_counters({"runs under " + what.split(",")[0]: 1})
        rep.samples += p["result"]["samples"][:1]
    where = p["shapes"][-1] if p["shapes"] else "?"
    ub = re.search(r"error: (Undefined Behavior: .*|memory leaked.*|the evaluated program (leaked|deadlocked).*|deadlock.*)", err)
    san = re.search(r"(ERROR: (Address|Leak|Memory)Sanitizer.*|WARNING: (Thread|Memory)Sanitizer.*)", err)
    hit = ub or san
    if p["violations"] and hit and ("leak" in hit.group(0) or "Leak" in hit.group(0)):
        hit = None  # of the failed case's own panic
    if hit:
        rep.violation({"shape": where, "case": what, "message": "%s, while running %s: %s\n%s" % (
            what, where, hit.group(0), err[hit.start():hit.start() + 3500])})
        return
    if rc == 0 and p["result"]:
        return
    if p["violations"]:
        return
    if to and not timeout_is_broken:
        rep.add_counters({"further schedules cut short": 1})
        return
    if to:
        raise Broken("a program under %s did not finish" % what)
    if rc < 0 and rc != -signal.SIGKILL or "abnormal termination" in err or "unsafe precondition" in err:
        rep.violation({"shape": where, "case": what, "message": "under %s the program died (%d) while running %s: %s" % (what, rc, where, err[-2500:])})
        return
    raise Broken("a program under %s ended with %d in %s: %s" % (what, rc, where, err[-3000:]))


def compiles(rep, err, what):
    errs = [b for b in err.split("\n\n") if b.lstrip().startswith("error")]
    return "\n\n".join(errs)[:5000] or err[-3000:]


def sanitized(rep, name, progs, flag, opt=1, std=False, deps="", checks=False):
    """Build with one of the compiler's sanitizers."""
    d = crate(rep.work, progs, opt=opt, name=name, cgu=8, debug="false", deps=deps)
    if not checks:
        f = os.path.join(d, "Cargo.toml")
        s = open(f).read().replace("debug-assertions = true", "debug-assertions = false").replace("overflow-checks = true", "overflow-checks = false")
        open(f, "w").write(s)
    args = ["--target", TARGET] + (["-Zbuild-std"] if std else [])
    build(rep, d, env={"RUSTFLAGS": "-Zsanitizer=%s -Cforce-frame-pointers=yes" % flag}, args=args, toolchain="nightly")
    return d, [os.path.join(d, "target", TARGET, "debug", "p%d" % i) for i in range(len(progs))]


def spread(rep, roots, k):
    """A choice of key types over all storages, with all explicit discriminants."""
    rnd = random.Random("san-%s-%s" % (rep.pid, rep.seed))
    kinds = {}
    for t in roots:
        kinds.setdefault((t.fixed, t.bitset, t.simple, "Option" in t.desc, t.rust in ("bool", "()")), []).append(t)
    for v in kinds.values():
        rnd.shuffle(v)
    out = [t for t in roots if any(d is not None for _, _, d in t.variants)]
    for v in kinds.values():
        v[:] = [t for t in v if t not in out]
    while len(out) < k and any(kinds.values()):
        for key in sorted(kinds):
            if kinds[key] and len(out) < k:
                out.append(kinds[key].pop())
    return out


def c11_call(values):
    def call(t):
        out = ["fm::props::c11::run::<%s, %s>(ctx);" % (t.rust, v) for v in values[t.desc]]
        if t.ord == 2:
            out.append("fm::props::c11::ordered::<%s, %s>(ctx);" % (t.rust, "String"))
        elif t.ord == 1:
            out.append("fm::props::c11::ordered_sets::<%s>(ctx);" % t.rust)
        if t.bitset:
            out.append("fm::props::c11::raw::<%s>(ctx);" % t.rust)
        out += ["fm::props::c11::buckets::<%s>(ctx);" % v for v in values[t.desc]]
        return ["\n".join(out)]
    return call


def c11():
    rep = Report("C11", "a case is one safe operation in a history on one key type and value layout, executed under Miri (both aliasing models) or a "
                 "sanitizer, or one program which must be refused by the borrow checker; distinct: by key type, operation and contents")
    rnd = random.Random("c11-%s" % rep.seed)
    everything = make_corpus(rep.seed, rep.thorough)
    roots = make_corpus(rep.seed, rep.thorough, max_count=90)
    few = spread(rep, roots, 96 if rep.thorough else 28)

    def layouts(ts):
        o = rnd.randrange(1000)
        return {t.desc: [OWNING[(o + i) % len(OWNING)], LAYOUTS[(o + i) % len(LAYOUTS)]] for i, t in enumerate(ts)}

    vm = layouts(few)
    interpreted = [program(rep.pid, s, c11_call(vm), USE) for s in shards(few, 4)]
    md = crate(rep.work, interpreted, name="miri")
    many = everything if rep.thorough else spread(rep, everything, 48)
    va = layouts(many)
    native = [program(rep.pid, s, c11_call(va), USE) for s in shards(many, NCPU)]
    miri = Miri(rep)
    models = [("Miri with stacked borrows", ""), ("Miri with tree borrows", "-Zmiri-tree-borrows")]

    def under_miri():
        miri.setup()
        out = []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            seeds = range(rep.seed, rep.seed + (3 if rep.thorough else 1))
            futs = [(what, ex.submit(miri.run, md, "p%d" % i, flags + " -Zmiri-seed=%d" % s, 6 if rep.thorough else 1, s, 3000 if rep.thorough else 600))
                    for s in seeds for what, flags in models for i in range(len(interpreted))]
            for what, f in futs:
                out.append((what, f.result()))
        rep.log("Miri is done")
        return out

    def under_asan():
        d, exes = sanitized(rep, "asan", native, "address")
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:detect_stack_use_after_return=1:abort_on_error=0:symbolize=0", FM_FACTOR="30" if rep.thorough else "2",
                   VERIF_SEED=str(rep.seed), RUST_BACKTRACE="0")
        with cf.ThreadPoolExecutor(NCPU) as ex:
            rs = list(ex.map(lambda e: run([e], cwd=d, env=env, timeout=1500 if rep.thorough else 600), exes))
        rep.log("AddressSanitizer is done")
        return [("AddressSanitizer", r) for r in rs]

    def under_msan():
        d, exes = sanitized(rep, "msan", native, "memory -Zsanitizer-memory-track-origins", std=True)
        env = dict(os.environ, MSAN_OPTIONS="symbolize=0", FM_FACTOR="30", VERIF_SEED=str(rep.seed), RUST_BACKTRACE="0")
        with cf.ThreadPoolExecutor(NCPU) as ex:
            rs = list(ex.map(lambda e: run([e], cwd=d, env=env, timeout=1500), exes))
        return [("MemorySanitizer", r) for r in rs]

    # A native build first: what does not compile is told apart from the rest.
    nd = crate(rep.work, interpreted, name="native")
    build(rep, nd)
    parts = [under_miri, under_asan] + ([under_msan] if rep.thorough else [])
    with cf.ThreadPoolExecutor(len(parts)) as ex:
        results = [f for p in [ex.submit(x) for x in parts] for f in p.result()]
    for what, r in results:
        judge(rep, what, r)
    run_programs(rep, nd, len(interpreted), factor=30 if rep.thorough else 4)
    refusals(rep, c11_programs())
    rep.coverage["key_types_interpreted"] = [t.desc for t in few]
    rep.coverage["key_types_sanitized"] = len(many)
    return rep.finish()


# ---------------------------------------------------------------------------
# Programs which would be undefined behaviour were they accepted.

KEYS = """
#[derive(Clone, Copy, Debug, PartialEq, fixed_map::Key)] enum Plain { A, B }
#[derive(Clone, Copy, Debug, PartialEq, fixed_map::Key)] #[key(bitset)] enum Bits { A, B }
#[derive(Clone, Copy, Debug, PartialEq, fixed_map::Key)] enum Comp { A(bool), B(Option<Plain>), C(Bits) }
#[derive(Clone, Copy, Debug, PartialEq, fixed_map::Key)] enum Hashed { A(u8), B }
"""
SUBJECTS = [("Plain", "Plain::A", "Plain::B"), ("Bits", "Bits::A", "Bits::B"), ("Comp", "Comp::A(true)", "Comp::C(Bits::B)"),
            ("Hashed", "Hashed::A(3)", "Hashed::B"), ("bool", "true", "false"), ("Option<bool>", "Some(true)", "None"), ("u32", "1", "2"),
            ("()", "()", "()"), ("Option<Comp>", "Some(Comp::A(false))", "None"), ("&'static str", '"a"', '"b"')]
COPYABLE = {"Plain", "Bits", "Comp", "bool", "Option<bool>", "()", "Option<Comp>"}

# (what, a program body which must be refused, one like it which must not)
BORROWS = [
    ("a reference from get over an insert", "let r = m.get(K1); m.insert(K2, S()); touch(r);", "let r = m.get(K1); touch(r); m.insert(K2, S());"),
    ("a reference from get over a remove", "let r = m.get(K1).unwrap(); drop(m.remove(K1)); touch(r);", "let r = m.get(K1).unwrap(); touch(r); drop(m.remove(K1));"),
    ("a reference from get over clear", "let r = m.get(K1); m.clear(); touch(r);", "let r = m.get(K1); touch(r); m.clear();"),
    ("a reference from get over the map's end", "let r; { let n: M = mk(); r = n.get(K1).cloned(); } touch(r);".replace(".cloned()", ""),
     "let r; { let n: M = mk(); r = n.get(K1).cloned(); } touch(r);"),
    ("two mutable references from get_mut", "let a = m.get_mut(K1); let b = m.get_mut(K2); touch((a, b));", "let a = m.get_mut(K1); touch(a); let b = m.get_mut(K2); touch(b);"),
    ("get_mut beside get", "let a = m.get(K1); let b = m.get_mut(K2); touch((a, b));", "let a = m.get(K1); let b = m.get(K2); touch((a, b));"),
    ("get_mut through a shared reference", "let s = &m; touch(s.get_mut(K1));", "let s = &m; touch(s.get(K1));"),
    ("insert during iter", "for (k, v) in m.iter() { m.insert(k, S()); touch(v); }", "for (k, v) in m.iter() { touch((k, v)); }"),
    ("insert during keys and use after", "let mut it = m.iter(); m.insert(K1, S()); touch(it.next());", "{ let mut it = m.iter(); touch(it.next()); } m.insert(K1, S());"),
    ("clear during values", "let mut it = m.values(); m.clear(); touch(it.next());", "{ let mut it = m.values(); touch(it.next()); } m.clear();"),
    ("clear during values_mut", "let mut it = m.values_mut(); m.clear(); touch(it.next());", "{ let mut it = m.values_mut(); touch(it.next()); } m.clear();"),
    ("two iter_mut at once", "let mut a = m.iter_mut(); let mut b = m.iter_mut(); touch((a.next(), b.next()));", "{ let mut a = m.iter_mut(); touch(a.next()); } let mut b = m.iter_mut(); touch(b.next());"),
    ("iter_mut cloned", "let a = m.iter_mut(); touch(a.clone());", "let a = m.iter(); touch(a.clone());"),
    ("values_mut cloned", "let a = m.values_mut(); touch(a.clone());", "let a = m.values(); touch(a.clone());"),
    ("a reference from iter_mut over the map's move", "let r = m.iter_mut().next(); let n = m; touch(r); drop(n);", "let r = m.iter_mut().next(); touch(r); let n = m; drop(n);"),
    ("a reference from values_mut over a get", "let r = m.values_mut().next(); touch(m.get(K1)); touch(r);", "let r = m.values_mut().next(); touch(r); touch(m.get(K1));"),
    ("a loop over &mut with use", "for (k, v) in &mut m { touch(m.get(k)); touch(v); }", "for (k, v) in &mut m { touch((k, v)); }"),
    ("use after into_iter", "let mut it = m.into_iter(); touch(it.next()); touch(m.len());", "touch(m.len()); let mut it = m.into_iter(); touch(it.next());"),
    ("an entry beside get", "let e = m.entry(K1); touch(m.get(K2)); touch(e.or_insert(S()));", "touch(m.get(K2)); let e = m.entry(K1); touch(e.or_insert(S()));"),
    ("two entries at once", "let e = m.entry(K1); let f = m.entry(K2); touch(e.or_insert(S())); touch(f.or_insert(S()));",
     "let e = m.entry(K1); touch(e.or_insert(S())); let f = m.entry(K2); touch(f.or_insert(S()));"),
    ("a reference from or_insert over another use", "let r = m.entry(K1).or_insert(S()); m.clear(); touch(r);", "let r = m.entry(K1).or_insert(S()); touch(r); m.clear();"),
    ("a reference from or_default over an insert", "let r = m.entry(K1).or_default(); m.insert(K1, S()); touch(r);", "let r = m.entry(K1).or_default(); touch(r); m.insert(K1, S());"),
    ("a reference from or_insert_with_key over remove", "let r = m.entry(K1).or_insert_with_key(|_| S()); m.remove(K1); touch(r);",
     "let r = m.entry(K1).or_insert_with_key(|_| S()); touch(r); m.remove(K1);"),
    ("an entry used twice", "let e = m.entry(K1); touch(e.or_insert(S())); touch(e.or_insert(S()));", "let e = m.entry(K1); touch(e.or_insert(S()));"),
    ("a reference of an occupied entry over its insert", "if let Entry::Occupied(mut e) = m.entry(K1) { let r = e.get(); let o = e.insert(S()); touch(r); drop(o); }",
     "if let Entry::Occupied(mut e) = m.entry(K1) { let r = e.get(); touch(r); let o = e.insert(S()); drop(o); }"),
    ("two get_mut of an occupied entry", "if let Entry::Occupied(mut e) = m.entry(K1) { let r = e.get_mut(); let s = e.get_mut(); touch((r, s)); }",
     "if let Entry::Occupied(mut e) = m.entry(K1) { let r = e.get_mut(); touch(r); let s = e.get_mut(); touch(s); }"),
    ("a get_mut of an occupied entry outliving it", "let mut r = None; if let Entry::Occupied(mut e) = m.entry(K1) { r = Some(e.get_mut()); } touch(r);",
     "let mut r = None; if let Entry::Occupied(e) = m.entry(K1) { r = Some(e.into_mut()); } touch(r);"),
    ("an occupied entry after into_mut", "if let Entry::Occupied(e) = m.entry(K1) { let r = e.into_mut(); touch(e.get()); touch(r); }",
     "if let Entry::Occupied(e) = m.entry(K1) { touch(e.get()); let r = e.into_mut(); touch(r); }"),
    ("an occupied entry after remove", "if let Entry::Occupied(e) = m.entry(K1) { drop(e.remove()); touch(e.get()); }",
     "if let Entry::Occupied(e) = m.entry(K1) { touch(e.get()); drop(e.remove()); }"),
    ("a vacant entry after insert", "if let Entry::Vacant(e) = m.entry(K1) { let r = e.insert(S()); e.insert(S()); touch(r); }",
     "if let Entry::Vacant(e) = m.entry(K1) { let r = e.insert(S()); touch(r); }"),
    ("a reference of a vacant entry's insert over clear", "let mut r = None; if let Entry::Vacant(e) = m.entry(K1) { r = Some(e.insert(S())); } m.clear(); touch(r);",
     "let mut r = None; if let Entry::Vacant(e) = m.entry(K1) { r = Some(e.insert(S())); } touch(r); m.clear();"),
    ("an entry cloned", "let e = m.entry(K1); touch(e.clone().or_insert(S()));", "let e = m.entry(K1); touch(e.or_insert(S()));"),
    ("a value escaping from retain", "let mut out = None; m.retain(|_, v| { out = Some(v); true }); touch(out);",
     "let mut out = None; m.retain(|_, v| { out = Some(v.clone()); true }); touch(out);"),
    ("a value escaping from and_modify", "let mut out = None; let _ = m.entry(K1).and_modify(|v| { out = Some(v); }); touch(out);",
     "let mut out = None; let _ = m.entry(K1).and_modify(|v| { out = Some(v.clone()); }); touch(out);"),
    ("the map used inside retain", "m.retain(|_, _| m.is_empty());", "m.retain(|_, v| v.is_empty());"),
    ("owning values copied", "let n = m; touch(m.len()); drop(n);", "let n = m.clone(); touch(m.len()); drop(n);"),
    ("a map cleared while cloned from", "let r = &m; m.clear(); touch(r);", "let r = &m; touch(r); m.clear();"),
    ("values that borrow from what ended", "let mut n: Map<Q, &str> = Map::new(); { let t = S(); n.insert(K1, &t); } touch(n.get(K1));",
     "let t = S(); let mut n: Map<Q, &str> = Map::new(); { n.insert(K1, &t); } touch(n.get(K1));"),
    ("values that borrow put in for longer ones", "fn put<'a>(m: &mut Map<Q, &'static str>, s: &'a str) { m.insert(K1, s); } let mut n = Map::new(); put(&mut n, &S()); touch(n.get(K1));",
     "fn put(m: &mut Map<Q, &'static str>, s: &'static str) { m.insert(K1, s); } let mut n = Map::new(); put(&mut n, \"x\"); touch(n.get(K1));"),
    ("a set used after into_iter", "let mut t = s.clone().into_iter(); let u = s.into_iter(); touch(t.next()); drop(u); let _ = (&o1, NotCopy(s));",
     "let mut t = s.clone().into_iter(); touch(t.next()); let _ = (&o1, NotCopy(s));"),
]
STATIC = "let mut n: Map<Q, &'static str> = Map::new(); n.insert(K1, \"y\"); let t = S(); %s touch(n.get(K1)); drop(t); touch(n.get(K1));"
BORROWS += [
    ("values that borrow put in through " + what, STATIC % code.replace("@", "&*t"), STATIC % code.replace("@", '"x"'))
    for what, code in [
        ("get_mut", "*n.get_mut(K1).unwrap() = @;"), ("iter_mut", "for (_, v) in n.iter_mut() { *v = @; }"), ("&mut map", "for (_, v) in &mut n { *v = @; }"),
        ("values_mut", "for v in n.values_mut() { *v = @; }"), ("retain", "n.retain(|_, v| { *v = @; true });"), ("or_insert", "n.entry(K2).or_insert(@);"),
        ("or_insert_with", "n.entry(K2).or_insert_with(|| @);"), ("and_modify", "n.entry(K1).and_modify(|v| *v = @).or_default();"),
        ("an occupied entry", "if let Entry::Occupied(mut e) = n.entry(K1) { e.insert(@); }"),
        ("an occupied entry's get_mut", "if let Entry::Occupied(mut e) = n.entry(K1) { *e.get_mut() = @; }"),
        ("an occupied entry's into_mut", "if let Entry::Occupied(e) = n.entry(K1) { *e.into_mut() = @; }"),
        ("a vacant entry", "n.clear(); if let Entry::Vacant(e) = n.entry(K1) { e.insert(@); }"),
    ]
]
BSTATIC = "let mut o: Option<&'static str> = %s; let t = S(); { %s } touch(o); drop(t); touch(o);"
BUCKETS = [
] + [
    ("what borrows put in through " + what, BSTATIC % (start, code.replace("@", "&*t")), BSTATIC % (start, code.replace("@", '"x"')))
    for what, start, code in [
        ("an empty bucket", "None", "NoneBucket::new(&mut o).unwrap().insert(@);"), ("an empty bucket's reference", "None", "let b = NoneBucket::new(&mut o).unwrap(); *b.insert(\"z\") = @;"),
        ("an empty bucket, later", "None", "let b = NoneBucket::new(&mut o).unwrap(); let c = b; c.insert(@);"),
        ("replace", 'Some("y")', "let mut b = SomeBucket::new(&mut o).unwrap(); b.replace(@);"), ("as_mut", 'Some("y")', "let mut b = SomeBucket::new(&mut o).unwrap(); *b.as_mut() = @;"),
        ("into_mut", 'Some("y")', "let b = SomeBucket::new(&mut o).unwrap(); *b.into_mut() = @;"),
        ("an option bucket", "None", "if let OptionBucket::None(b) = OptionBucket::new(&mut o) { b.insert(@); }"),
        ("a full option bucket", 'Some("y")', "if let OptionBucket::Some(mut b) = OptionBucket::new(&mut o) { b.replace(@); }"),
    ]
] + [
    ("a bucket %s over the option's %s" % (who, use), "let mut o: Option<String> = %s; let b = %s; %s touch(b);" % (start, make, code), "let mut o: Option<String> = %s; let b = %s; touch(b); %s" % (start, make, code))
    for who, start, make in [("of nothing", "None", "NoneBucket::new(&mut o)"), ("of something", "Some(S())", "SomeBucket::new(&mut o)"), ("of either", "None", "OptionBucket::new(&mut o)")]
    for use, code in [("reading", "touch(o.is_some());"), ("writing", "o = None;"), ("moving", "drop(o);"), ("taking", "o.take();")]
] + [
    ("a full bucket made unchecked", "let mut o = Some(S()); let b = SomeBucket::new_unchecked(&mut o); touch(b.take());", "let mut o = Some(S()); let b = SomeBucket::new(&mut o).unwrap(); touch(b.take());"),
    ("an empty bucket made unchecked", "let mut o = None; let b = NoneBucket::new_unchecked(&mut o); touch(b.insert(S()));", "let mut o = None; let b = NoneBucket::new(&mut o).unwrap(); touch(b.insert(S()));"),
    ("a bucket built from parts", "let mut o: Option<String> = None; let b = SomeBucket { outer: &mut o }; touch(b.as_ref());", "let mut o = Some(S()); let b = SomeBucket::new(&mut o).unwrap(); touch(b.as_ref());"),
    ("a bucket after take", "let mut o = Some(S()); let b = SomeBucket::new(&mut o).unwrap(); touch(b.take()); touch(b.as_ref());", "let mut o = Some(S()); let b = SomeBucket::new(&mut o).unwrap(); touch(b.as_ref()); touch(b.take());"),
    ("a bucket after into_mut", "let mut o = Some(S()); let b = SomeBucket::new(&mut o).unwrap(); let r = b.into_mut(); touch(b.as_ref()); touch(r);",
     "let mut o = Some(S()); let b = SomeBucket::new(&mut o).unwrap(); touch(b.as_ref()); let r = b.into_mut(); touch(r);"),
    ("the option beside its bucket", "let mut o = Some(S()); let b = SomeBucket::new(&mut o).unwrap(); o = None; touch(b.as_ref());", "let mut o = Some(S()); let b = SomeBucket::new(&mut o).unwrap(); touch(b.as_ref()); o = None; touch(o);"),
    ("the option beside a reference from into_mut", "let mut o = Some(S()); let r = SomeBucket::new(&mut o).unwrap().into_mut(); o.take(); touch(r);", "let mut o = Some(S()); let r = SomeBucket::new(&mut o).unwrap().into_mut(); touch(r); o.take();"),
    ("a reference from as_ref over replace", "let mut o = Some(S()); let mut b = SomeBucket::new(&mut o).unwrap(); let r = b.as_ref(); let x = b.replace(S()); touch(r); drop(x);",
     "let mut o = Some(S()); let mut b = SomeBucket::new(&mut o).unwrap(); let r = b.as_ref(); touch(r); let x = b.replace(S()); drop(x);"),
    ("a reference from as_mut outliving its bucket", "let mut o = Some(S()); let r; { let mut b = SomeBucket::new(&mut o).unwrap(); r = b.as_mut(); } touch(r);",
     "let mut o = Some(S()); let r; { let b = SomeBucket::new(&mut o).unwrap(); r = b.into_mut(); } touch(r);"),
    ("an empty bucket used twice", "let mut o = None; let b = NoneBucket::new(&mut o).unwrap(); let r = b.insert(S()); touch(b.insert(S())); touch(r);", "let mut o = None; let b = NoneBucket::new(&mut o).unwrap(); touch(b.insert(S()));"),
    ("a bucket outliving its option", "let b; { let mut o = Some(S()); b = SomeBucket::new(&mut o); } touch(b.is_some());", "let mut o = Some(S()); let b; { b = SomeBucket::new(&mut o); } touch(b.is_some());"),
]
HEAD = """#![allow(warnings)]
#![forbid(unsafe_code)]
use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
use fixed_map::option_bucket::{NoneBucket, OptionBucket, SomeBucket};
use fixed_map::{Key, Map, Set};
%s
struct NotCopy<T>(T);
fn touch<T>(_: T) {}
fn S() -> String { String::from("x") }
"""


def c11_programs():
    """(label, must be refused, must be accepted)"""
    head = HEAD % KEYS
    out = []
    for q, k1, k2 in SUBJECTS:
        pre = ("type Q = %s;\ntype M = Map<Q, String>;\nfn mk() -> M { let mut m = M::new(); m.insert(%s, S()); m }\n"
               "fn main() { let mut m = mk(); let mut s: Set<Q> = Set::new(); let o1 = Set::<Q>::new();\n") % (q, k1)
        for what, bad, good in BORROWS:
            if what == "a set used after into_iter" and q in COPYABLE or "Entry::" in bad and q == "()":
                continue  # the latter's key type is ambiguous
            fill = lambda b: head + pre + b.replace("K1", k1).replace("K2", k2) + "\n}\n"
            out.append(("%s (%s)" % (what, q), fill(bad), fill(good)))
    for what, bad, good in BUCKETS:
        fill = lambda b: head + "fn main() { %s }\n" % b
        out.append((what, fill(bad), fill(good)))
    return out


def refusals(rep, progs):
    lib = Lib(rep)
    work = os.path.join(rep.work, "refused")
    os.makedirs(work)
    rep.log("%d programs to be refused" % len(progs))

    def one(x):
        i, (what, bad, good) = x
        out = []
        for n, src in enumerate((bad, good)):
            p = os.path.join(work, "c%d_%d" % (i, n))
            r = lib.compile(src, p, link=False)
            for ext in (".rs", ".rmeta"):
                if os.path.exists(p + ext):
                    os.remove(p + ext)
            out.append(r)
        return out

    with cf.ThreadPoolExecutor(NCPU) as ex:
        results = list(ex.map(one, enumerate(progs)))
    codes = {}
    for (what, bad, good), (b, g) in zip(progs, results):
        rep.evaluations += 2
        rep.distinct += 2
        for x in {(x.get("code") or {}).get("code") for x in b[1] if x["level"] == "error"} - {None}:
            codes.setdefault(x, set()).add(what.split(" (")[0])
        if b[0] == 0:
            rep.violation({"shape": what, "case": "refused", "message": "a program with %s is accepted:\n%s" % (what, bad)})
        elif any(d["level"].startswith("error: internal") for d in b[1]):
            raise Broken("the compiler crashed: " + b[2][-1500:])
        if g[0] != 0:
            text = "; ".join(d["message"] for d in g[1] if d["level"] == "error")
            if not text:
                raise Broken("rustc ended with %d: %s" % (g[0], g[2][-1500:]))
            rep.violation({"shape": what, "case": "accepted", "message": "a harmless program (the like of one with %s) is refused: %s\n%s" % (what, text[:1500], good)})
    rep.coverage["compile_errors_seen"] = sorted(codes)
    if os.environ.get("FM_CODES"):
        for c in sorted(codes):
            print(c, sorted(codes[c]))
    rep.add_counters({"programs refused by the borrow checker": sum(1 for b, _ in results if b[0] != 0), "their harmless siblings accepted": sum(1 for _, g in results if g[0] == 0)})


# ---------------------------------------------------------------------------
# C29

FREE = ["u64", "String", "Box<u64>", "Shared", "Nested", "Big", "()", "Option<Option<u32>>", "Vec<u16>", "&'static str", "bool", "Zst16", "Box<[String]>"]


def c29_call(values):
    def call(t):
        out = ["fm::props::c29::run::<%s, %s>(ctx);" % (t.rust, v) for v in values[t.desc]]
        if t.ord == 2:
            out.append("fm::props::c29::ordered::<%s, %s>(ctx);" % (t.rust, "String"))
        elif t.ord == 1:
            out.append("fm::props::c29::ordered_sets::<%s>(ctx);" % t.rust)
        return ["\n".join(out)]
    return call


# (what, must not compile, must compile)
THREADS = [
    ("a map of Rc moved to a thread", "let m: Map<Q, Rc<u8>> = Map::new(); std::thread::spawn(move || m.len());", "let m: Map<Q, Arc<u8>> = Map::new(); std::thread::spawn(move || m.len());"),
    ("a map of Rc shared", "let m: Map<Q, Rc<u8>> = Map::new(); std::thread::scope(|s| { s.spawn(|| m.len()); });", "let m: Map<Q, Arc<u8>> = Map::new(); std::thread::scope(|s| { s.spawn(|| m.len()); });"),
    ("a map of Cell shared", "let m: Map<Q, Cell<u8>> = Map::new(); std::thread::scope(|s| { s.spawn(|| m.len()); });", "let m: Map<Q, AtomicU8> = Map::new(); std::thread::scope(|s| { s.spawn(|| m.len()); });"),
    ("a map of RefCell in an Arc", "let m: Arc<Map<Q, RefCell<u8>>> = Arc::new(Map::new()); std::thread::spawn(move || m.len());", "let m: Arc<Map<Q, Mutex<u8>>> = Arc::new(Map::new()); std::thread::spawn(move || m.len());"),
    ("a map of Rc behind a Mutex", "let m: Mutex<Map<Q, Rc<u8>>> = Mutex::new(Map::new()); std::thread::scope(|s| { s.spawn(|| drop(m.lock())); });",
     "let m: Mutex<Map<Q, Cell<u8>>> = Mutex::new(Map::new()); std::thread::scope(|s| { s.spawn(|| drop(m.lock())); });"),
    ("an iterator over Cells sent", "let m: Map<Q, Cell<u8>> = Map::new(); let mut i = m.iter(); std::thread::scope(|s| { s.spawn(move || i.next().is_some()); });",
     "let m: Map<Q, Cell<u8>> = Map::new(); std::thread::spawn(move || m.iter().count());"),
    ("values of Cells sent", "let m: Map<Q, Cell<u8>> = Map::new(); let mut i = m.values(); std::thread::scope(|s| { s.spawn(move || i.next().is_some()); });",
     "let m: Map<Q, Cell<u8>> = Map::new(); std::thread::spawn(move || m.values().count());"),
    ("iter_mut over Rc sent", "let mut m: Map<Q, Rc<u8>> = Map::new(); let mut i = m.iter_mut(); std::thread::scope(|s| { s.spawn(move || i.next().is_some()); });",
     "let mut m: Map<Q, Cell<u8>> = Map::new(); std::thread::spawn(move || m.iter_mut().count());"),
    ("values_mut over Rc sent", "let mut m: Map<Q, Rc<u8>> = Map::new(); let mut i = m.values_mut(); std::thread::scope(|s| { s.spawn(move || i.next().is_some()); });",
     "let mut m: Map<Q, Cell<u8>> = Map::new(); std::thread::spawn(move || m.values_mut().count());"),
    ("an owning iterator of Rc sent", "let m: Map<Q, Rc<u8>> = Map::new(); let mut i = m.into_iter(); std::thread::spawn(move || i.next().is_some());",
     "let m: Map<Q, Cell<u8>> = Map::new(); std::thread::spawn(move || m.into_iter().count());"),
    ("an entry of Rc sent", "let mut m: Map<Q, Rc<u8>> = Map::new(); let e = m.entry(K1); std::thread::scope(|s| { s.spawn(move || { e.or_default(); }); });",
     "let mut m: Map<Q, Cell<u8>> = Map::new(); std::thread::spawn(move || { m.entry(K1).or_default(); });"),
    ("a map of MutexGuards sent", "static L: Mutex<u8> = Mutex::new(0); let mut m: Map<Q, MutexGuard<'static, u8>> = Map::new(); std::thread::spawn(move || m.clear());",
     "let mut m: Map<Q, Mutex<u8>> = Map::new(); std::thread::spawn(move || m.clear());"),
    ("a map of raw pointers sent", "let mut m: Map<Q, *mut u8> = Map::new(); std::thread::spawn(move || m.clear());", "let mut m: Map<Q, usize> = Map::new(); std::thread::spawn(move || m.clear());"),
    ("a map borrowed by a thread that may outlive it", "let m: Map<Q, u8> = Map::new(); let h = std::thread::spawn(|| m.len()); drop(m);", "let m: Map<Q, u8> = Map::new(); let h = std::thread::spawn(move || m.len());"),
    ("a map changed while a thread reads", "let mut m: Map<Q, u8> = Map::new(); std::thread::scope(|s| { s.spawn(|| m.len()); m.clear(); });", "let mut m: Map<Q, u8> = Map::new(); std::thread::scope(|s| { s.spawn(|| m.len()); }); m.clear();"),
    ("a map changed by two threads", "let mut m: Map<Q, u8> = Map::new(); std::thread::scope(|s| { s.spawn(|| m.insert(K1, 1)); s.spawn(|| m.insert(K1, 2)); });",
     "let mut m: Map<Q, u8> = Map::new(); std::thread::scope(|s| { s.spawn(|| m.insert(K1, 1)); }); std::thread::scope(|s| { s.spawn(|| m.insert(K1, 2)); });"),
    ("a set changed while a thread reads", "let mut t: Set<Q> = Set::new(); std::thread::scope(|s| { s.spawn(|| t.len()); t.clear(); });", "let mut t: Set<Q> = Set::new(); std::thread::scope(|s| { s.spawn(|| t.len()); }); t.clear();"),
    ("a set that may not be sent", "let (t, r): (Set<Q>, Rc<u8>) = (Set::new(), Rc::new(1)); std::thread::spawn(move || { let _ = &r; t.len() });", "fn go<T: Send + Sync + 'static>(_: T) {} go(Set::<Q>::new()); go(Map::<Q, u8>::new()); go(Some(Set::<Q>::new()));"),
]


# The halves of an entry, and what is only shared by reference.
SEND = "fn send<T: Send>(_: T) {} fn share<T: Sync>(_: &T) {} "
HALF = "let mut m: Map<Q, %s> = Map::new(); %s "
THREADS += [
    (what, SEND + HALF % (bad, code), SEND + HALF % (good, code))
    for what, bad, good, code in [
        ("an occupied entry of Rc sent", "Rc<u8>", "Cell<u8>", "if let Entry::Occupied(e) = m.entry(K1) { send(e); }"),
        ("a vacant entry of Rc sent", "Rc<u8>", "Cell<u8>", "if let Entry::Vacant(e) = m.entry(K1) { send(e); }"),
        ("an occupied entry of Cell shared", "Cell<u8>", "AtomicU8", "if let Entry::Occupied(e) = m.entry(K1) { share(&e); }"),
        ("an occupied entry of Rc shared", "Rc<u8>", "Arc<u8>", "if let Entry::Occupied(e) = m.entry(K1) { share(&e); }"),
        ("an entry of Cell shared", "Cell<u8>", "AtomicU8", "let e = m.entry(K1); share(&e);"),
        ("iter of Rc sent", "Rc<u8>", "Arc<u8>", "send(m.iter());"), ("iter of Cell sent", "Cell<u8>", "AtomicU8", "send(m.iter());"),
        ("iter of Cell shared", "Cell<u8>", "AtomicU8", "share(&m.iter());"), ("iter of Rc shared", "Rc<u8>", "Arc<u8>", "share(&m.iter());"),
        ("values of Rc sent", "Rc<u8>", "Arc<u8>", "send(m.values());"), ("values of Cell sent", "Cell<u8>", "AtomicU8", "send(m.values());"),
        ("values of Cell shared", "Cell<u8>", "AtomicU8", "share(&m.values());"),
        ("iter_mut of Rc sent", "Rc<u8>", "Cell<u8>", "send(m.iter_mut());"), ("values_mut of Rc sent", "Rc<u8>", "Cell<u8>", "send(m.values_mut());"),
        ("iter_mut of a MutexGuard sent", "MutexGuard<'static, u8>", "Mutex<u8>", "send(m.iter_mut());"),
        ("into_iter of Rc sent", "Rc<u8>", "Cell<u8>", "send(m.into_iter());"), ("into_iter of Cell shared", "Cell<u8>", "AtomicU8", "share(&m.into_iter());"),
        ("a map of Rc sent", "Rc<u8>", "Cell<u8>", "send(m);"), ("a map of Cell shared by reference", "Cell<u8>", "AtomicU8", "share(&m);"),
        ("a map of Rc shared by reference", "Rc<u8>", "Arc<u8>", "share(&m);"), ("a map of MutexGuards sent itself", "MutexGuard<'static, u8>", "Mutex<u8>", "send(m);"),
        ("a mutable reference to a map of Rc sent", "Rc<u8>", "Cell<u8>", "send(&mut m);"), ("a reference to a map of Cell sent", "Cell<u8>", "AtomicU8", "send(&m);"),
    ]
]
# Buckets need no key type.
THREAD_BUCKETS = [
    (what, SEND + code.replace("X", bad), SEND + code.replace("X", good))
    for what, bad, good, code in [
        ("a full bucket of Rc sent", "Rc<u8>", "Cell<u8>", "let mut o: Option<X> = None; send(SomeBucket::new(&mut o));"),
        ("an empty bucket of Rc sent", "Rc<u8>", "Cell<u8>", "let mut o: Option<X> = None; send(NoneBucket::new(&mut o));"),
        ("either bucket of Rc sent", "Rc<u8>", "Cell<u8>", "let mut o: Option<X> = None; send(OptionBucket::new(&mut o));"),
        ("a full bucket of Cell shared", "Cell<u8>", "AtomicU8", "let mut o: Option<X> = None; share(&SomeBucket::new(&mut o));"),
        ("a full bucket of Rc shared", "Rc<u8>", "Arc<u8>", "let mut o: Option<X> = None; share(&SomeBucket::new(&mut o));"),
        ("either bucket of Cell shared", "Cell<u8>", "AtomicU8", "let mut o: Option<X> = None; share(&OptionBucket::new(&mut o));"),
    ]
]


def c29_programs():
    head = HEAD % KEYS + "use std::rc::Rc; use std::cell::{Cell, RefCell}; use std::sync::{Arc, Mutex, MutexGuard}; use std::sync::atomic::AtomicU8;\n"
    out = []
    for q, k1, k2 in SUBJECTS:
        for what, bad, good in THREADS:
            if q == "()" and "Entry::" in bad:
                continue  # the key type is ambiguous
            fill = lambda b: head + "type Q = %s;\nfn main() { %s }\n" % (q, b.replace("K1", k1).replace("K2", k2))
            out.append(("%s (%s)" % (what, q), fill(bad), fill(good)))
    for what, bad, good in THREAD_BUCKETS:
        fill = lambda b: head + "fn main() { %s }\n" % b
        out.append((what, fill(bad), fill(good)))
    return out


def c29():
    rep = Report("C29", "a case is one round of concurrent readers, of writers on containers of their own, of containers handed from thread to "
                 "thread, of mutable references dealt out to threads, or of turns behind a lock, natively, under ThreadSanitizer and under Miri's race "
                 "detector with several schedules; every reader's result is compared with the one alone, every writer's with its model; distinct: by "
                 "key type and contents")
    rnd = random.Random("c29-%s" % rep.seed)
    roots = make_corpus(rep.seed, rep.thorough, max_count=150)
    few = spread(rep, roots, 48 if rep.thorough else 16)
    some = roots if rep.thorough else spread(rep, roots, 40)

    def free(ts):
        o = rnd.randrange(1000)
        return {t.desc: [FREE[(o + i * 2) % len(FREE)], FREE[(o + i * 2 + 1) % len(FREE)]] for i, t in enumerate(ts)}

    vm, vn = free(few), free(some)
    for t in few:
        vm[t.desc] = vm[t.desc][:1]
    interpreted = [program(rep.pid, s, c29_call(vm), USE) for s in shards(few, 4)]
    native = [program(rep.pid, s, c29_call(vn), USE) for s in shards(some, 4)]
    nd = crate(rep.work, native, name="native", opt=2, cgu=8)
    build(rep, nd)
    md = crate(rep.work, interpreted, name="miri")
    miri = Miri(rep)

    def under_miri():
        miri.setup()
        seeds = range(rep.seed, rep.seed + (12 if rep.thorough else 2))

        def patience(s):
            if rep.thorough:
                return 3000
            return 600 if s == rep.seed else max(60, 400 - (time.time() - rep.t0))  # a slow machine gets one schedule

        with cf.ThreadPoolExecutor(NCPU) as ex:
            futs = [("Miri, schedule %d" % s, ex.submit(miri.run, md, "p%d" % i, "-Zmiri-seed=%d -Zmiri-preemption-rate=%s%s" % (
                s, ("0.05", "0.3", "0.01")[s % 3], " -Zmiri-tree-borrows" if s % 2 else ""), 2 if rep.thorough else 1, s, patience(s)))
                for s in seeds for i in range(len(interpreted))]
            out = [(w, f.result()) for w, f in futs]
        rep.log("Miri is done")
        return out

    def under_tsan():
        d, exes = sanitized(rep, "tsan", native, "thread", std=True)
        env = dict(os.environ, TSAN_OPTIONS="halt_on_error=1:symbolize=0:report_thread_leaks=0", FM_FACTOR="20" if rep.thorough else "1", VERIF_SEED=str(rep.seed),
                   RUST_BACKTRACE="0")
        with cf.ThreadPoolExecutor(4) as ex:
            rs = list(ex.map(lambda e: run([e], cwd=d, env=env, timeout=1500 if rep.thorough else 600), exes))
        rep.log("ThreadSanitizer is done")
        return [("ThreadSanitizer", r) for r in rs]

    parts = [under_miri, under_tsan]
    with cf.ThreadPoolExecutor(len(parts)) as ex:
        results = [f for p in [ex.submit(x) for x in parts] for f in p.result()]
    first = "Miri, schedule %d" % rep.seed
    for what, r in results:
        judge(rep, what, r, rep.thorough or what in (first, "ThreadSanitizer"))
    slow = not rep.thorough and time.time() - rep.t0 > 500
    run_programs(rep, nd, len(native), factor=60 if rep.thorough else 1 if slow else 4, jobs=4)
    refusals(rep, c29_programs())
    rep.coverage["key_types_interpreted"] = [t.desc for t in few]
    rep.coverage["key_types_native_and_thread_sanitizer"] = [t.desc for t in some]
    return rep.finish()
