"""One function per property."""
import random

import corpus
from corpus import borrows, corpus as make_corpus, shards
from drive import NCPU, Report, build, crate, program, run_programs

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


ALL_VALUES = [
    "u64", "String", "()", "Option<Option<u32>>", "Tr", "u8", "Big", "bool", "Vec<u16>", "NonZeroU8", "&'static str",
    "Zst16", "u32", "(u8, String)", "f64", "(Tr, u8)", "(Tr, Big)",
]


DEFAULT_VALUES = [v for v in ALL_VALUES if "NonZero" not in v]


def values(rep, roots, pool=ALL_VALUES, k=2):
    """k value types per key type, rotating so that all meet all over seeds."""
    rnd = random.Random("values-%s-%s" % (rep.pid, rep.seed))
    off = rnd.randrange(len(pool))
    out = {}
    for i, t in enumerate(roots):
        vs = []
        for j in range(k):
            vs.append(pool[(off + i * k + j) % len(pool)])
        if "Big" in pool and "Huge" not in vs and vs and t.fixed and 0 < t.count <= 9 and i % 4 == rep.seed % 4:
            vs[-1] = "Huge"
        out[t.desc] = vs
    return out


USE = "use fm::val::*; use std::num::NonZeroU8;\n"


# Key types of very many keys, and how many of them: quick, thorough.
DEEP = [("u64", "u64", 70000, 70000), ("Option<u32>", "Option<u32>", 1025, 70000), ("fm::props::deep::DK", "DK", 4097, 70000), ("u8", "u8", 256, 256),
        ("char", "char", 1025, 70000), ("&'static str", "&str", 600, 20000)]
DEEP_FOR = ("C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C10", "C13", "C14", "C18", "C19", "C20", "C21", "C24", "C25")


def deep(rep):
    """The same property over large hashed containers."""
    if rep.pid not in DEEP_FOR:
        return []
    return [("%s, very many keys" % desc, "fm::props::deep::%s::<%s>(ctx, %d);" % (rep.pid.lower(), ty, (q, t)[rep.thorough])) for ty, desc, q, t in DEEP
            if not (ty.startswith("&") and rep.pid in ("C20", "C21"))]


def methods(rep, roots):
    """Every overridable method of the iterators, for some of the key types."""
    if rep.pid not in ("C04", "C06", "C18"):
        return []
    rnd = random.Random("methods-%s-%s" % (rep.pid, rep.seed))
    named = [t for t in (corpus.BOOL, corpus.UNIT, corpus.WIDE, corpus.FXC, corpus.FXH, corpus.opt(corpus.BOOL), corpus.opt(corpus.FX3), corpus.opt(corpus.FXB9))
             if t.fixed or rep.pid != "C06"]
    own = [t for t in roots if isinstance(t, corpus.Enum) and 2 <= t.count <= 70]
    picked = named
    for want in (lambda t: t.bitset, lambda t: t.simple and not t.bitset, lambda t: not t.simple and t.fixed, lambda t: not t.fixed):
        some = [t for t in own if want(t)]
        picked = picked + rnd.sample(some, min(len(some), 6 if rep.thorough else 2))
    out = []
    for t in picked:
        if rep.pid == "C18":
            call = "fm::intersection_methods!(ctx, %s);" % t.rust
        else:
            call = "fm::methods!(ctx, %s, %s);" % (t.rust, "hashed" if not t.fixed else "fixed" if rep.pid == "C06" else "front")
        out.append((t, "%s, all methods" % t.desc, call))
    return out


def standard(rep, roots, call, features=("hashbrown", "std"), deps="", opt=None, nshards=NCPU, extra="", factor=None, env=None, derives=""):
    """Generate, build, run."""
    rep.log("%d key types" % len(roots))
    groups = shards(roots, nshards)
    more = deep(rep)
    more = [more[len(groups) - 1 - i::len(groups)] for i in range(len(groups))]
    for i, (t, desc, src) in enumerate(methods(rep, roots)):
        # A key type of a program goes where it is defined.
        at = [j for j, g in enumerate(groups) if t in g] if isinstance(t, corpus.Enum) else [i % len(groups)]
        more[at[0]].append((desc, src))
    progs = [program(rep.pid, s, call, USE + extra, derives, more[i]) for i, s in enumerate(groups)]
    d = crate(rep.work, progs, features=features, deps=deps)
    build(rep, d)
    run_programs(rep, d, len(progs), factor=factor, env=env)
    rep.coverage["key_types"] = [t.desc for t in roots]
    return d


TWO = "fm::props::%s::run::<%s, %s, %s>(ctx);"
ONE = "fm::props::%s::run::<%s, %s>(ctx);"
NONE = "fm::props::%s::run::<%s>(ctx);"


def simple_check(pid, rule, k=2, pool=ALL_VALUES, want=lambda t: True, factor=(1, 8), hashed=True, size=1.0, extra="", max_count=None):
    """A property decided by one monitor over the whole corpus."""
    mod = pid.lower()

    def go():
        rep = Report(pid, rule)
        roots = make_corpus(rep.seed, rep.thorough, want=want, hashed=hashed, size=size, max_count=max_count)
        v = values(rep, roots, pool, k)
        pat = {0: NONE, 1: ONE, 2: TWO}[k]
        standard(rep, roots, lambda t: [pat % (mod, t.rust, *v[t.desc])], factor=factor[1 if rep.thorough else 0], extra=extra)
        return rep.finish()

    CHECKS[pid] = go


simple_check("C01", "a case is one call in a history on one key type and value type, with the whole map compared to a dictionary "
             "afterwards; distinct: by key type, operation, key and contents before the call", factor=(4, 40))
simple_check("C02", "a case is one call in a history on one key type, with the whole set compared to a mathematical set afterwards; "
             "distinct: by key type, operation, element and contents before the call", k=0, factor=(6, 60))
simple_check("C03", "a case is one write to one key with every other key of the type observed before and after; distinct: by key "
             "type, operation, key and contents before", factor=(6, 40))
simple_check("C04", "a case is one complete consumption of one of the eleven iterators in one of nine ways, compared with the "
             "contents as get/contains report them; distinct: by key type, iterator, way and contents", factor=(2, 20))
simple_check("C05", "a case is one iterator consumed over a container built by one history; distinct: by key type, iterator, "
             "history style and contents", factor=(2, 20))
simple_check("C06", "a case is one word of steps from the two ends (with a clone taken on the way) on one iterator, compared with "
             "a deque of its items; distinct: by key type, iterator, word, contents and way of finishing", want=lambda t: t.fixed,
             factor=(2, 12))
simple_check("C07", "a case is one iterator consumed with its size promises noted at every point and compared with what it yielded "
             "from there; distinct: by key type, iterator and contents", k=1, factor=(2, 20))
simple_check("C08", "a case is one entry operation (of 22) on one key, with the whole map, the closure calls and the address of the "
             "returned reference checked afterwards; distinct: by key type, operation, key and contents before", factor=(3, 20),
             pool=DEFAULT_VALUES)
simple_check("C09", "a case is one retain with one predicate, with every predicate call and the contents afterwards checked; "
             "distinct: by key type, contents, predicate and writes", factor=(3, 20))
simple_check("C13", "a case is one round of writes through one of eleven access paths, read back through every other path with "
             "the addresses compared; distinct: by key type, path, keys written and contents", factor=(3, 20))
simple_check("C10", "a case is one operation in a history over up to four maps of ledger-tracked values, after which the values alive "
             "must be exactly those owned; distinct: by key type, operation and contents of the maps", k=0, factor=(3, 20))


@check("C12")
def c12():
    rep = Report("C12", "a case is one operation run with one kind of user code (closure, iterator, clone, comparison, hash, "
                 "formatting, default, drop) panicking at its k-th call, for every k, with ownership, contents and usability "
                 "checked after the unwinding; distinct: by key type, operation, kind, k, contents")
    roots = make_corpus(rep.seed, rep.thorough)
    standard(rep, roots, lambda t: ["fm::props::c12::%s::<%s>(ctx);" % ("run_ord" if t.ord == 2 else "run", t.rust)],
             factor=20 if rep.thorough else 2)
    return rep.finish()


simple_check("C14", "a case is one pair of containers built by independent histories and compared both ways with == and !=, against "
             "key-by-key comparison through get/contains; distinct: by key type, both contents and the outcome", factor=(2, 20))
simple_check("C18", "a case is one pair of sets intersected both ways by eight forms of iteration, against contains; distinct: by key "
             "type, both contents and form", k=0, factor=(2, 20))

HASH_VALUES = [v for v in ALL_VALUES if v != "f64"]
COPY_VALUES = ["u64", "()", "Option<Option<u32>>", "u8", "bool", "NonZeroU8", "&'static str", "u32", "f64"]
PARTIAL_VALUES = ["f64", "Option<f64>", "(f64, u8)"]


@check("C15")
def c15():
    rep = Report("C15", "a case is one pair of containers built by independent histories, with the calls and the bytes each feeds to a "
                 "recording hasher; distinct: by key type, both contents and whether they are equal")
    roots = make_corpus(rep.seed, rep.thorough, want=lambda t: t.ord >= 1)
    v = values(rep, roots, HASH_VALUES, 2)

    def call(t):
        if t.ord == 1:
            return ["fm::props::c15::run_set::<%s>(ctx);" % t.rust]
        return [TWO % ("c15", t.rust, *v[t.desc])]

    standard(rep, roots, call, factor=20 if rep.thorough else 2)
    return rep.finish()


@check("C16")
def c16():
    rep = Report("C16", "a case is one pair (and a third, for clamp) of maps built by independent histories, with every comparison "
                 "operation checked against standard ordered maps of their contents; distinct: by key type and contents")
    roots = make_corpus(rep.seed, rep.thorough, want=lambda t: t.ord == 2)
    v = values(rep, roots, HASH_VALUES, 2)
    w = values(rep, roots, PARTIAL_VALUES, 1)
    standard(rep, roots, lambda t: ["fm::props::c16::run::<%s, %s, %s, %s>(ctx);" % (t.rust, *v[t.desc], *w[t.desc])],
             factor=20 if rep.thorough else 2)
    return rep.finish()


@check("C17")
def c17():
    rep = Report("C17", "a case is one pair (and a third, for clamp) of sets built by independent histories, with every comparison "
                 "operation checked against standard ordered sets of their elements; distinct: by key type and contents")
    roots = make_corpus(rep.seed, rep.thorough, want=lambda t: t.ord >= 1)
    standard(rep, roots, lambda t: [NONE % ("c17", t.rust)], factor=20 if rep.thorough else 2)
    return rep.finish()


@check("C19")
def c19():
    rep = Report("C19", "a case is one step of up to five containers descending from one another by clone, copy and clone_from, with "
                 "every other one checked to be unchanged; or one iterator cloned midway; or one clone with its value clones "
                 "counted; distinct: by key type, step and contents")
    roots = make_corpus(rep.seed, rep.thorough)
    v = values(rep, roots, ALL_VALUES, 2)
    w = values(rep, roots, COPY_VALUES, 1)

    def call(t):
        if t.fixed:
            return ["fm::props::c19::run_fixed::<%s, %s, %s, %s>(ctx);" % (t.rust, *v[t.desc], *w[t.desc])]
        return [TWO % ("c19", t.rust, *v[t.desc])]

    standard(rep, roots, call, factor=20 if rep.thorough else 2)
    return rep.finish()


SERDE_VALUES = ["u64", "String", "()", "Option<Option<u32>>", "Tr", "u8", "bool", "Vec<u16>", "f64", "(u8, String)", "Zst16", "Big", "(Tr, u8)", "(Big, Tr)"]
SERDE_DEPS = 'serde = { version = "1", features = ["derive"] }'
ALLOCATOR = "#[global_allocator] static ALLOC: fm::alloc::Counting = fm::alloc::Counting;\n"


def serde_check(pid, rule, factor):
    def go():
        rep = Report(pid, rule)
        roots = make_corpus(rep.seed, rep.thorough, want=lambda t: not borrows(t))
        v = values(rep, roots, SERDE_VALUES, 2)
        standard(rep, roots, lambda t: [TWO % (pid.lower(), t.rust, *v[t.desc])], features=("hashbrown", "std", "serde"),
                 deps=SERDE_DEPS, extra=ALLOCATOR, derives=", serde::Serialize, serde::Deserialize",
                 factor=factor[1 if rep.thorough else 0])
        rep.assumptions.append("keys which borrow (&str, &[u8]) are not covered: they cannot be deserialized from owned input")
        return rep.finish()

    CHECKS[pid] = go


serde_check("C20", "a case is one container built by one history, serialized to recorded events and to three formats, and read back in "
            "several dialects; distinct: by key type, value type and contents", (2, 20))
serde_check("C21", "a case is one input stream under one lying hint, one fault or panic at one event, one wrong kind in one place, or one "
            "damaged document, with the result compared to inserting what a reference reader gets; distinct: by key type, stream "
            "and disturbance", (1, 10))


@check("C22")
def c22():
    rep = Report("C22", "a case is one raw value, read from a set built by a history or turned into one, with everything the set says "
                 "compared to its bits; distinct: by key type and raw value")
    roots = make_corpus(rep.seed, rep.thorough, want=lambda t: t.bitset)
    standard(rep, roots, lambda t: [NONE % ("c22", t.rust)], factor=20 if rep.thorough else 2)
    return rep.finish()


@check("C23")
def c23():
    rep = Report("C23", "a case is one history of up to six sets, or of a map, run on a key type and on its twin with bitset storage, "
                 "with every result, callback and debug text logged and the logs compared; distinct: by key type and log")
    pairs = corpus.twins(rep.seed, rep.thorough)
    v = values(rep, [a for a, _ in pairs], ALL_VALUES, 2)
    twin = {a.rust: b for a, b in pairs}
    roots = []
    # Both of a pair in the same program.
    groups = shards([a for a, _ in pairs], NCPU)
    progs = []
    for g in groups:
        both = [x for a in g for x in (a, twin[a.rust])]

        def call(t):
            if t.rust not in twin:
                return []
            b = twin[t.rust]
            f = "run_ord" if t.ord == 2 else "run"
            return ["fm::props::c23::%s::<%s, %s, %s, %s>(ctx);" % (f, t.rust, b.rust, *v[t.desc])]
        progs.append(program(rep.pid, both, call, USE))
    d = crate(rep.work, progs)
    build(rep, d)
    run_programs(rep, d, len(progs), factor=30 if rep.thorough else 2)
    rep.coverage["key_types"] = ["%s / %s" % (a.desc, b.desc) for a, b in pairs]
    return rep.finish()


simple_check("C24", "a case is one collection from one source (lying about its length, ending early, going on after its end, panicking, an "
             "array, an ordinary adapter), compared with insertion in sequence, with the calls made on the source logged; distinct: "
             "by key type and source", factor=(2, 20))
simple_check("C25", "a case is one container formatted in twenty ways and into writers failing at each byte, compared with the standard "
             "formatting of its entries; distinct: by key type, value type and contents", factor=(2, 12))


@check("C26")
def c26():
    rep = Report("C26", "a case is one container whose operations run one by one under a counting allocator that must count nothing, or "
                 "one key type whose sizes are compared with the promised ones; distinct: by key type, value type and contents")
    roots = make_corpus(rep.seed, rep.thorough)
    # A tracked value's own ledger allocates.
    v = values(rep, roots, [x for x in ALL_VALUES if "Tr" not in x], 2)
    w = values(rep, roots, COPY_VALUES + ["Big", "Zst16"], 2)

    def call(t):
        a, b = v[t.desc]
        c, d = w[t.desc]
        out = []
        if t.fixed:
            out.append("fm::props::c26::run::<%s, %s, %s, %s>(ctx);" % (t.rust, a, b, c))
        else:
            out.append("fm::props::c26::run_any::<%s, %s, %s>(ctx);" % (t.rust, a, b))
        if t.simple:
            out.append("fm::props::c26::sizes::<%s, %s, %s, %s, %d, %s>(ctx);" % (t.rust, a, b, d, t.count, "true" if t.bitset else "false"))
        if t.ord == 2:
            out.append("fm::props::c26::ordered::<%s, %s>(ctx);" % (t.rust, c))
        elif t.ord == 1:
            out.append("fm::props::c26::ordered_sets::<%s>(ctx);" % t.rust)
        return ["\n".join(out)]

    standard(rep, roots, call, extra=ALLOCATOR, factor=12 if rep.thorough else 2)
    return rep.finish()


BARE_TOML = """[package]
name = "mon"
version = "0.1.0"
edition = "2021"

[workspace]

[features]
bare = []
hashbrown = ["fixed-map/hashbrown"]
serde = ["fixed-map/serde"]

[dependencies]
fixed-map = {{ path = "{repo}", default-features = false, features = [{features}] }}

[[bin]]
name = "p0"
path = "main.rs"

[profile.dev]
opt-level = {opt}
debug = false
incremental = false
panic = "abort"
"""


@check("C27")
def c27():
    import concurrent.futures as cf
    import itertools
    import json
    import os
    from drive import REPO, ROOT, Broken, DoesNotBuild, env_for_build, run
    rep = Report("C27", "a case is one round of one section (sets, maps, entries, promises, ordering, serialization, a history needing only "
                 "core) on one key type, whose complete log is digested and compared over all builds; distinct: by key type and log")
    rnd = random.Random("c27-%s" % rep.seed)
    allroots = [t for t in make_corpus(rep.seed, rep.thorough) if not borrows(t)]
    ordd = [t for t in allroots if t.ord == 2 and 2 <= t.count <= 70]
    fixed = [t for t in allroots if t.fixed and t.ord < 2 and t.count <= 70]
    hashed = [t for t in allroots if not t.fixed]
    k = 4 if rep.thorough else 1
    roots = rnd.sample(ordd, min(len(ordd), 3 * k)) + rnd.sample(fixed, min(len(fixed), 3 * k)) + rnd.sample(hashed, min(len(hashed), 2 * k))
    # What the crate itself stores, and the sizes at which representations change.
    for want in (lambda t: t is corpus.BOOL, lambda t: t is corpus.UNIT, lambda t: t.desc == "Option<bool>", lambda t: t.desc == "Option<()>",
                 lambda t: t.bitset and t.count > 64, lambda t: t.simple and not t.bitset and t.count in (256, 257), lambda t: t is corpus.WIDE):
        some = [t for t in allroots if want(t) and t not in roots]
        roots += rnd.sample(some, min(len(some), 1))
    v = values(rep, roots, SERDE_VALUES, 2)
    everything = ("hashbrown", "std", "serde")
    combos = [c for n in range(4) for c in itertools.combinations(everything, n)]
    profiles = {
        "0": dict(opt=0), "1": dict(opt=1), "2": dict(opt=2), "3": dict(opt=3, checks=False), "s": dict(opt='"s"', checks=False),
        "z": dict(opt='"z"'), "3-lto": dict(opt=3, checks=False, lto=True),
    }
    if rep.thorough:
        configs = [(c, p) for c in combos for p in ("0", "1", "2", "3", "s", "z")] + [(everything, "3-lto"), ((), "3-lto"), (("hashbrown", "std"), "3-lto")]
    else:
        configs = [(("hashbrown", "std"), "0"), (everything, "3"), ((), "3"), (("std",), "0"), (("hashbrown",), "1"), (("serde",), "0"),
                   (("std", "serde"), "s"), (("hashbrown", "serde"), "2"), (everything, "0"), (("hashbrown", "std"), "3")]
    rep.log("%d key types, %d builds" % (len(roots), len(configs)))

    def name(c, p):
        return "features {%s}, opt-level %s" % (", ".join(sorted(c)), p)

    def setup(i, c, p):
        mine = [t for t in roots if t.fixed or "hashbrown" in c]

        def call(t):
            out = ["fm::props::c27::run::<%s, %s, %s>(ctx);" % (t.rust, *v[t.desc]), "fm::interfaces!(ctx, %s);" % t.rust]
            if t.ord == 2:
                out.append("fm::props::c27::ordered::<%s>(ctx);" % t.rust)
            elif t.ord == 1:
                out.append("fm::props::c27::ordered_sets::<%s>(ctx);" % t.rust)
            if "serde" in c:
                out.append("fm::props::c27::serde::<%s, %s>(ctx);" % (t.rust, v[t.desc][0]))
            return ["\n".join(out)]

        src = program(rep.pid, mine, call, USE, ", serde::Serialize, serde::Deserialize" if "serde" in c else "")
        pr = profiles[p]
        d = crate(rep.work, [src], features=c, deps=SERDE_DEPS if "serde" in c else "", opt=pr["opt"], name="mon%d" % i, cgu=8)
        if pr.get("checks") is False or pr.get("lto"):
            f = os.path.join(d, "Cargo.toml")
            s = open(f).read()
            if pr.get("checks") is False:
                s = s.replace("debug-assertions = true", "debug-assertions = false").replace("overflow-checks = true", "overflow-checks = false")
            if pr.get("lto"):
                s = s.replace("incremental = false", "incremental = false\nlto = \"fat\"", 1)
            open(f, "w").write(s)
        return d

    def bare(i, c, std, opt):
        d = os.path.join(rep.work, "bare%d" % i)
        os.makedirs(d)
        src = open(os.path.join(ROOT, "fm", "bare", "main.rs")).read()
        src = src.replace("SEED;", "%d;" % rep.seed).replace("ROUNDS", "40" if rep.thorough else "6")
        open(os.path.join(d, "main.rs"), "w").write(src)
        fx = list(c) + (["std"] if std else [])
        open(os.path.join(d, "Cargo.toml"), "w").write(BARE_TOML.format(repo=REPO, features=", ".join('"%s"' % x for x in fx), opt=opt))
        import shutil
        shutil.copy(os.path.join(ROOT, "tools", "bare.lock"), os.path.join(d, "Cargo.lock"))
        feats = list(c) + ([] if std else ["bare"])
        return d, ["--features", ",".join(feats)] if feats else []

    jobs = []
    for i, (c, p) in enumerate(configs):
        jobs.append((name(c, p), setup(i, c, p), [], "serde" in c, c))
    bares = [((), False, 3), (("hashbrown",), True, 0), (("hashbrown",), False, 0), (("serde",), False, 0), (("hashbrown", "serde"), False, 3)]
    if rep.thorough:
        bares = [(c, s, o) for c in ((), ("hashbrown",), ("serde",), ("hashbrown", "serde")) for s in (True, False) for o in (0, 1, 2, 3, '"s"')]
    for i, (c, s, o) in enumerate(bares):
        d, args = bare(i, c, s, o)
        jobs.append(("%s, features {%s}, opt-level %s" % ("with std" if s else "without the standard library", ", ".join(c), o), d, args, False, None))

    def one(job):
        nm, d, args, _, _ = job
        try:
            build(rep, d, args=args, jobs=2)
        except DoesNotBuild as e:
            return nm, None, e.message
        except Broken as e:
            # The crate itself, in this configuration.
            return nm, None, ("!" + str(e))
        rc, out, err, to = run([os.path.join(d, "target", "debug", "p0")], cwd=d, timeout=400, mem_gb=6, env=dict(
            os.environ, FM_FACTOR="8" if rep.thorough else "3", VERIF_SEED=str(rep.seed), RUST_BACKTRACE="0"))
        return nm, (rc, out, err, to), None

    with cf.ThreadPoolExecutor(NCPU) as ex:
        results = list(ex.map(one, jobs))
    if results[0][2]:
        if results[0][2].startswith("!"):
            raise Broken(results[0][2][1:])
        raise DoesNotBuild(rep, results[0][2])
    from drive import parse
    digests, interfaces = [], []
    for job, (nm, r, err) in zip(jobs, results):
        if err is not None:
            if err.startswith("!"):
                # Only an answer if the compiler refused it, with the same tree building by default.
                import re
                if re.search(r"^error(\[E\d+\])?: |linking with", err, re.M) and "timeout" not in err.split("\n", 1)[0] and "signal:" not in err:
                    rep.violation({"shape": nm, "case": "build", "message": "this configuration does not build, the default one does: " + err[1:3000]})
                    continue
                raise Broken(err[1:])
            rep.violation({"shape": nm, "case": "build", "message": "programs which build by default do not build with %s: %s" % (nm, err[:3000])})
            continue
        rc, out, stderr, to = r
        p = parse(out)
        for x in p["violations"]:
            x["message"] = "with %s: %s" % (nm, x["message"])
            rep.violation(x)
        if to:
            raise Broken("%s did not finish" % nm)
        if rc not in (0, 3) or (not p["result"] and job[4] is not None and not p["violations"]):
            if rc < 0:
                rep.violation({"shape": p["shapes"][-1] if p["shapes"] else "?", "case": "crash", "message": "with %s the program died from signal %d; %s %s" % (
                    nm, -rc, out[-200:], stderr[-800:])})
                continue
            raise Broken("%s ended with %d: %s" % (nm, rc, stderr[-2000:]))
        if p["result"]:
            rep.evaluations += p["result"]["evaluations"]
            rep.add_counters(p["result"]["counters"])
            rep.samples += p["result"]["samples"][:2]
        dg, seen, ifs = {}, {}, {}
        for line in out.splitlines():
            if line.startswith("@@D "):
                x = json.loads(line[4:])
                key = (x["shape"], x["section"], x["round"])
                n = seen[key] = seen.get(key, 0) + 1
                dg[key + (n,)] = x["digest"]
            elif line.startswith("@@I "):
                x = json.loads(line[4:])
                ifs[x["shape"]] = set(x["has"])
        digests.append((nm, dg, job))
        interfaces.append((nm, ifs, job))
    if not digests:
        return rep.finish()
    ref, where = {}, {}
    compared = 0
    for nm, dg, job in digests:
        bad = 0
        for key, h in dg.items():
            if key not in ref:
                ref[key], where[key] = h, (nm, job)
                continue
            compared += 1
            if ref[key] != h:
                bad += 1
                if bad > 2:
                    continue
                a, b = where[key]
                diff = c27_difference(run, b, job, key, rep)
                rep.violation({"shape": key[0], "case": "%s %d" % key[1:3], "message": "%s of round %d on %s differ between a build with %s and one with %s: %s" % (
                    key[1], key[2], key[0], a, nm, diff)})
    for nm, ifs, job in interfaces:
        for nm2, ifs2, job2 in interfaces:
            if job[4] is None or job2[4] is None or not set(job[4]) <= set(job2[4]):
                continue
            for shape, has in ifs.items():
                gone = has - ifs2.get(shape, has)
                compared += 1
                if gone:
                    rep.violation({"shape": shape, "case": "interfaces", "message": "%s has %s, %s has not" % (nm, ", ".join(sorted(gone)), nm2)})
    rep.distinct = len(set(ref.items()))
    rep.counters["digests compared"] = compared
    if len(digests) > 1 and compared == 0:
        raise Broken("no digest was compared")
    rep.coverage["builds"] = [d[0] for d in digests]
    rep.coverage["key_types"] = [t.desc for t in roots]
    rep.assumptions.append("within a hashed component only contents are compared, not order: the hasher is seeded per process")
    return rep.finish()


def c27_difference(run, a, b, key, rep):
    """The first observation two builds disagree on."""
    import os
    outs = []
    for job in (a, b):
        rc, out, err, to = run([os.path.join(job[1], "target", "debug", "p0")], cwd=job[1], timeout=300, mem_gb=6, env=dict(
            os.environ, FM_FACTOR="8" if rep.thorough else "3", VERIF_SEED=str(rep.seed), FM_ONLY=key[0], FM_DUMP="%s %d" % key[1:3]))
        outs.append([x[4:] for x in out.splitlines() if x.startswith("@@L ")])
    for i, (x, y) in enumerate(zip(*outs)):
        if x != y:
            return "observation %d is %s in the first, %s in the second, after %s" % (i, x[:800], y[:800], outs[0][max(0, i - 2):i])
    return "%d and %d observations" % (len(outs[0]), len(outs[1]))


from c28 import c28  # noqa: E402

CHECKS["C28"] = c28

from san import c11, c29  # noqa: E402

CHECKS["C11"] = c11
CHECKS["C29"] = c29
