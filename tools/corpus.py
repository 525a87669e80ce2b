"""Key shapes: a fixed core plus shapes drawn from the seed.

Every shape is an enum definition (or a primitive key) together with a
description of its structure that is written out independently of the derive
macro: the order of its keys, the groups of unordered keys and the place of
each key.
"""
import random


class Ty:
    """A key type.  `ord`: 2 ordered maps and sets, 1 ordered sets, 0 none."""

    def __init__(self, rust, count, fixed, ord_, prim=True, bitset=False, complete=True, desc=None, simple=False):
        self.rust = rust
        self.count = count
        self.fixed = fixed
        self.ord = ord_
        self.prim = prim
        self.bitset = bitset
        self.complete = complete
        self.desc = desc or rust
        self.simple = simple
        self.variants = []
        self.attrs = ""
        self.weight = count + 10
        self.deps = []
        self.root_ok = True

    def __repr__(self):
        return self.desc


def P(rust, count, fixed, ord_, complete=True):
    return Ty(rust, count, fixed, ord_, complete=complete)


BOOL = P("bool", 2, True, 0)
UNIT = P("()", 1, True, 1)
USERUNIT = P("fm::shape::UserUnit", 1, True, 1)
CHAR, BYTE, U32, STR, BYTES = 0, 1, 2, 10, 11
HASHED = [
    P("char", 6, False, 0, False), P("u8", 6, False, 0, False),
    P("u32", 7, False, 0, False), P("u128", 5, False, 0, False),
    P("usize", 4, False, 0, False), P("i8", 5, False, 0, False),
    P("i32", 5, False, 0, False), P("i64", 5, False, 0, False),
    P("i128", 5, False, 0, False), P("isize", 4, False, 0, False), P("&'static str", 6, False, 0, False),
    P("&'static [u8]", 5, False, 0, False),
]
WIDE = P("u64", 260, False, 0, False)


def opt(t):
    """Option of a key.  Only usable as a root when `fm` implements it."""
    o = Ty("Option<%s>" % t.rust, t.count + 1, t.fixed, 0, complete=t.complete, desc="Option<%s>" % t.desc)
    o.deps = [t] if not t.prim else list(t.deps)
    o.weight = t.weight + 5
    return o


# Enums defined in fm::fixtures, and the options over them `fm` implements.
FX3 = Ty("fm::fixtures::F3", 3, True, 2, simple=True)
FXB9 = Ty("fm::fixtures::FB9", 9, True, 2, bitset=True, simple=True)
FXC = Ty("fm::fixtures::FC", 8, True, 0)
FXH = Ty("fm::fixtures::FH", 8, False, 0, complete=False)
ROOT_PRIMS = (
    [BOOL, UNIT, USERUNIT, WIDE]
    + [opt(BOOL), opt(UNIT), opt(opt(BOOL)), opt(opt(UNIT)), opt(HASHED[U32])]
    + [FXC, FXH, opt(FX3), opt(FXB9), opt(FXC), opt(FXH), opt(opt(FX3))]
)


class Enum(Ty):
    def __init__(self, name, variants, bitset=False, attrs="", note=""):
        """variants: list of (variant name, payload Ty or None, explicit discriminant or None)"""
        units = [v for v in variants if v[1] is None]
        pay = [v[1] for v in variants if v[1] is not None]
        count = sum(1 if p is None else p.count for _, p, _ in variants)
        fixed = all(p.fixed for p in pay)
        ord_ = 0 if pay else 2
        super().__init__(
            name, count, fixed, ord_, prim=False, bitset=bitset and not pay,
            complete=all(p.complete for p in pay), simple=not pay,
        )
        self.variants = variants
        self.attrs = attrs
        self.ask_bitset = bitset
        self.deps = [p for p in pay]
        self.weight = count * (1 + 0.02 * len(variants)) + 12 + 6 * len(pay)
        self.units = len(units)
        if pay:
            body = ", ".join(n if p is None else "%s(%s)" % (n, p.desc) for n, p, _ in variants)
            if len(body) > 160:
                body = body[:157] + "..."
        else:
            body = "%d plain" % len(variants)
        self.desc = "%s%s{%s}%s" % (name, "#[bitset]" if bitset else "", body, note)

    def source(self, derives=""):
        n = self.rust
        out = []
        out.append("#[derive(Debug, Clone, Copy, PartialEq, Key%s)]" % derives)
        if self.ask_bitset:
            out.append("#[key(bitset)]")
        if self.attrs:
            out.append(self.attrs)
        vs = []
        for v, p, d in self.variants:
            s = v if p is None else "%s(%s)" % (v, p.rust)
            if d is not None:
                s += " = %d" % d
            vs.append(s)
        out.append("pub enum %s { %s }" % (n, ", ".join(vs)))
        fill, groups, arms = [], [], []
        off = []
        run = []

        def flush():
            if run:
                fill.append("out.extend([%s]);" % ", ".join("%s::%s" % (n, v) for v in run))
                groups.append("for i in 0..%d { out.push(*next + i); } *next += %d;" % (len(run), len(run)))
                run.clear()

        base = 0
        terms = []
        for v, p, _ in self.variants:
            pos = " + ".join([str(base)] + terms)
            if p is None:
                run.append(v)
                arms.append("%s::%s => Some(%s)," % (n, v, pos))
                base += 1
            else:
                flush()
                fill.append(
                    "{ let mut v = Vec::new(); <%s as Shape>::fill(&mut v); out.extend(v.into_iter().map(%s::%s)); }"
                    % (p.rust, n, v))
                groups.append("<%s as Shape>::groups(next, out);" % p.rust)
                arms.append("%s::%s(k) => k.index().map(|i| i + %s)," % (n, v, pos))
                terms.append("<%s as Shape>::COUNT" % p.rust)
        flush()
        count = " + ".join([str(base)] + terms)
        b = lambda x: "true" if x else "false"
        out.append("impl Shape for %s {" % n)
        out.append("const NAME: &'static str = %s;" % rs(self.desc))
        out.append("const COUNT: usize = %s;" % count)
        out.append("const FIXED: bool = %s; const COMPLETE: bool = %s;" % (b(self.fixed), b(self.complete)))
        out.append("fn fill(out: &mut Vec<Self>) { let _ = &out; %s }" % "\n".join(fill))
        out.append("fn groups(next: &mut u32, out: &mut Vec<u32>) { let _ = (&next, &out); %s }" % "\n".join(groups))
        if self.variants:
            out.append("fn index(&self) -> Option<usize> { match self { %s } }" % "\n".join(arms))
        else:
            out.append("fn index(&self) -> Option<usize> { match *self {} }")
        out.append("}")
        return "\n".join(out)

    def api(self):
        out = ["fm::shape_api!(%s, %s);" % (self.rust, "fixed" if self.fixed else "hashed")]
        out.append("fm::descending!(%s);" % self.rust)
        if self.ord:
            out.append("fm::ord_api!(%s, %s);" % (self.rust, "both" if self.ord == 2 else "set"))
        if self.bitset:
            out.append("fm::raw_api!(%s);" % self.rust)
        return "\n".join(out)


def rs(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def borrows(t):
    """Some key of the type is borrowed data."""
    return "&" in t.rust or any(borrows(d) for d in t.deps) or any(p is not None and borrows(p) for _, p, _ in t.variants)


def closure(tys):
    """All enums a list of types needs, dependencies first."""
    seen, out = set(), []

    def go(t):
        for d in t.deps:
            go(d)
        if isinstance(t, Enum) and t.rust not in seen:
            seen.add(t.rust)
            out.append(t)

    for t in tys:
        go(t)
    return out


PLAIN_NAMES = ["A", "B", "C", "D", "E", "Foo", "Bar", "None", "Some", "Ok", "Err", "r#Box", "Vec", "Self_", "Map", "Set",
               "Entry", "Iter", "Key", "Option", "Copy", "x", "lower", "UPPER_CASE", "__Hidden", "É"]


class Maker:
    def __init__(self, prefix="E"):
        self.n = 0
        self.prefix = prefix

    def name(self):
        self.n += 1
        return "%s%d" % (self.prefix, self.n)

    def simple(self, n, bitset=False, attrs="", disc=None, names=None, note=""):
        if names is None:
            names = ["V%d" % i for i in range(n)]
        return Enum(self.name(), [(v, None, disc[i] if disc else None) for i, v in enumerate(names)], bitset, attrs, note)

    def comp(self, parts, attrs="", bitset=False, disc=None, note=""):
        """parts: list of int (that many plain variants) or Ty"""
        vs, u = [], 0
        d = lambda: disc[u] if disc else None
        for p in parts:
            if isinstance(p, int):
                for _ in range(p):
                    vs.append(("U%d" % u, None, d()))
                    u += 1
            else:
                vs.append(("P%d" % u, p, d()))
                u += 1
        return Enum(self.name(), vs, bitset, attrs, note)


ARRAY_SIZES = [0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 64, 65, 129]
ARRAY_MORE = [6, 10, 15, 31, 32, 63, 127, 128, 255, 256, 257, 300]
BIT_SIZES = [0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128]
BIT_MORE = [5, 6, 10, 20, 24, 25, 40, 47, 48, 50, 62, 66, 80, 96, 100, 126]


def corpus(seed, thorough=False, size=1.0, want=lambda t: True, hashed=True, max_count=None):
    """Root key types for a run."""
    rnd = random.Random("fm-corpus-%s" % seed)
    m = Maker()
    roots = []

    def add(t):
        if want(t) and (hashed or t.fixed) and (max_count is None or t.count <= max_count):
            roots.append(t)
        return t

    for t in ROOT_PRIMS:
        add(t)
    if thorough:
        for t in HASHED:
            add(t)
    else:
        add(HASHED[seed % len(HASHED)])
        add(HASHED[(seed * 7 + 3) % len(HASHED)])
    arr = {}
    for n in ARRAY_SIZES + (ARRAY_MORE if thorough else [128, 257]):
        arr[n] = add(m.simple(n))
    bit = {}
    for n in BIT_SIZES + (BIT_MORE if thorough else []):
        bit[n] = add(m.simple(n, bitset=True))
    # Declaration order is not discriminant order, names are not in order.
    add(m.simple(5, attrs="#[repr(u8)]", disc=[9, 3, 200, 0, 7], note=" discriminants 9,3,200,0,7"))
    add(m.simple(5, bitset=True, attrs="#[repr(i16)]", disc=[-5, 300, 2, 1, 0], note=" discriminants -5,300,2,1,0"))
    some = rnd.sample(range(-40, 40), 9)
    add(m.simple(9, disc=some, note=" discriminants %s" % ",".join(map(str, some))))
    some = rnd.sample(range(-128, 128), 12)
    add(m.simple(12, bitset=True, attrs="#[repr(i8)]", disc=some, note=" discriminants %s" % ",".join(map(str, some))))
    # Discriminants which agree in their low bits.
    wide = [1, 257, 65537, (1 << 32) + 1, (1 << 48) + 1, (1 << 64) - 1]
    add(m.simple(6, attrs="#[repr(u64)]", disc=wide, note=" discriminants of 64 bits"))
    wide = [(1 << 63) - 1, -1, 255, 65535, (1 << 32) - 1, -(1 << 63)]
    add(m.simple(6, bitset=True, attrs="#[repr(i64)]", disc=wide, note=" discriminants of 64 bits"))
    names = PLAIN_NAMES[:]
    rnd.shuffle(names)
    add(m.simple(0, names=names[:11], note=" odd names"))
    add(m.simple(0, bitset=True, names=names[:13], note=" odd names"))
    # Composites.
    c1 = add(m.comp([BOOL]))
    c2 = add(m.comp([1, BOOL, 1]))
    add(m.comp([UNIT]))
    add(m.comp([UNIT, 1, UNIT]))
    add(m.comp([1, USERUNIT, BOOL, 1]))
    add(m.comp([opt(BOOL), 2]))
    add(m.comp([2, opt(opt(BOOL))]))
    add(m.comp([arr[2]]))
    c3 = add(m.comp([1, arr[3], 1]))
    c4 = add(m.comp([arr[2], bit[3], arr[1]]))
    c5 = add(m.comp([bit[9], 1, arr[0], 1]))
    add(m.comp([1, c3, 1, c3]))
    c6 = add(m.comp([c4, opt(c3), 1]))
    add(m.comp([1, c6, opt(c5)]))
    add(m.comp([opt(arr[4]), opt(bit[8]), 1]))
    add(m.comp([UNIT, arr[2], 1]))
    add(m.comp([arr[17], bit[33], 3]))
    add(m.comp([1, c2, c1, BOOL, opt(UNIT)]))
    add(m.comp([7, BOOL, 9, BOOL, 4]))
    add(m.comp([arr[0], bit[0]]))
    some = rnd.sample(range(-128, 128), 6)
    add(m.comp([2, BOOL, arr[3], 1, opt(UNIT)], attrs="#[repr(i8)]", disc=some, note=" discriminants %s" % ",".join(map(str, some))))
    add(m.comp([bit[128], 1, arr[65]]))
    # Components with more keys than a byte counts.
    add(m.comp([arr[257], 1]))
    add(m.comp([2, opt(arr[257]), BOOL]))
    # More variants than a byte counts, some with keys.
    add(m.comp([254, BOOL, 1, opt(UNIT), 40, arr[3], 3]))
    # With hashed parts in every position.
    add(m.comp([BOOL, WIDE]))
    h1 = add(m.comp([HASHED[U32]]))
    h2 = add(m.comp([1, HASHED[CHAR], 1]))
    add(m.comp([HASHED[STR], 2, HASHED[BYTE]]))
    add(m.comp([2, arr[3], opt(HASHED[U32])]))
    add(m.comp([h1, 1, h2, BOOL]))
    add(m.comp([opt(h2), bit[4], HASHED[BYTES]]))
    # Random ones.
    count = int((50 if thorough else 10) * size)
    pool = [t for t in roots if t.count <= 40] or [arr[2], arr[3]]
    prim = [BOOL, UNIT, USERUNIT, opt(BOOL), opt(UNIT), opt(opt(BOOL))]
    for _ in range(count):
        parts = []
        for _ in range(rnd.randint(1, 6)):
            r = rnd.random()
            if r < 0.4:
                parts.append(rnd.randint(1, 4))
            elif r < 0.6:
                parts.append(rnd.choice(prim))
            elif r < 0.68 and hashed:
                h = rnd.choice(HASHED)
                parts.append(opt(h) if rnd.random() < 0.3 else h)
            else:
                t = rnd.choice(pool)
                parts.append(opt(t) if rnd.random() < 0.25 else t)
        if all(isinstance(p, int) for p in parts):
            t = m.simple(sum(parts), bitset=rnd.random() < 0.5)
        else:
            t = m.comp(parts)
        if t.count > 150:
            continue
        add(t)
        if t.count <= 40:
            pool.append(t)
    if max_count is None and thorough and hashed:
        # Very many plain variants.
        add(m.simple(700))
    return roots


def shards(roots, k):
    """Split by weight, keeping the order stable."""
    k = max(1, min(k, len(roots)))
    bins = [[0.0, i, []] for i in range(k)]
    for t in sorted(roots, key=lambda t: -t.weight):
        b = min(bins, key=lambda b: (b[0], b[1]))
        b[0] += t.weight
        b[2].append(t)
    return [b[2] for b in bins if b[2]]


def twins(seed, thorough=False):
    """Pairs of key types which differ in the storage they ask for only."""
    rnd = random.Random("fm-twins-%s" % seed)
    m = Maker("T")
    out = []
    leaf = {}

    def pair(f):
        a, b = f(False), f(True)
        out.append((a, b))
        return a, b

    for n in BIT_SIZES + (BIT_MORE if thorough else [rnd.choice(BIT_MORE), rnd.randint(2, 128)]):
        leaf[n] = pair(lambda bit: m.simple(n, bitset=bit))
    pair(lambda bit: m.simple(5, bitset=bit, attrs="#[repr(u8)]", disc=[9, 3, 200, 0, 7], note=" discriminants"))
    pair(lambda bit: m.simple(6, bitset=bit, attrs="#[repr(i64)]", disc=[-(1 << 63), 1, (1 << 32) + 1, 257, 0, (1 << 63) - 1], note=" discriminants of 64 bits"))
    names = PLAIN_NAMES[:]
    rnd.shuffle(names)
    pair(lambda bit: m.simple(0, bitset=bit, names=names[:9], note=" odd names"))
    pair(lambda bit: m.simple(0, bitset=bit, names=names[:17], note=" odd names"))
    # As parts of others.
    comps = [
        lambda l: m.comp([l(3)]), lambda l: m.comp([1, l(8), 1]), lambda l: m.comp([l(9), BOOL, l(2)]),
        lambda l: m.comp([opt(l(4)), 1]), lambda l: m.comp([2, opt(l(17)), UNIT, l(1)]), lambda l: m.comp([l(33), 1, l(64)]),
        lambda l: m.comp([l(0), 1, l(128)]), lambda l: m.comp([1, m.comp([l(7), opt(l(3)), 1]), l(16)]),
    ]
    for f in comps:
        pair(lambda bit: f(lambda n: leaf[n][1 if bit else 0]))
    for _ in range(24 if thorough else 4):
        parts = [rnd.choice([1, 2, BOOL, UNIT, "leaf", "leaf", "opt"]) for _ in range(rnd.randint(1, 5))]
        ns = [rnd.choice([1, 2, 3, 4, 7, 8, 9, 16, 17]) for _ in parts]
        if all(isinstance(p, int) for p in parts):
            parts.append("leaf")
            ns.append(5)
            leaf.setdefault(5, pair(lambda bit: m.simple(5, bitset=bit)))

        def mk(bit):
            i = 1 if bit else 0
            return m.comp([leaf[n][i] if p == "leaf" else opt(leaf[n][i]) if p == "opt" else p for p, n in zip(parts, ns)])
        pair(mk)
    return out
