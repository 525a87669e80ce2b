"""C28: what the derive accepts and refuses, as the compiler reports it.

Accepted programs are compiled with warnings denied and unsafe code forbidden,
must give no diagnostic at all, and are run. Refused ones must give an error
made by the derive (no error code, not a crash of the macro) that points into
the definition; each has a sibling without the offence which must be accepted.
"""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil

from drive import NCPU, REPO, ROOT, Broken, Report, env_for_build, run

LIB_TOML = """[package]
name = "mon"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
fixed-map = {{ path = "{repo}", features = ["hashbrown", "std"], default-features = false }}

[profile.dev]
opt-level = 0
debug = false
incremental = false
"""


class Lib:
    """The crates under test, built once."""

    def __init__(self, rep):
        d = os.path.join(rep.work, "lib")
        os.makedirs(os.path.join(d, "src"))
        open(os.path.join(d, "Cargo.toml"), "w").write(LIB_TOML.format(repo=REPO))
        open(os.path.join(d, "src", "lib.rs"), "w").write("pub use fixed_map;\n")
        shutil.copy(os.path.join(ROOT, "tools", "bare.lock"), os.path.join(d, "Cargo.lock"))
        self.env = env_for_build()
        rc, out, err, to = run(["cargo", "build", "--offline", "--target-dir", os.path.join(d, "target"), "--message-format=json"],
                               cwd=d, env=self.env, timeout=600)
        if rc != 0:
            raise Broken("the crates under test do not build: " + err[-3000:])
        self.deps = os.path.join(d, "target", "debug", "deps")
        self.rlib = None
        for line in out.splitlines():
            m = json.loads(line)
            if m.get("reason") == "compiler-artifact" and m["target"]["name"] in ("fixed_map", "fixed-map"):
                self.rlib = [f for f in m["filenames"] if f.endswith(".rlib")][0]
        if not self.rlib:
            raise Broken("no rlib of fixed-map")

    def compile(self, src, path, edition="2021", link=True):
        """(return code, diagnostics, stderr)"""
        with open(path + ".rs", "w", encoding="utf-8") as f:
            f.write(src)
        cmd = ["rustc", "--edition", edition, "--error-format=json", "-L", "dependency=" + self.deps, "--extern", "fixed_map=" + self.rlib,
               "-C", "debuginfo=0", "--crate-name", "c", path + ".rs"]
        cmd += ["-o", path + ".out"] if link else ["--emit=metadata", "-o", path + ".rmeta"]
        rc, out, err, to = run(cmd, env=self.env, timeout=200, mem_gb=8)
        if to:
            raise Broken("rustc did not finish on %s" % path)
        ds = []
        for line in err.splitlines():
            if line.startswith("{"):
                m = json.loads(line)
                if m.get("$message_type", "diagnostic") == "diagnostic" and "level" in m:
                    ds.append(m)
        return rc, ds, err


DRIVE = """
mod the_driver {
#[allow(dead_code)]
pub fn drive<K>(keys: &[K], ordered: bool)
where
    K: fixed_map::Key + Copy + PartialEq + std::fmt::Debug,
{
    let mut map = fixed_map::Map::<K, usize>::new();
    let mut set = fixed_map::Set::<K>::new();
    for round in 0..2 {
        for (i, k) in keys.iter().enumerate().rev() {
            assert_eq!(map.insert(*k, i), None, "insert {:?}", k);
            assert!(!map.is_empty() && map.contains_key(*k));
            assert!(set.insert(*k), "insert {:?}", k);
            assert!(!set.insert(*k) && set.contains(*k));
        }
        assert_eq!((map.len(), set.len()), (keys.len(), keys.len()));
        for (i, k) in keys.iter().enumerate() {
            assert_eq!(map.get(*k), Some(&i), "get {:?}", k);
            match map.entry(*k) {
                fixed_map::map::Entry::Occupied(_) => {}
                fixed_map::map::Entry::Vacant(_) => panic!("{:?} is vacant", k),
            }
        }
        let seen: Vec<(K, usize)> = map.iter().map(|(k, v)| (k, *v)).collect();
        let inset: Vec<K> = set.iter().collect();
        assert_eq!((seen.len(), inset.len()), (keys.len(), keys.len()));
        if ordered {
            assert!(seen.iter().enumerate().all(|(i, (k, v))| *k == keys[i] && *v == i), "{:?}", seen);
            assert_eq!(inset, keys);
        }
        for (i, k) in keys.iter().enumerate() {
            if i % 2 == round {
                assert_eq!(map.remove(*k), Some(i), "remove {:?}", k);
                assert!(set.remove(*k) && !set.contains(*k));
                *map.entry(*k).or_insert(99) += 1;
                assert_eq!(map.remove(*k), Some(100));
            }
        }
        map.retain(|_, v| *v % 2 == round);
        set.retain(|_| false);
        assert!(map.is_empty() && set.is_empty());
    }
}
}
#[allow(unused_imports)]
use the_driver::drive;
"""

FULL = "::core::fmt::Debug, ::core::clone::Clone, ::core::marker::Copy, ::core::cmp::PartialEq"
# Names of enums and payload types which clash with names in generated code (listed findings).
CLASHING = ["V", "F", "VacantEntry", "OccupiedEntry"]
CLASHING_COMPOSITE = ["SimpleVacantEntry", "SimpleOccupiedEntry"]
ENUM_NAMES = ["Foo", "Map", "Set", "Key", "Option", "Some", "Iter", "IterMut", "Entry", "K", "T", "H", "N", "I", "S", "E", "A", "B", "C", "U",
              "Clone", "Vec", "Keys", "Values", "ValuesMut", "IntoIter", "MapStorage", "SetStorage", "Simple", "Storage", "Result", "Ok",
              "Iterator", "Default", "Self_", "É", "Ключ", "Occupied", "Vacant", "Item", "Value", "Output", "Copy", "Hash", "Ord", "Debug",
              "AnEnumWithAVeryLongNameIndeedWhichGoesOnAndOnAndOnAndOnForQuiteSomeTimeUntilItEnds", "X1", "__X", "String", "Box"]
VARIANT_NAMES = ["A", "B", "C", "D", "None", "Some", "Ok", "Err", "Option", "Map", "Set", "Key", "Iter", "Self_", "Simple", "V", "F", "K", "T",
                 "VacantEntry", "OccupiedEntry", "SimpleVacantEntry", "SimpleOccupiedEntry", "Occupied", "Vacant", "Entry", "Keys", "Values", "IntoIter",
                 "Clone", "Copy", "Default", "Item", "Value", "Storage", "MapStorage", "SetStorage", "É", "Ж", "Abc", "ABC", "ABc", "aBc", "abc",
                 "r#type", "r#match", "r#fn", "r#struct", "r#async", "r#dyn", "self_", "zz", "core", "std", "fixed_map", "bool_", "_Q", "__Q",
                 "Bool", "str_", "UPPER_CASE_NAME", "snake_case_name", "X_1_Y", "Iterator", "Result", "Vec", "String", "Box", "First", "Second"]
SHADOW_TYPES = ["Option", "Result", "Vec", "String", "Box", "Map", "Set", "Entry", "MapStorage", "SetStorage", "Iter", "IterMut", "Keys", "Values",
                "ValuesMut", "IntoIter", "OptionBucket", "NoneBucket", "SomeBucket", "Ordering", "Storage", "Flatten", "FlatMap", "Enumerate", "Item"]
SHADOW_TRAITS = ["Iterator", "IntoIterator", "DoubleEndedIterator", "ExactSizeIterator", "Clone", "Copy", "Default", "Eq", "PartialEq", "Ord",
                 "PartialOrd", "Hash", "Hasher", "FnMut", "FnOnce", "Fn", "Drop", "Send", "Sync", "From", "Into", "Extend", "Key", "RawStorage",
                 "AsRef", "ToOwned", "FromIterator", "TryFrom", "TryInto"]
SHADOW_MODS = ["core", "std", "alloc", "fixed_map", "mem", "array", "slice", "option", "iter", "cmp", "hash", "clone", "primitive", "ops", "map", "set"]
SHADOW_VALUES = ["Some", "Ok", "Err"]
# Functions and macros are not part of the promise: a module without the prelude gets them back by name.
MACROS = ("#[allow(unused_imports)] use ::core::mem::drop;\n#[allow(unused_imports)] use ::core::{assert, assert_eq, assert_ne, debug_assert, debug_assert_eq, "
          "debug_assert_ne, matches, unreachable, todo, unimplemented, write, concat, stringify, panic};\n")
QUIET = "#[allow(dead_code, unused_macros, non_camel_case_types, non_upper_case_globals, non_snake_case, unused)]"


# Unusual places, fragments of macros, attributes and expressions: (label, definitions, body of a function using them, key of a finding).
XD = "#[derive(%s, ::fixed_map::Key)] " % FULL
ODD = [
    ("a trailing comma in a payload", XD + "enum X { A(bool,), B }", "drive(&[X::A(true), X::A(false), X::B], true);"),
    ("a payload that mentions Self", "trait Tr { type T; }\nimpl Tr for X { type T = bool; }\n" + XD + "enum X { A(<Self as Tr>::T), B }",
     "drive(&[X::A(true), X::A(false), X::B], true);", "self-in-payload"),
    ("a where clause", XD + "enum X where bool: Copy { A(bool), B }", "drive(&[X::A(true), X::A(false), X::B], true);"),
    ("a where clause on bits", XD + "#[key(bitset)] enum X where bool: Copy { A, B }", "drive(&[X::A, X::B], true);"),
    ("transparent", XD + "#[repr(transparent)] enum X { A(bool) }", "drive(&[X::A(true), X::A(false)], true);"),
    ("laid out as in C", XD + "#[repr(C)] enum X { A(bool), B, C(()) }", "drive(&[X::A(true), X::A(false), X::B, X::C(())], true);"),
    ("laid out as in C with bytes", XD + "#[repr(C, u8)] enum X { A(bool), B = 7 }", "drive(&[X::A(true), X::A(false), X::B], true);"),
    ("aligned", XD + "#[repr(align(16))] enum X { A, B }", "drive(&[X::A, X::B], true);"),
    ("in a constant's value", "const N: usize = { " + XD + "enum X { A(bool), B } let mut n = 0; let all = [X::A(true), X::A(false), X::B]; while n < all.len() { n += 1; } n };", "assert_eq!(N, 3);"),
    ("in a discriminant", "#[allow(dead_code)] #[repr(u8)] enum Y { Q = { #[allow(dead_code)] " + XD + "enum X { A, B } 3 } }", "assert_eq!(Y::Q as u8, 3);"),
    ("in a method of a trait", "trait T { fn f() { " + XD + "enum X { A(bool), B } drive(&[X::A(true), X::A(false), X::B], true); } }\nimpl T for () {}", "<() as T>::f();"),
    ("in an async function", "#[allow(dead_code)] async fn f() { #[allow(dead_code)] " + XD + "enum X { A(bool), B } }", ""),
    ("in a const function", "const fn f() { #[allow(dead_code)] " + XD + "enum X { A(bool), B } }", "f();"),
    ("Copy by hand", "#[derive(Debug, PartialEq, fixed_map::Key)] enum X { A, B(bool) }\nimpl Clone for X { fn clone(&self) -> Self { *self } }\nimpl Copy for X {}",
     "drive(&[X::A, X::B(true), X::B(false)], true);"),
    ("a default variant", "#[derive(Default, Debug, Clone, Copy, PartialEq, fixed_map::Key)] enum X { #[default] A, B(bool) }", "drive(&[X::default(), X::B(true), X::B(false)], true);"),
    ("many payloads", XD + "enum X { %s }" % ", ".join("A%d(bool)" % i for i in range(150)),
     "drive(&[%s], true);" % ", ".join("X::A%d(true), X::A%d(false)" % (i, i) for i in range(150))),
    ("the derive under another name", "use fixed_map::Key as Schluessel;\n#[derive(Debug, Clone, Copy, PartialEq, Schluessel)] enum X { A, B(bool) }", "drive(&[X::A, X::B(true), X::B(false)], true);"),
    ("the same payload often", XD + "enum Y { A, B }\ntype Al = Y;\n" + XD + "enum X { A(Al), B(Y), C(Option<Y>), D(Option<Al>) }",
     "drive(&[X::A(Y::A), X::A(Y::B), X::B(Y::A), X::B(Y::B), X::C(Some(Y::A)), X::C(Some(Y::B)), X::C(None), X::D(Some(Y::A)), X::D(Some(Y::B)), X::D(None)], true);"),
    ("macro fragments of a type", "macro_rules! m { ($($v:ident $(($t:ty))?),*) => { " + XD + "enum X { $($v $(($t))?),* } } }\nm!(A, B(bool), C(Option<bool>));",
     "drive(&[X::A, X::B(true), X::B(false), X::C(Some(true)), X::C(Some(false)), X::C(None)], true);"),
    ("macro fragments of a path", "macro_rules! m { ($($v:ident($t:path)),*) => { " + XD + "enum X { $($v($t)),* } } }\nm!(B(bool), C(Option<bool>));",
     "drive(&[X::B(true), X::B(false), X::C(Some(true)), X::C(Some(false)), X::C(None)], true);"),
    ("macro fragments of names", "macro_rules! m { ($n:ident $($v:ident($t:ident)),*) => { " + XD + "enum $n { $($v($t)),* } } }\nm!(X B(bool));", "drive(&[X::B(true), X::B(false)], true);"),
    ("macro fragments of tokens", "macro_rules! m { ($n:tt $($v:tt $t:tt),*) => { " + XD + "enum $n { $($v $t),* } } }\nm!(X B(bool), C(Option<bool>));",
     "drive(&[X::B(true), X::B(false), X::C(Some(true)), X::C(Some(false)), X::C(None)], true);"),
    ("the body as one token", "macro_rules! m { ($n:ident $t:tt) => { " + XD + "enum $n $t } }\nm!(X { A, B(bool), C });", "drive(&[X::A, X::B(true), X::B(false), X::C], true);"),
    ("macro fragments of expressions", "macro_rules! m { ($($v:ident = $t:expr),*) => { " + XD + "enum X { $($v = $t),* } } }\nm!(B = 4 + 1, C = (3));", "drive(&[X::B, X::C], true);"),
    ("macro fragments of literals", "macro_rules! m { ($($v:ident = $t:literal),*) => { " + XD + "#[key(bitset)] enum X { $($v = $t),* } } }\nm!(B = 1, C = -5);", "drive(&[X::B, X::C], true);"),
    ("macro fragments of attributes", "macro_rules! m { ($(#[$m:meta])* enum $($v:ident),*) => { " + XD + "$(#[$m])* enum X { $($v),* } } }\nm!(#[key(bitset)] #[doc = \"x\"] enum B, C);", "drive(&[X::B, X::C], true);"),
    ("macro fragments of visibility", "macro_rules! m { ($v:vis) => { " + XD + "$v enum X { A, B(bool) } } }\nm!(pub(crate));", "drive(&[X::A, X::B(true), X::B(false)], true);"),
    ("a macro fragment of an item", "macro_rules! m { ($i:item) => { $i } }\nm!(" + XD + "enum X { A, B(bool) });", "drive(&[X::A, X::B(true), X::B(false)], true);"),
    ("a macro inside a macro", "macro_rules! m { ($n:ident, $($v:ident $t:tt),*) => { macro_rules! inner { () => { " + XD + "enum $n { First, $($v $t),* } } } inner!(); } }\nm!(X, B(bool), C(()));",
     "drive(&[X::First, X::B(true), X::B(false), X::C(())], true);"),
    ("characters as discriminants", XD + "enum X { A = b'a' as isize, B = 'c' as isize, C = i8::MIN as isize }", "drive(&[X::A, X::B, X::C], true);"),
    ("calls as discriminants", "const fn f() -> isize { 77 }\n" + XD + "#[key(bitset)] enum X { A = f(), B = std::mem::size_of::<u32>() as isize, C = { const Q: isize = 9; Q } }", "drive(&[X::A, X::B, X::C], true);"),
    ("a deprecated variant", XD + "enum X { A, #[deprecated] B, C }", "drive(&[X::A, X::B, X::C], true);"),
    ("a deprecated variant of bits", XD + "#[key(bitset)] enum X { A, #[deprecated(note = \"old\")] B, C }", "drive(&[X::A, X::B, X::C], true);"),
    ("a deprecated variant with a key", XD + "enum X { A, #[deprecated] B(bool) }", "drive(&[X::A, X::B(true), X::B(false)], true);"),
    ("a deprecated enum", XD + "#[deprecated] enum X { A, B(bool) }", "drive(&[X::A, X::B(true), X::B(false)], true);"),
    ("a deprecated payload", "#[deprecated] type Q = bool;\n#[allow(deprecated)] " + XD + "enum X { A(Q), B }", "drive(&[X::A(true), X::A(false), X::B], true);"),
    ("a payload in parentheses", "#[allow(unused_parens)] " + XD + "enum X { A((bool)), B }", "drive(&[X::A(true), X::A(false), X::B], true);"),
    ("names not in camel case", "#[allow(non_camel_case_types)] " + XD + "enum x { a, b(bool) }", "drive(&[x::a, x::b(true), x::b(false)], true);"),
    ("lints with reasons", "#[allow(non_camel_case_types, reason = \"because\")] " + XD + "enum x { a, b(bool) }", "drive(&[x::a, x::b(true), x::b(false)], true);"),
    ("lints expected", "#[expect(non_camel_case_types)] " + XD + "enum x { A, B(bool) }", "drive(&[x::A, x::B(true), x::B(false)], true);"),
    ("lints of all sorts", "#[allow(clippy::pedantic, unused)] #[warn(missing_docs)] #[deny(missing_debug_implementations)] #[must_use] " + XD + "enum X { A, B(bool) }", "drive(&[X::A, X::B(true), X::B(false)], true);"),
    ("private in public", "#[allow(dead_code)] mod m { " + XD + "pub(super) enum P { A } " + XD + "pub(super) enum X { A, B(P) } }", "drive(&[m::X::A, m::X::B(m::P::A)], true);"),
]


class Gen:
    def __init__(self, rnd):
        self.rnd = rnd
        self.n = 0

    def fresh(self, p="S"):
        self.n += 1
        return "%s%d" % (p, 1000 + self.n)

    def variants(self, n):
        r = self.rnd
        style = r.randrange(4)
        if style == 0 or n > len(VARIANT_NAMES):
            return ["V%d" % i for i in range(n)]
        names = VARIANT_NAMES[:]
        r.shuffle(names)
        return names[:n]

    def discriminants(self, n, composite):
        """(representation, discriminant of each variant, constants used)"""
        r = self.rnd
        ranges = {"u8": (0, 255), "i8": (-128, 127), "u16": (0, 65535), "i16": (-32768, 32767), "u32": (0, 2**32 - 1), "i32": (-2**31, 2**31 - 1),
                  "u64": (0, 2**64 - 1), "i64": (-2**63, 2**63 - 1), "usize": (0, 2**64 - 1), "isize": (-2**63, 2**63 - 1)}
        rep = r.choice(list(ranges) if composite else list(ranges) + ["", "", "", ""])
        ty = rep or "isize"
        lo, hi = ranges[ty]
        if n > 200 and hi - lo < 300:
            rep, ty = "i64", "i64"
            lo, hi = ranges[ty]
        style = r.randrange(4)
        vals = []
        while len(vals) < n:
            if style == 0:
                x = r.randint(lo, hi)
            elif style == 1:
                x = r.randint(max(lo, -n), min(hi, 2 * n))
            elif style == 2:
                x = r.choice([lo + r.randrange(n + 1), hi - r.randrange(n + 1), r.randint(0, n)])
            else:
                # Counting on from somewhere.
                x = vals[-1] + 1 if vals and r.random() < 0.7 else r.randint(lo, hi)
            if lo <= x <= hi and x not in vals:
                vals.append(x)
        if r.random() < 0.2:
            vals.sort(reverse=True)
        texts, consts = [], []
        for i, x in enumerate(vals):
            before = vals[i - 1] if i else -1
            if x == before + 1 and r.random() < 0.8 and (i or x == 0):
                texts.append("")
                continue
            k = r.randrange(12)
            if k == 0:
                c = self.fresh("C")
                consts.append("#[allow(dead_code)] const %s: %s = %d;\n" % (c, ty, x))
                t = c
            elif x < 0:
                t = ["%d" % x, "!%d" % (-x - 1), "-0x%x" % -x, "(%d)" % x, "-1 - %d" % (-x - 1)][k % 5]
            else:
                t = ["%d" % x, "0x%x" % x, "0b%s" % bin(x)[2:], "%d_%s" % (x, ty), "(%d)" % x, "%d + %d" % (x - x // 2, x // 2), "if true { %d } else { %d }" % (x, x), "0o%o" % x][k % 8]
            texts.append(" = " + t)
        return rep, texts, consts

    def enum(self, name=None, vis="", payloads=True, bitset=None, depth=0, size=None, prefix="self::"):
        """(source of definitions, name, key expressions, ordered?)"""
        r = self.rnd
        name = name or self.fresh("E")
        n = size if size is not None else r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 33])
        names = self.variants(n)
        composite = payloads and n > 0 and r.random() < 0.55
        bit = (not composite and n <= 128 and r.random() < 0.35) if bitset is None else bitset
        defs, keys, ordered = [], [], True
        vs = []
        repr_, disc, consts = self.discriminants(n, composite) if n > 0 and r.random() < (0.15 if composite else 0.3) else ("", [""] * n, [])
        defs += consts
        which = r.randrange(n) if composite else -1
        for i, v in enumerate(names):
            attrs = r.choice(["", "", "", "/// A variant.\n", "#[allow(dead_code)] ", "#[non_exhaustive] ", "#[cfg(all())] "])
            text = v
            if composite and (i == which or r.random() < 0.45):
                ty, es, o, d = self.payload(vis, depth, prefix, name)
                defs += d
                ordered = ordered and o
                keys += ["%s::%s(%s)" % (name, v, e) for e in es]
                text = "%s(%s)" % (v, ty)
                if "non_exhaustive" in attrs:
                    attrs = ""
            else:
                keys.append("%s::%s" % (name, v))
            vs.append(attrs + text + disc[i])
            if r.random() < 0.03:
                vs.append("#[cfg(any())] Gone%d" % i)
        if any(disc):
            defs_attr = "#[repr(%s)]\n" % repr_ if repr_ else ""
        elif not composite and 0 < n <= 200 and r.random() < 0.3:
            defs_attr = "#[repr(%s)]\n" % r.choice(["u8", "u16", "C", "i16"])
        else:
            defs_attr = ""
        if r.random() < 0.2:
            defs_attr += "#[non_exhaustive]\n"
        if r.random() < 0.2:
            defs_attr += "/// Docs.\n"
        derives = FULL.split(", ") + ["::fixed_map::Key"]
        if self.hashed:
            derives += ["::core::cmp::Eq", "::core::hash::Hash"]
        r.shuffle(derives)
        if r.random() < 0.2:
            cut = r.randrange(len(derives) + 1)
            d = "".join("#[derive(%s)]\n" % ", ".join(x) for x in (derives[:cut], derives[cut:]) if x)
        else:
            d = "#[derive(%s)]\n" % ", ".join(derives)
        if bit:
            d += r.choice(["#[key(bitset)]\n", "#[key(bitset)]\n", "#[key(bitset,)]\n", "#[cfg_attr(all(), key(bitset))]\n", "#[key()]\n#[key(bitset)]\n"])
        body = "%s%s%s enum %s {\n    %s\n}\n" % (d, defs_attr, vis, name, ",\n    ".join(vs) + ("," if vs and r.random() < 0.8 else ""))
        if any(re.match(r"^(r#)?[a-z_]", v) or "_" in v for v in names) or not re.match(r"^[A-Z]", name) or "_" in name:
            body = "#[allow(non_camel_case_types)]\n" + body
        return "".join(defs) + body, name, keys, ordered, composite

    def payload(self, vis, depth, prefix, outer):
        """(type, key expressions, ordered, definitions)"""
        r = self.rnd
        k = r.randrange(19)
        if k == 0:
            return "bool", ["true", "false"], True, []
        if k == 1:
            return "()", ["()"], True, []
        if k == 2:
            o = r.choice(["::core::option::Option", "::std::option::Option"])
            return o + "<bool>", [o + "::Some(true)", o + "::Some(false)", o + "::None"], True, []
        if k == 3:
            return "u8", ["0", "1", "255"], False, []
        if k == 4:
            return "&'static str", ['""', '"a"'], False, []
        if k == 5:
            return "char", ["'a'", "'b'"], False, []
        if k == 6:
            return r.choice(["i8", "i32", "i64", "isize", "u128", "u32", "usize"]), ["0", "1", "5"], False, []
        if k == 7:
            a = self.fresh("Alias")
            return r.choice(["", prefix]) + a if prefix else a, ["true", "false"], True, ["#[allow(dead_code)] %s type %s = bool;\n" % (vis, a)]
        if k == 8:
            # A type of its own behind the projection (the same type twice is a listed finding).
            t, q = self.fresh("Tr"), self.fresh("Q")
            return "<u8 as %s>::Assoc" % t, ["%s::X" % q, "%s::Y" % q], True, [
                "#[derive(%s, ::fixed_map::Key)] %s%s enum %s { X, Y }\n" % (FULL, vis + " " if vis else "",
                 "", q) if not self.hashed else
                "#[derive(%s, ::core::cmp::Eq, ::core::hash::Hash, ::fixed_map::Key)] %s enum %s { X, Y }\n" % (FULL, vis, q),
                "#[allow(dead_code)] %s trait %s { type Assoc; }\nimpl %s for u8 { type Assoc = %s%s; }\n" % (vis, t, t, "", q)]
        if k == 9:
            return "&'static [u8]", ['&[]', '&[1]'], False, []
        if k == 10:
            return "::core::primitive::bool", ["true", "false"], True, []
        if k == 11:
            o = "::core::option::Option"
            t, es = r.choice([("()", ["()"]), (o + "<bool>", [o + "::Some(true)", o + "::Some(false)", o + "::None"])])
            return "%s<%s>" % (o, t), ["%s::Some(%s)" % (o, e) for e in es] + [o + "::None"], True, []
        if k == 12:
            o, (t, e) = "::core::option::Option", r.choice([("&'static str", '"a"'), ("u32", "7"), ("char", "'x'"), ("&'static [u8]", "&[3]")])
            return "%s<%s>" % (o, t), ["%s::Some(%s)" % (o, e), o + "::None"], False, []
        if k == 13:
            # A macro where a type is expected.
            a = self.fresh("ty")
            return a + "!()", ["true", "false"], True, ["#[allow(unused_macros)] macro_rules! %s { () => { bool } }\n" % a]
        if k == 14:
            return r.choice(["/** The payload. */ bool", "#[allow(dead_code)] bool", "#[cfg(all())] bool", "/** Of */ /** two */ #[doc = \"parts.\"] bool"]), ["true", "false"], True, []
        if depth < 2:
            name = r.choice(ENUM_NAMES) if r.random() < 0.3 else self.fresh("P")
            if name == outer or name in self.used:
                name = self.fresh("P")
            self.used.add(name)
            n = r.choice([1, 2, 3, 5, 9])
            src, name, keys, o, _ = self.enum(name=name, vis=vis, depth=depth + 1, size=n, prefix=prefix)
            if r.random() < 0.3:
                return "::core::option::Option<%s>" % name, ["::core::option::Option::Some(%s)" % k for k in keys] + ["::core::option::Option::None"], o, [src]
            return (prefix if r.random() < 0.3 else "") + name, keys, o, [src]
        return "bool", ["true", "false"], True, []

    def accepted(self, force_name=None, size=None):
        """A whole program."""
        r = self.rnd
        self.used = set()
        self.hashed = r.random() < 0.4
        kind = r.choice(["root", "mod", "deep", "fn", "const", "method", "macro", "shadow", "shadow", "shadow", "glob", "prelude", "closure", "ty"])
        name = force_name or (r.choice(ENUM_NAMES) if r.random() < 0.6 else self.fresh("E"))
        self.used.add(name)
        vis = {"root": ["", "pub", "pub(crate)"], "mod": ["pub", "pub(crate)", "pub(super)"], "deep": ["pub", "pub(crate)", "pub(in crate::a)", "pub(super)", ""],
               "fn": ["", "pub"], "const": ["", "pub"], "method": [""], "macro": ["", "pub"], "shadow": ["pub", "", "pub(crate)"], "glob": [""],
               "prelude": ["pub", ""], "closure": [""], "ty": ["", "pub(crate)"]}[kind]
        vis = r.choice(vis)
        local = kind in ("fn", "const", "method", "closure")
        prefix = "" if local or kind == "macro" else "self::"
        src, name, keys, ordered, comp = self.enum(name=name, vis=vis, size=size, prefix=prefix)
        ks = ", ".join(keys)
        call = "crate::drive::<%s>(&[%s], %s);" % (name, ks, "true" if ordered else "false")
        head = "#![deny(warnings)]\n#![forbid(unsafe_code)]\n"
        edition = r.choice(["2018", "2021", "2021", "2024"])
        note = kind
        if kind == "root":
            body = "%s\nfn main() { %s }\n" % (src, call)
        elif kind in ("mod", "macro_mod"):
            body = "mod inner {\n%s\npub fn go() { %s }\n}\nfn main() { inner::go() }\n" % (src, call)
        elif kind == "deep":
            body = "mod a { pub mod b {\n mod c {}\n%s\npub fn go() { %s }\n} }\nfn main() { a::b::go() }\n" % (src, call)
        elif kind == "fn":
            body = "fn go() {\n%s\n%s\n}\nfn main() { go() }\n" % (src, call)
        elif kind == "const":
            body = "const GO: fn() = {\n%s\nfn go() { %s }\ngo\n};\nfn main() { GO() }\n" % (src, call)
        elif kind == "method":
            body = "struct Thing<X>(X);\nimpl<X> Thing<X> { fn go(&self) -> &X {\n%s\n%s\n&self.0 } }\nfn main() { Thing(1u8).go(); }\n" % (src, call)
        elif kind == "closure":
            body = "fn main() { let go = || {\n%s\n%s\n}; go() }\n" % (src, call)
        elif kind == "macro":
            body = "macro_rules! make { () => {\n%s\n} }\nmod inner { make!(); pub fn go() { %s } }\nfn main() { inner::go() }\n" % (src, call)
        elif kind == "ty":
            # Fragments arrive as invisible groups.
            body = ("mod inner { macro_rules! make { ($n:ident, $v:vis, $($x:ident ( $t:ty )),*) => { #[derive(%s, ::fixed_map::Key)] $v enum $n { First, $($x($t),)* Last } } }\n"
                    "make!(Made, %s, Aa(bool), Bb(::core::option::Option<bool>), Cc(()));\npub fn go() { crate::drive(&[Made::First, Made::Aa(true), Made::Aa(false), "
                    "Made::Bb(Some(true)), Made::Bb(Some(false)), Made::Bb(None), Made::Cc(()), Made::Last], true); } \n%s\npub fn go2() { %s }\n }\nfn main() { inner::go(); inner::go2(); }\n"
                    % (FULL, r.choice(["", "pub", "pub(crate)"]), src, call))
            if name in ("Some", "Option", "Ok", "Made"):
                body = body.replace("Bb(Some(", "Bb(::core::option::Option::Some(").replace("Bb(None", "Bb(::core::option::Option::None")
        elif kind == "glob":
            body = "mod inner {\n%s\n#[allow(unused_imports)] use self::%s::*;\npub fn go() { %s }\n}\nfn main() { inner::go() }\n" % (src, name, call)
        elif kind == "prelude":
            body = "#[allow(unused)]\nmod inner {\n#![no_implicit_prelude]\n%s%s\npub fn go() { %s }\n}\nfn main() { inner::go() }\n" % (MACROS, src, call)
        else:
            sh = []
            names = set(self.used) | {name}
            for pool, text, k in ((SHADOW_TYPES, "%s pub struct %s<T = u8>(pub T);", 6), (SHADOW_TRAITS, "%s pub trait %s {}", 8),
                                  (SHADOW_MODS, "%s pub mod %s { pub struct Nothing; }", 5), (SHADOW_VALUES, "%s pub struct %s<T = u8>(pub T);", 2),
                                  (["None"], "%s pub struct %s;", 1)):
                pick = pool[:] if r.random() < 0.25 else r.sample(pool, min(k, len(pool)))
                for x in pick:
                    if x not in names:
                        names.add(x)
                        sh.append(text % (QUIET, x))
            note = "shadow: " + ", ".join(sorted(x.split(QUIET)[1].strip() for x in sh))[:400]
            r.shuffle(sh)
            sh = "\n".join(sh)
            body = "mod inner {\n%s\n%s\npub fn go() { %s }\n}\nfn main() { inner::go() }\n" % (sh, src, call)
        return head + DRIVE + body, edition, "enum %s with %d keys, %s" % (name, len(keys), note)


def refused(rnd):
    """(label, item with the offence, the same without, must the derive itself report it?)"""
    out = []

    def some(extra, n=None, names=None):
        """Plain and complex variants around an offending one."""
        n = rnd.randrange(4) if n is None else n
        vs = ["Aa%d" % i if rnd.random() < 0.7 else "Aa%d(bool)" % i for i in range(n)]
        vs.insert(rnd.randrange(len(vs) + 1), extra)
        return ", ".join(vs)

    D = "#[derive(Debug, Clone, Copy, PartialEq, fixed_map::Key)]\n"
    for body, what in (("struct X;", "unit struct"), ("struct X(bool);", "tuple struct"), ("struct X(bool, bool);", "pair struct"),
                       ("struct X { a: bool }", "struct"), ("pub struct X { pub a: bool, pub b: u8 }", "struct"), ("struct X {}", "empty struct"),
                       ("struct X();", "empty tuple struct")):
        out.append((what, D + body, D + "enum X { A }", True))
        out.append((what + " asking for bitsets", D + "#[key(bitset)]\n" + body, D + "#[key(bitset)]\nenum X { A }", True))
    out.append(("union", "#[derive(Clone, Copy, fixed_map::Key)]\nunion X { a: u8, b: bool }", "#[derive(Clone, Copy, fixed_map::Key)]\nenum X { A }", True))
    for v, what in (("Bad { a: bool }", "named field"), ("Bad { a: bool, b: bool }", "named fields"), ("Bad {}", "no named fields"),
                    ("Bad()", "no fields"), ("Bad(bool, bool)", "two fields"), ("Bad(bool, bool, u8)", "three fields"), ("Bad((), ())", "two unit fields"),
                    ("Bad(bool, u8, char, i32, (), bool, bool, bool)", "eight fields")):
        for n in (0, 1, 3, None):
            out.append(("variant with " + what, D + "enum X { %s }" % some(v, n), D + "enum X { %s }" % some("Fine(bool)", n), True))
    for a in ("#[key(unknown)]", "#[key(bitsett)]", "#[key(Bitset)]", "#[key(BITSET)]", "#[key(bitset, unknown)]", "#[key(unknown, bitset)]",
              "#[key(bit)]", "#[key(array)]", "#[key(bitset::x)]", "#[key(x::bitset)]", "#[key(bitset = true)]", "#[key(bitset = \"u8\")]", "#[key(bitset(u8))]",
              "#[key(bitset bitset)]", "#[key(\"bitset\")]", "#[key(1)]", "#[key = \"bitset\"]", "#[key]", "#[key(bitset)]\n#[key(unknown)]",
              "#[key(unknown)]\n#[key(bitset)]", "#[key(crate = ::fixed_map)]", "#[key(!bitset)]", "#[key(bit_set)]", "#[key(bitsets)]", "#[key(r#struct)]"):
        out.append(("attribute " + a, D + a + "\nenum X { Aa, Bb, Cc }", D + "enum X { Aa, Bb, Cc }", True))
        if "bitset" not in a.replace("bitsett", "").replace("bitsets", "") or "unknown" in a and "bitset" not in a:
            out.append(("attribute %s with payloads" % a, D + a + "\nenum X { Aa, Bb(bool), Cc }", D + "enum X { Aa, Bb(bool), Cc }", True))
    for n in (129, 130, 200, 256, 257, 300):
        vs = ", ".join("A%d" % i for i in range(n))
        few = ", ".join("A%d" % i for i in range(128))
        out.append(("bitset of %d" % n, D + "#[key(bitset)]\nenum X { %s }" % vs, D + "#[key(bitset)]\nenum X { %s }" % few, True))
    # Not the derive's own to report, yet refused.
    for t in ("f32", "f64", "String", "Vec<u8>", "[u8; 2]", "(bool, bool)", "NotKey", "&'static NotKey", "Option<f32>", "std::rc::Rc<bool>", "fn()"):
        d = "#[allow(dead_code)] #[derive(Debug, Clone, Copy, PartialEq)] struct NotKey;\n"
        out.append(("payload " + t, d + D + "enum X { %s }" % some("Bad(%s)" % t), d + D + "enum X { %s }" % some("Fine(bool)"), False))
    out.append(("not Copy", "#[derive(Debug, Clone, PartialEq, fixed_map::Key)] enum X { Aa, Bb }", D + "enum X { Aa, Bb }", False))
    for a in ("#[key(bitset)]", "#[key(unknown)]", "#[key]", "/** Documented. */ #[key(bitset)]"):
        out.append(("attribute on a payload", D + "enum X { %s }" % some("Bad(%s bool)" % a), D + "enum X { %s }" % some("Fine(/** Documented. */ bool)"), True))
    # Listed findings: accepted with the request ignored.
    for v in ("Aa, Bb(bool)", "Bb(bool)", "Bb(Option<bool>), Cc, Dd(())"):
        out.append(("bitset with payloads", D + "#[key(bitset)]\nenum X { %s }" % v, D + "enum X { %s }" % v, True))
    for it in ("enum X { #[key(bitset)] Aa, Bb }", "enum X { Aa, #[key(unknown)] Bb }", "enum X { #[key(nonsense)] Bb(bool) }"):
        out.append(("attribute on a variant", D + it, D + re.sub(r"#\[key\(\w+\)\] ", "", it), True))
    return out


FINDING_KEYS = {"bitset with payloads": "composite-bitset-ignored", "attribute on a variant": "variant-attribute-ignored"}


def usage(item):
    """A program with the item in it, quiet when the item is."""
    return "#![allow(dead_code)]\n%s\nfn main() { let _ = core::mem::size_of::<X>(); }\n" % item


def c28():
    rep = Report("C28", "a case is one program given to the compiler: a supported enum in some scope, compiled with warnings denied and run, or "
                 "an unsupported input whose diagnostics are judged, with its supported sibling; distinct: by program text")
    lib = Lib(rep)
    rnd = random.Random("c28-%s" % rep.seed)
    work = os.path.join(rep.work, "p")
    os.makedirs(work)
    jobs = []
    gen = Gen(rnd)
    for i in range(1500 if rep.thorough else 320):
        src, edition, label = gen.accepted()
        jobs.append(("accept", label, src, edition, None))
    for n in (0, 1, 64, 127, 128, 129, 255, 256, 257, 300) + ((500, 600) if rep.thorough else ()):
        src, edition, label = gen.accepted(size=n)
        jobs.append(("accept", label, src, edition, None))
    for n in ENUM_NAMES:
        for k in range(3 if rep.thorough else 1):
            src, edition, label = gen.accepted(force_name=n)
            jobs.append(("accept", label, src, edition, None))
    D = "#![deny(warnings)]\n#![forbid(unsafe_code)]\n%s\n" % DRIVE
    for n in CLASHING + CLASHING_COMPOSITE:
        items = ["#[derive(%s, fixed_map::Key)]\nenum %s { Aa, Bb(bool) }\nfn main() { drive(&[%s::Aa, %s::Bb(true), %s::Bb(false)], true); }" % (FULL, n, n, n, n),
                 "#[derive(%s, fixed_map::Key)]\nenum %s { Aa, Bb }\n#[derive(%s, fixed_map::Key)]\nenum Outer { Cc(%s), Dd }\n"
                 "fn main() { drive(&[Outer::Cc(%s::Aa), Outer::Cc(%s::Bb), Outer::Dd], true); }" % (FULL, n, FULL, n, n, n)]
        if n in CLASHING:
            items.append("#[derive(%s, fixed_map::Key)]\nenum %s { Aa, Bb }\nfn main() { drive(&[%s::Aa, %s::Bb], true); }" % (FULL, n, n, n))
        for it in items:
            jobs.append(("accept", "enum named " + n, D + it, "2021", "enum-name-" + n))
    jobs.append(("accept", "a projection and its type both payloads",
                 D + "trait Tr { type Assoc; }\nimpl Tr for u8 { type Assoc = bool; }\n#[derive(%s, fixed_map::Key)]\nenum X { Aa(bool), Bb(<u8 as Tr>::Assoc) }\n"
                 "fn main() { drive(&[X::Aa(true), X::Aa(false), X::Bb(true), X::Bb(false)], true); }" % FULL, "2021", "projection-payload-twice"))
    jobs.append(("accept", "a variant named like a binding",
                 D + "mod inner {\n#[allow(non_camel_case_types)]\n#[derive(%s, fixed_map::Key)]\npub enum X { v, f(bool), key, value, n }\n"
                 "#[allow(unused_imports)] use self::X::*;\n"
                 "pub fn go() { crate::drive(&[X::v, X::f(true), X::f(false), X::key, X::value, X::n], true); }\n}\nfn main() { inner::go() }" % FULL, "2021", "variant-named-like-binding"))
    for label, defs, body, *key in ODD:
        jobs.append(("accept", label, D + "%s\n#[allow(deprecated)] fn main() { %s }\n" % (defs, body), "2021", key[0] if key else None))
    for k in range(4 if rep.thorough else 1):
        for label, bad, good, own in refused(rnd):
            jobs.append(("refuse" if own else "refuse-any", label, usage(bad), "2021", FINDING_KEYS.get(label)))
            jobs.append(("sibling", label, usage(good), "2021", None))
    seen, uniq = set(), []
    for j in jobs:
        if (j[0], j[2]) not in seen:
            seen.add((j[0], j[2]))
            uniq.append(j)
    jobs = uniq
    rep.log("%d programs" % len(jobs))

    def one(x):
        i, (kind, label, src, edition, key) = x
        path = os.path.join(work, "c%d" % i)
        accept = kind == "accept"
        rc, ds, err = lib.compile(src, path, edition, link=accept)
        if rc < 0:
            rc, ds, err = lib.compile(src, path, edition, link=accept)
        res = {"kind": kind, "label": label, "key": key, "src": src, "rc": rc, "ds": ds, "err": err, "run": None}
        if accept and rc == 0:
            res["run"] = run([path + ".out"], timeout=60, mem_gb=4)
        for ext in (".rs", ".out", ".rmeta"):
            if os.path.exists(path + ext):
                os.remove(path + ext)
        return res

    with cf.ThreadPoolExecutor(NCPU) as ex:
        results = list(ex.map(one, enumerate(jobs)))
    for r in results:
        rep.evaluations += 1
        rep.distinct += 1
        n = {"accept": "accepted programs", "sibling": "accepted siblings"}.get(r["kind"], "refused programs")
        rep.add_counters({n: 1})
        real = [d for d in r["ds"] if d["level"] in ("error", "warning", "error: internal compiler error") and not d["message"].startswith("aborting due to")]
        text = "; ".join(d["message"] + ("" if not d["spans"] else " (line %d)" % d["spans"][0]["line_start"]) for d in real)[:1500]
        ice = r["rc"] == 101 or "internal compiler error" in r["err"] or any("panicked" in d["message"] for d in real)

        def bad(msg):
            rep.violation({"shape": r["label"], "case": r["kind"], "message": "%s: %s\n%s" % (r["label"], msg, r["src"].replace(DRIVE, "\n// (driver)\n")[:3500]),
                           "source": r["src"]}, r["key"])

        if r["kind"] in ("accept", "sibling"):
            if r["rc"] != 0:
                if not real:
                    raise Broken("rustc ended with %d: %s" % (r["rc"], r["err"][-1500:]))
                bad("refused: " + text)
            elif real:
                bad("warned about: " + text)
            elif r["run"] is not None and r["run"][0] != 0:
                if r["run"][3]:
                    raise Broken("a program did not finish")
                bad("accepted, but does not behave: %s" % r["run"][2][-800:])
            elif r["kind"] == "accept" and len(rep.samples) < 8 and rep.evaluations % 29 == 1:
                rep.samples.append("accepted and ran: " + r["label"])
            continue
        if r["rc"] == 0:
            bad("accepted")
            continue
        if ice:
            bad("the macro crashed: " + text)
            continue
        errors = [d for d in real if d["level"] == "error"]
        if not errors:
            raise Broken("rustc ended with %d: %s" % (r["rc"], r["err"][-1500:]))
        if r["kind"] == "refuse":
            lines = r["src"].count("\n")
            own = [d for d in errors if not d.get("code") and d["message"].strip() and any(
                s["is_primary"] and 2 <= s["line_start"] <= lines - 1 for s in d["spans"])]
            rep.add_counters({"errors made by the derive": len(own)})
            if not own:
                bad("refused, but no error names the problem in the definition: " + text)
                continue
        if len(rep.samples) < 20 and rep.evaluations % 17 == 1:
            rep.samples.append("refused %s: %s" % (r["label"], text[:200]))
    rep.assumptions.append("generic enums, types named like primitives, and lower-case constants in scope are not covered")
    return rep.finish()
