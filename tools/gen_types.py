#!/usr/bin/env python3
"""Emits derived structs together with the independent description the monitors need (generator,
bit-exact comparison, documented shape, lazy walk). Used for the committed zoo
(`gen_types.py zoo`) and, at check time, for the random programs of C18 (`gen_types.py random
SEED PROGRAMS STRUCTS OUT_DIR`)."""
import os
import random
import shutil
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


class F:
    """A field. `attrs` are raw attribute texts; remote/comp/map say what they mean."""

    def __init__(self, name, ty, attrs=(), remote=False, comp=0, map=False, vis=None):
        self.name, self.ty, self.attrs = name, ty, list(attrs)
        self.remote, self.comp, self.map, self.vis = remote, comp, map, vis


def L(n, t, *attrs):
    return F(n, t, attrs)


def C(n, t, comp=None):
    a = "#[parcode(chunkable)]" if comp is None else f'#[parcode(chunkable, compression = "{comp}")]'
    return F(n, t, [a], True, {None: 0, "none": 0, "lz4": 1, "zstd": 2}[comp and comp.lower()])


def M(n, t, comp=None, chunkable=False):
    p = (["chunkable"] if chunkable else []) + ["map"] + ([f'compression = "{comp}"'] if comp else [])
    return F(n, t, [f"#[parcode({', '.join(p)})]"], True, {None: 0, "none": 0, "lz4": 1, "zstd": 2}[comp and comp.lower()], True)


DERIVE = "#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, parcode::ParcodeObject)]"


def emit_struct(name, fields, vis="pub ", unit=False, doc="", derive=DERIVE, by_macro=False):
    o = []
    if doc:
        o.append(f"/// {doc}")
    if by_macro:
        # Tokens that went through a macro: field types arrive in invisible groups.
        o.append("declare! {")
    o.append(derive)
    if unit:
        o.append(f"{vis}struct {name};")
    else:
        o.append(f"{vis}struct {name} {{")
        for f in fields:
            for a in f.attrs:
                o.append(f"    {a}")
            o.append(f"    {vis if f.vis is None else f.vis}{f.name}: {f.ty},")
        o.append("}")
    if by_macro:
        o.append("}")
    loc = [f for f in fields if not f.remote]
    rem = [f for f in fields if f.remote]
    b = lambda x: "true" if x else "false"
    o.append(f"impl Val for {name} {{")
    o.append("    fn mk(g: &mut G) -> Self {")
    o.append("        g.depth += 1;")
    o.append(f"        let v = Self {{ {' '.join(f'{f.name}: <{f.ty} as Val>::mk(g),' for f in fields)} }};")
    o.append("        g.depth -= 1;\n        v\n    }")
    o.append("    fn same(&self, o: &Self) -> bool {")
    o.append("        let _ = o;")
    o.append("        " + (" && ".join(f"self.{f.name}.same(&o.{f.name})" for f in fields) or "true"))
    o.append("    }\n}")
    o.append(f"impl Item for {name} {{")
    o.append("    fn local(&self, out: &mut Vec<u8>) {\n        let _ = &out;")
    for f in loc:
        o.append(f"        bin(&self.{f.name}, out);")
    o.append("    }")
    o.append("    fn kids(&self, out: &mut Vec<Shape>) {\n        let _ = &out;")
    for f in rem:
        o.append(f"        out.push(self.{f.name}.shape({f.comp}, {b(f.map)}));")
    o.append("    }\n    item_lazy!();\n}")
    o.append(f"impl Rooted for {name} {{")
    o.append("    fn shape(&self, comp: u8, _m: bool) -> Shape {")
    o.append("        let (mut bytes, mut kids) = (vec![], vec![]);")
    o.append("        self.local(&mut bytes);\n        self.kids(&mut kids);")
    o.append("        Shape::Struct { bytes, kids, comp }\n    }\n    root_lazy!();\n}")
    o.append(f"impl Remote for {name} {{")
    o.append("    const INLINE: bool = false;")
    o.append("    fn lazy_check<'a>(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, cx: &mut Cx, w: &mut Walk) {")
    o.append('        let _ = (l, &w);\n        cx.count("lazy_structs", 1);')
    for f in loc:
        o.append(f'        cx.check(self.{f.name}.same(&l.{f.name}), "local", || format!("field {f.name}: {{:.200?}}, expected {{:.200?}}", l.{f.name}, self.{f.name}));')
    for f in rem:
        o.append(f'        cx.at("{f.name}", |cx| self.{f.name}.lazy_check(&l.{f.name}, {b(f.map)}, cx, w));')
    o.append("    }\n    fn poke<'a>(l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, w: &mut Poke) {")
    o.append("        let _ = l;\n        if !w.burn() {\n            return;\n        }")
    for f in loc:
        o.append(f"        w.touch(&l.{f.name});")
    for f in rem:
        o.append(f"        <{f.ty} as Remote>::poke(&l.{f.name}, {b(f.map)}, w);")
    o.append("    }\n}\n")
    return "\n".join(o)


PRELUDE = """use crate::cx::Cx;
use crate::shape::{Shape, bin};
#[allow(unused_imports)]
use crate::val::*;
#[allow(unused_imports)]
use crate::spy::Spy;
use crate::{item_lazy, root_lazy};
#[allow(unused_imports)]
use std::collections::{BTreeMap, HashMap};
use parcode::rt::ParcodeLazyRef;
"""


def emit_each(roots, few):
    assert set(few) <= set(roots)
    o = ["pub trait Each {\n    fn visit<T: Rooted>(&mut self, name: &'static str);\n}",
         "pub fn each<E: Each>(e: &mut E) {"]
    for r in roots:
        o.append(f'    e.visit::<{r}>("{r}");')
    o.append("}")
    o.append("/// Structurally different types only, for monitors that are slow to build or run.")
    o.append("pub fn few<E: Each>(e: &mut E) {")
    for r in few:
        o.append(f'    e.visit::<{r}>("{r}");')
    o.append("}")
    return "\n".join(o) + "\n"


ZOO = [
    ("Empty", [], {}),
    ("Unit", [], {"unit": True}),
    ("Flat", [L("a", "u8"), L("b", "u32"), L("c", "i64"), L("d", "f64"), L("e", "bool"), L("f", "String")], {}),
    ("Wide", [L("arr", "[u16; 4]"), L("opt", "Option<String>"), L("tup", "(u8, char, i128)"), L("col", "Color"),
              L("bx", "Box<u128>"), L("vec", "Vec<u16>"), L("map", "HashMap<u8, String>"), L("bt", "BTreeMap<String, u32>"),
              L("us", "usize"), L("is", "isize"), L("un", "()"), L("nest", "Flat")], {}),
    ("OneRemote", [C("data", "Vec<u8>")], {}),
    ("Prims", [C("a", "u8"), L("x", "u16"), C("b", "String"), C("c", "f32"), C("d", "bool"), C("e", "i64")], {}),
    ("Mixed", [C("big", "Vec<u32>"), L("id", "u32"), C("flat", "Flat"), L("name", "String"), C("blob", "HashMap<u16, String>"),
               M("map", "HashMap<String, u32>"), L("tail", "Option<u8>")], {}),
    ("Packed", [C("a", "Vec<u8>", "lz4"), C("b", "Vec<String>", "LZ4"), L("k", "u64"), M("m", "HashMap<u32, String>", "lz4"),
                C("p", "Flat", "lz4"), C("q", "String", "lz4"), C("z", "Vec<u64>", "zstd"), C("n", "Vec<u16>", "none"),
                C("bm", "HashMap<u8, u64>", "lz4")], {}),
    ("Attrs", [F("a", "Vec<u8>", ["#[parcode(chunkable)]", '#[parcode(compression = "lz4")]'], True, 1),
               F("b", "HashMap<i32, u8>", ['#[parcode(map, chunkable)]'], True, 0, True),
               F("c", "HashMap<i32, i32>", ['#[parcode(chunkable, map, compression = "Lz4")]'], True, 1, True),
               L("d", "u32", '#[parcode(compression = "lz4")]'),
               F("e", "Vec<i16>", ["#[parcode(map)]"], True, 0, True),
               F("f", "Flat", ["#[parcode(map)]"], True, 0, True),
               F("g", "u64", ['#[parcode(compression = "none", chunkable)]'], True, 0)], {}),
    ("Leaf", [L("v", "u32"), C("data", "Vec<u16>")], {}),
    ("Twig", [L("v", "i16"), C("leaf", "Leaf"), C("leaves", "Vec<Leaf>"), L("s", "String")], {}),
    ("Tree", [L("v", "u32"), C("kids", "Vec<Tree>")], {}),
    ("Deep", [C("twig", "Twig"), M("m", "HashMap<String, Leaf>"), C("vv", "Vec<Vec<u8>>"), C("vl", "Vec<Vec<Leaf>>"), L("n", "u8")], {}),
    ("Maps", [M("a", "HashMap<u64, Leaf>"), M("b", "HashMap<CKey, Twig>"), M("c", "HashMap<CKey, u32>", None, True), C("d", "HashMap<CKey, Flat>"),
              M("e", "HashMap<(u32, String), Vec<u8>>"), M("f", "HashMap<String, HashMap<u8, u8>>"), M("g", "HashMap<bool, Prims>"),
              M("h", "HashMap<[u8; 4], Empty>"), M("i", "HashMap<Option<u16>, Unit>")], {}),
    ("Inner0", [C("e", "Empty"), C("u", "Unit"), C("ve", "Vec<Empty>"), C("vu", "Vec<Unit>")], {}),
    ("Hard", [L("v", "u32"), C("leaf", "Leaf"), C("leaves", "Vec<Leaf>"), M("m", "HashMap<u16, Leaf>"), M("h", "HashMap<CKey, u32>"), C("b", "HashMap<u8, u16>"),
              C("vv", "Vec<Vec<u8>>"), M("e", "HashMap<[u8; 4], Vec<u16>>"), C("z", "Vec<u64>", "lz4"), L("o", "Option<u8>")], {}),
    ("Raw", [L("r#type", "u32"), C("r#fn", "Vec<u8>"), M("r#match", "HashMap<u8, u8>")], {}),
]
ROOTS = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "bool", "String", "u128", "i128",
         "Vec<u8>", "Vec<u16>", "Vec<u32>", "Vec<u64>", "Vec<i8>", "Vec<i16>", "Vec<i32>", "Vec<i64>", "Vec<f32>", "Vec<f64>", "Vec<bool>",
         "Vec<String>", "Vec<u128>", "Vec<i128>", "Vec<Vec<u8>>", "Vec<Vec<String>>", "Vec<HashMap<u8, u16>>",
         "HashMap<u32, String>", "HashMap<String, Flat>", "HashMap<CKey, Vec<u8>>", "HashMap<u8, Leaf>"] + \
        [n for n, _, _ in ZOO] + [f"Vec<{n}>" for n, _, _ in ZOO if n not in ("Packed", "Deep", "Maps")] + ["Vec<Maps>", "Vec<Packed>", "Vec<Vec<Twig>>"]
FEW = ["u32", "f64", "String", "Vec<u8>", "Vec<u16>", "Vec<u64>", "Vec<bool>", "Vec<String>", "Vec<u128>", "Vec<Vec<u8>>", "HashMap<u32, String>",
       "HashMap<u8, Leaf>", "Empty", "Mixed", "Attrs", "Leaf", "Hard", "Tree", "Vec<Flat>", "Vec<Leaf>", "Vec<Unit>"]


def zoo():
    s = "//! Generated by tools/gen_types.py zoo; do not edit.\n#![allow(dead_code, non_snake_case)]\n" + PRELUDE
    for n, f, kw in ZOO:
        s += emit_struct(n, f, **kw)
    # r#-names: strings and field paths need no special care, but `at` labels do.
    s += emit_each(ROOTS, FEW)
    return s


SPIES = [
    ("Spy2", [L("a", "Spy"), L("b", "Spy")], {}),
    ("SFlat", [L("s", "Spy"), L("n", "u16"), L("t", "String")], {}),
    ("SLeaf", [L("s", "Spy"), C("data", "Vec<u16>")], {}),
    ("SNode", [L("a", "Spy"), C("leaf", "SLeaf"), C("leaves", "Vec<SLeaf>"), M("m", "HashMap<u32, SLeaf>"), C("flat", "Vec<SFlat>", "lz4"), L("z", "Option<Spy>")], {}),
    ("STree", [L("s", "Spy"), C("kids", "Vec<STree>"), C("one", "SFlat")], {}),
    ("SHard", [L("s", "Spy"), C("leaf", "SLeaf"), C("leaves", "Vec<SLeaf>"), M("m", "HashMap<u16, SLeaf>"), C("b", "HashMap<u8, Spy2>"), C("vv", "Vec<Vec<Spy2>>"),
               M("e", "HashMap<CKey, Vec<Spy2>>"), L("z", "Vec<Spy>"), C("f", "Vec<Spy2>", "lz4")], {}),
    ("SMaps", [M("a", "HashMap<CKey, SFlat>"), C("b", "HashMap<u16, SFlat>"), M("c", "HashMap<String, Vec<SFlat>>"), C("vv", "Vec<Vec<SFlat>>"), L("v", "Vec<Spy>")], {}),
]
SROOTS = ["SFlat", "SLeaf", "SNode", "STree", "SMaps", "Vec<SFlat>", "Vec<SLeaf>", "Vec<SNode>", "Vec<STree>", "Vec<SMaps>",
          "Vec<Vec<SFlat>>", "HashMap<u32, SFlat>", "Vec<Spy2>", "SHard", "Vec<SHard>"]
SFEW = ["SLeaf", "SHard", "Vec<SFlat>", "Vec<SLeaf>", "Vec<Spy2>", "HashMap<u32, SFlat>"]


def spyzoo():
    s = "//! Generated by tools/gen_types.py zoo; do not edit.\n#![allow(dead_code, unused_imports)]\n" + PRELUDE
    for n, f, kw in SPIES:
        s += emit_struct(n, f, **kw)
    return s + emit_each(SROOTS, SFEW).replace("pub trait Each {\n    fn visit<T: Rooted>(&mut self, name: &'static str);\n}\n", "pub use crate::zoo::Each;\n")


LAZY = [
    ("Rec", [L("id", "u64"), L("name", "String"), L("tags", "Vec<u16>")], {}),
    ("Inner", [L("a", "u32"), C("big", "Vec<u64>"), L("s", "String"), C("text", "String"), M("m", "HashMap<u32, String>"), C("packed", "Vec<u64>", "lz4")], {}),
    ("Sub", [L("n", "u32"), C("data", "Vec<u8>"), C("inner", "Inner"), L("label", "String"), C("note", "String"), C("tail", "Vec<u32>")], {}),
    ("Doc", [L("id", "u64"), C("bytes", "Vec<u8>"), C("recs", "Vec<Rec>"), C("text", "String"), C("inner", "Inner"), L("title", "String"),
             M("people", "HashMap<u64, Rec>"), M("subs_by", "HashMap<String, Sub>"), C("subs", "Vec<Sub>"), C("plain", "HashMap<u32, u32>"),
             C("num", "u64"), C("packed", "Vec<String>", "lz4"), C("rec", "Rec")], {}),
]


def lazyzoo():
    s = "//! Generated by tools/gen_types.py zoo; do not edit.\n#![allow(dead_code, unused_imports)]\n" + PRELUDE
    for n, f, kw in LAZY:
        s += emit_struct(n, f, **kw)
    return s.replace("crate::", "pcmon::")


# ---- random programs ----

PRIMS = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "bool", "String"]
KEYS = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "i128", "u128", "bool", "char", "String", "(u32, String)", "[u8; 4]", "Option<u16>", "CKey", "usize", "()", "Vec<u8>"]
SPELLINGS = {"Vec<u8>": ["std::vec::Vec<u8>", "Bytes"], "String": ["std::string::String", "::std::string::String", "Text"],
             "HashMap<u32, String>": ["std::collections::HashMap<u32, String>", "Names"], "u32": ["Id", "core::primitive::u32"]}
# Names that are also names of locals, methods, types, lifetimes or words of the generated code.
AWKWARD = ["reader", "payload", "children", "child_iter", "child_node", "node", "writer", "graph", "my_id", "pid", "parent_id", "job", "base_job", "cfg",
           "buffer", "item", "slice", "len", "config_override", "_children_refs", "_config_override", "_marker", "e", "a", "u8", "std", "serde", "parcode",
           "r#type", "r#fn", "r#match", "r#struct", "r#async", "r#dyn", "r#use", "r#mod", "_x", "__", "_0", "visit", "load", "get", "clone", "fmt", "new",
           "größe", "数据", "x1", "X", "longer_than_any_sensible_field_name_would_ever_be_in_a_program_written_by_hand", "self_", "lazy", "Lazy", "root", "id", "data",
           "name", "key", "value", "map", "first", "last", "iter", "is_empty", "union", "auto", "default", "raw", "safe", "bincode", "internal", "create_job",
           "parcode_child", "inner", "result", "string", "vec", "box_", "ok_or_else", "format", "print", "line", "drop", "mem"]
TYPE_NAMES = ["Node", "Record", "ChunkNode", "Cursor", "JobConfig", "TaskGraph", "Payload", "Reader", "Child", "Job", "Buffer", "Writer", "PhantomData", "Id_", "S", "T",
              "Config", "Meta", "Graph", "lower", "Self_", "Iter", "Child_Iter", "Write", "Read", "IntoIter", "ParcodeError", "Registry", "Header"]


class Program:
    """A random program: structs that use each other, in modules, with their monitors."""

    def __init__(self, seed, structs):
        self.r = random.Random(seed)
        self.names = []  # paths of the structs so far
        self.text = []
        self.roots = []
        for i in range(structs):
            self.struct(i)

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def chance(self, p):
        return self.r.random() < p

    def spell(self, t):
        return self.pick(SPELLINGS[t]) if t in SPELLINGS and self.chance(0.2) else t

    def item(self, depth=0):
        k = self.r.random()
        if k < 0.4 and self.names:
            return self.pick(self.names)
        if k < 0.75 or depth > 1:
            return self.spell(self.pick(PRIMS + ["u128", "i128"]))
        if k < 0.88:
            return f"Vec<{self.item(depth + 1)}>"
        return f"HashMap<{self.pick(KEYS)}, {self.item(depth + 1)}>"

    def local(self, depth=0):
        k = self.r.random()
        if depth > 2 or k < 0.45:
            return self.spell(self.pick(PRIMS + ["u128", "i128", "usize", "isize", "char", "()", "Color", "CKey"]))
        if k < 0.58 and self.names:
            return self.pick(self.names)
        t = lambda: self.local(depth + 1)
        return [lambda: f"Option<{t()}>", lambda: f"Box<{t()}>", lambda: f"({t()}, {t()})", lambda: f"({t()}, {t()}, {t()})", lambda: f"[{t()}; {self.pick([1, 3, 4, 16])}]",
                lambda: f"Vec<{t()}>", lambda: f"HashMap<{self.pick(KEYS)}, {t()}>", lambda: f"BTreeMap<{self.pick(['u8', 'i64', 'String'])}, {t()}>"][self.r.randrange(8)]()

    def remote(self, own):
        k = self.r.random()
        if k < 0.22:
            return self.spell(self.pick(PRIMS))
        if k < 0.45 and self.names:
            return self.pick(self.names)
        it = own if own and self.chance(0.25) else self.item()
        if k < 0.75:
            return self.spell(f"Vec<{it}>")
        return self.spell(f"HashMap<{self.pick(KEYS)}, {it}>")

    def field(self, name, own):
        f = F(name, "")
        if self.chance(0.45):
            f.ty = self.local()
            if self.chance(0.06):
                f.attrs = [self.pick(['#[parcode(compression = "lz4")]', "#[parcode()]", '#[parcode(compression = "none")]'])]
        else:
            f.remote = True
            f.ty = self.remote(own)
            words = []
            f.map = self.chance(0.8 if "HashMap" in f.ty[:30] or f.ty == "Names" else 0.05)
            if f.map:
                words.append("map")
            if not f.map or self.chance(0.3):
                words.append("chunkable")
            if self.chance(0.35):
                c = self.pick(["lz4", "lz4", "lz4", "LZ4", "Lz4", "zstd", "none", "None"])
                words.append(f'compression = "{c}"')
                f.comp = {"lz4": 1, "zstd": 2, "none": 0}[c.lower()]
            self.r.shuffle(words)
            cut = self.r.randrange(len(words) + 1) if self.chance(0.3) else len(words)
            f.attrs = [f"#[parcode({', '.join(w)}{',' if self.chance(0.1) else ''})]" for w in (words[:cut], words[cut:]) if w]
        for extra in ("/// A documented field.", "#[allow(dead_code)]", '#[serde(rename = "renamed")]', '#[doc(alias = "other")]'):
            if self.chance(0.05):
                f.attrs.insert(self.r.randrange(len(f.attrs) + 1), extra)
        f.vis = self.pick(["pub ", "", "pub(crate) "])
        return f

    def struct(self, i):
        k = self.r.random()
        n = 0 if k < 0.06 else self.r.randrange(1, 4) if k < 0.3 else self.r.randrange(3, 9) if k < 0.9 else self.r.randrange(20, 41)
        pool = list(AWKWARD) if self.chance(0.6) else [f"f{j}" for j in range(60)]
        self.r.shuffle(pool)
        module = f"m{i}" if self.chance(0.4) else None
        # Names may repeat in other modules.
        name = self.pick(TYPE_NAMES) if module else f"{self.pick(TYPE_NAMES)}{i}"
        path = f"crate::{module}::{name}" if module else name
        own = path if self.chance(0.2) else None
        if n > 9:
            saved, self.names = self.names, self.names[:1]  # wide, not deep
        fields = [self.field(pool[j], own) for j in range(n)]
        if n > 9:
            self.names = saved
        by_macro = n > 0 and self.chance(0.15)
        derive = self.pick([DERIVE, "#[derive(parcode::ParcodeObject, Clone, Debug, serde::Serialize, serde::Deserialize)]",
                            "#[derive(Debug, Clone)]\n#[derive(serde::Deserialize, ParcodeObject, serde::Serialize)]"])
        # serde(rename) twice in a struct would clash.
        seen = False
        for f in fields:
            if any("rename" in a for a in f.attrs):
                f.attrs = [a for a in f.attrs if "rename" not in a or not seen]
                seen = True
        s = emit_struct(name, fields, vis=self.pick(["pub ", "pub(crate) "]) if module else self.pick(["pub ", "", "pub(crate) "]),
                        unit=n == 0 and self.chance(0.5), doc=self.pick(["", "A documented struct."]) if not by_macro else "", derive=derive, by_macro=by_macro)
        self.text.append(f"pub mod {module} {{\nuse super::*;\n{s}}}\n" if module else s)
        self.names.append(path)
        self.roots += [path, f"Vec<{path}>", f"HashMap<{self.pick(KEYS)}, {path}>"]
        if self.chance(0.2):
            self.roots.append(f"Vec<Vec<{path}>>")

    def source(self):
        s = "//! Generated by tools/gen_types.py random; do not edit.\n"
        s += "#![allow(dead_code, unused_imports, non_snake_case, non_camel_case_types, uncommon_codepoints, private_interfaces, mixed_script_confusables, clippy::all)]\n"
        s += PRELUDE.replace("crate::", "pcmon::") + "use parcode::ParcodeObject;\nuse pcmon::zoo::Each;\n"
        s += "type Bytes = Vec<u8>;\ntype Text = String;\ntype Names = HashMap<u32, String>;\ntype Id = u32;\n"
        s += "macro_rules! declare {\n    ($(#[$m:meta])* $v:vis struct $n:ident { $($(#[$a:meta])* $fv:vis $f:ident: $t:ty,)* }) => {\n"
        s += "        $(#[$m])* $v struct $n { $($(#[$a])* $fv $f: $t,)* }\n    };\n}\n"
        s += "\n".join(self.text)
        s += "pub fn each<E: Each>(e: &mut E) {\n" + "".join(f'    e.visit::<{x}>("{x}");\n' for x in self.roots) + "}\n"
        return s + "fn main() {\n    pcmon::program::main(|l| each(l));\n}\n"


def random_crate(seed, programs, structs, out):
    """A crate with `programs` binaries p0, p1, ... of `structs` random structs each."""
    os.makedirs(f"{out}/src", exist_ok=True)
    h = os.path.abspath(os.path.join(HERE, "../harness"))
    toml = open(f"{h}/Cargo.toml").read().split("[[bin]]")[0]
    head, rest = toml.split("[dependencies]")
    head = head.split("[features]")[0].replace('name = "pcmon"', 'name = "programs"')
    deps, rest = rest.split("[patch", 1)
    deps = "\n".join(x for x in deps.splitlines() if not x.startswith(("parcode", "rayon", "libc", "twox")))
    toml = f'{head}[dependencies]\npcmon = {{ path = "{h}" }}\nparcode = {{ path = "/repo", default-features = false }}{deps}\n\n[patch{rest}'
    for k in range(programs):
        open(f"{out}/src/p{k}.rs", "w").write(Program(f"{seed}/{k}", structs).source())
        toml += f'[[bin]]\nname = "p{k}"\npath = "src/p{k}.rs"\n\n'
    toml += "[profile.dev.package.programs]\nopt-level = 0\n"
    open(f"{out}/Cargo.toml", "w").write(toml)
    shutil.copy(f"{h}/Cargo.lock", f"{out}/Cargo.lock")


if __name__ == "__main__":
    if sys.argv[1] == "zoo":
        open(os.path.join(HERE, "../harness/src/lazyzoo.rs"), "w").write(lazyzoo())
        open(os.path.join(HERE, "../harness/src/zoo.rs"), "w").write(zoo())
        open(os.path.join(HERE, "../harness/src/spyzoo.rs"), "w").write(spyzoo())
    elif sys.argv[1] == "random":
        random_crate(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5])
    else:
        raise SystemExit("usage")
