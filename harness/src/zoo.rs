//! Generated by tools/gen_types.py zoo; do not edit.
#![allow(dead_code, non_snake_case)]
use crate::cx::Cx;
use crate::shape::{Shape, bin};
#[allow(unused_imports)]
use crate::val::*;
#[allow(unused_imports)]
use crate::spy::Spy;
use crate::{item_lazy, root_lazy};
#[allow(unused_imports)]
use std::collections::{BTreeMap, HashMap};
use parcode::rt::ParcodeLazyRef;
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, parcode::ParcodeObject)]
pub struct Empty {
}
impl Val for Empty {
    fn mk(g: &mut G) -> Self {
        g.depth += 1;
        let v = Self {  };
        g.depth -= 1;
        v
    }
    fn same(&self, o: &Self) -> bool {
        let _ = o;
        true
    }
}
impl Item for Empty {
    fn local(&self, out: &mut Vec<u8>) {
        let _ = &out;
    }
    fn kids(&self, out: &mut Vec<Shape>) {
        let _ = &out;
    }
    item_lazy!();
}
impl Rooted for Empty {
    fn shape(&self, comp: u8, _m: bool) -> Shape {
        let (mut bytes, mut kids) = (vec![], vec![]);
        self.local(&mut bytes);
        self.kids(&mut kids);
        Shape::Struct { bytes, kids, comp }
    }
    root_lazy!();
}
impl Remote for Empty {
    const INLINE: bool = false;
    fn lazy_check<'a>(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, cx: &mut Cx, w: &mut Walk) {
        let _ = (l, &w);
        cx.count("lazy_structs", 1);
    }
    fn poke<'a>(l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, w: &mut Poke) {
        let _ = l;
        if !w.burn() {
            return;
        }
    }
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, parcode::ParcodeObject)]
pub struct Unit;
impl Val for Unit {
    fn mk(g: &mut G) -> Self {
        g.depth += 1;
        let v = Self {  };
        g.depth -= 1;
        v
    }
    fn same(&self, o: &Self) -> bool {
        let _ = o;
        true
    }
}
impl Item for Unit {
    fn local(&self, out: &mut Vec<u8>) {
        let _ = &out;
    }
    fn kids(&self, out: &mut Vec<Shape>) {
        let _ = &out;
    }
    item_lazy!();
}
impl Rooted for Unit {
    fn shape(&self, comp: u8, _m: bool) -> Shape {
        let (mut bytes, mut kids) = (vec![], vec![]);
        self.local(&mut bytes);
        self.kids(&mut kids);
        Shape::Struct { bytes, kids, comp }
    }
    root_lazy!();
}
impl Remote for Unit {
    const INLINE: bool = false;
    fn lazy_check<'a>(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, cx: &mut Cx, w: &mut Walk) {
        let _ = (l, &w);
        cx.count("lazy_structs", 1);
    }
    fn poke<'a>(l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, w: &mut Poke) {
        let _ = l;
        if !w.burn() {
            return;
        }
    }
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, parcode::ParcodeObject)]
pub struct Flat {
    pub a: u8,
    pub b: u32,
    pub c: i64,
    pub d: f64,
    pub e: bool,
    pub f: String,
}
impl Val for Flat {
    fn mk(g: &mut G) -> Self {
        g.depth += 1;
        let v = Self { a: <u8 as Val>::mk(g), b: <u32 as Val>::mk(g), c: <i64 as Val>::mk(g), d: <f64 as Val>::mk(g), e: <bool as Val>::mk(g), f: <String as Val>::mk(g), };
        g.depth -= 1;
        v
    }
    fn same(&self, o: &Self) -> bool {
        let _ = o;
        self.a.same(&o.a) && self.b.same(&o.b) && self.c.same(&o.c) && self.d.same(&o.d) && self.e.same(&o.e) && self.f.same(&o.f)
    }
}
impl Item for Flat {
    fn local(&self, out: &mut Vec<u8>) {
        let _ = &out;
        bin(&self.a, out);
        bin(&self.b, out);
        bin(&self.c, out);
        bin(&self.d, out);
        bin(&self.e, out);
        bin(&self.f, out);
    }
    fn kids(&self, out: &mut Vec<Shape>) {
        let _ = &out;
    }
    item_lazy!();
}
impl Rooted for Flat {
    fn shape(&self, comp: u8, _m: bool) -> Shape {
        let (mut bytes, mut kids) = (vec![], vec![]);
        self.local(&mut bytes);
        self.kids(&mut kids);
        Shape::Struct { bytes, kids, comp }
    }
    root_lazy!();
}
impl Remote for Flat {
    const INLINE: bool = false;
    fn lazy_check<'a>(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, cx: &mut Cx, w: &mut Walk) {
        let _ = (l, &w);
        cx.count("lazy_structs", 1);
        cx.check(self.a.same(&l.a), "local", || format!("field a: {:.200?}, expected {:.200?}", l.a, self.a));
        cx.check(self.b.same(&l.b), "local", || format!("field b: {:.200?}, expected {:.200?}", l.b, self.b));
        cx.check(self.c.same(&l.c), "local", || format!("field c: {:.200?}, expected {:.200?}", l.c, self.c));
        cx.check(self.d.same(&l.d), "local", || format!("field d: {:.200?}, expected {:.200?}", l.d, self.d));
        cx.check(self.e.same(&l.e), "local", || format!("field e: {:.200?}, expected {:.200?}", l.e, self.e));
        cx.check(self.f.same(&l.f), "local", || format!("field f: {:.200?}, expected {:.200?}", l.f, self.f));
    }
    fn poke<'a>(l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, w: &mut Poke) {
        let _ = l;
        if !w.burn() {
            return;
        }
        w.touch(&l.a);
        w.touch(&l.b);
        w.touch(&l.c);
        w.touch(&l.d);
        w.touch(&l.e);
        w.touch(&l.f);
    }
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, parcode::ParcodeObject)]
pub struct Wide {
    pub arr: [u16; 4],
    pub opt: Option<String>,
    pub tup: (u8, char, i128),
    pub col: Color,
    pub bx: Box<u128>,
    pub vec: Vec<u16>,
    pub map: HashMap<u8, String>,
    pub bt: BTreeMap<String, u32>,
    pub us: usize,
    pub is: isize,
    pub un: (),
    pub nest: Flat,
}
impl Val for Wide {
    fn mk(g: &mut G) -> Self {
        g.depth += 1;
        let v = Self { arr: <[u16; 4] as Val>::mk(g), opt: <Option<String> as Val>::mk(g), tup: <(u8, char, i128) as Val>::mk(g), col: <Color as Val>::mk(g), bx: <Box<u128> as Val>::mk(g), vec: <Vec<u16> as Val>::mk(g), map: <HashMap<u8, String> as Val>::mk(g), bt: <BTreeMap<String, u32> as Val>::mk(g), us: <usize as Val>::mk(g), is: <isize as Val>::mk(g), un: <() as Val>::mk(g), nest: <Flat as Val>::mk(g), };
        g.depth -= 1;
        v
    }
    fn same(&self, o: &Self) -> bool {
        let _ = o;
        self.arr.same(&o.arr) && self.opt.same(&o.opt) && self.tup.same(&o.tup) && self.col.same(&o.col) && self.bx.same(&o.bx) && self.vec.same(&o.vec) && self.map.same(&o.map) && self.bt.same(&o.bt) && self.us.same(&o.us) && self.is.same(&o.is) && self.un.same(&o.un) && self.nest.same(&o.nest)
    }
}
impl Item for Wide {
    fn local(&self, out: &mut Vec<u8>) {
        let _ = &out;
        bin(&self.arr, out);
        bin(&self.opt, out);
        bin(&self.tup, out);
        bin(&self.col, out);
        bin(&self.bx, out);
        bin(&self.vec, out);
        bin(&self.map, out);
        bin(&self.bt, out);
        bin(&self.us, out);
        bin(&self.is, out);
        bin(&self.un, out);
        bin(&self.nest, out);
    }
    fn kids(&self, out: &mut Vec<Shape>) {
        let _ = &out;
    }
    item_lazy!();
}
impl Rooted for Wide {
    fn shape(&self, comp: u8, _m: bool) -> Shape {
        let (mut bytes, mut kids) = (vec![], vec![]);
        self.local(&mut bytes);
        self.kids(&mut kids);
        Shape::Struct { bytes, kids, comp }
    }
    root_lazy!();
}
impl Remote for Wide {
    const INLINE: bool = false;
    fn lazy_check<'a>(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, cx: &mut Cx, w: &mut Walk) {
        let _ = (l, &w);
        cx.count("lazy_structs", 1);
        cx.check(self.arr.same(&l.arr), "local", || format!("field arr: {:.200?}, expected {:.200?}", l.arr, self.arr));
        cx.check(self.opt.same(&l.opt), "local", || format!("field opt: {:.200?}, expected {:.200?}", l.opt, self.opt));
        cx.check(self.tup.same(&l.tup), "local", || format!("field tup: {:.200?}, expected {:.200?}", l.tup, self.tup));
        cx.check(self.col.same(&l.col), "local", || format!("field col: {:.200?}, expected {:.200?}", l.col, self.col));
        cx.check(self.bx.same(&l.bx), "local", || format!("field bx: {:.200?}, expected {:.200?}", l.bx, self.bx));
        cx.check(self.vec.same(&l.vec), "local", || format!("field vec: {:.200?}, expected {:.200?}", l.vec, self.vec));
        cx.check(self.map.same(&l.map), "local", || format!("field map: {:.200?}, expected {:.200?}", l.map, self.map));
        cx.check(self.bt.same(&l.bt), "local", || format!("field bt: {:.200?}, expected {:.200?}", l.bt, self.bt));
        cx.check(self.us.same(&l.us), "local", || format!("field us: {:.200?}, expected {:.200?}", l.us, self.us));
        cx.check(self.is.same(&l.is), "local", || format!("field is: {:.200?}, expected {:.200?}", l.is, self.is));
        cx.check(self.un.same(&l.un), "local", || format!("field un: {:.200?}, expected {:.200?}", l.un, self.un));
        cx.check(self.nest.same(&l.nest), "local", || format!("field nest: {:.200?}, expected {:.200?}", l.nest, self.nest));
    }
    fn poke<'a>(l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, w: &mut Poke) {
        let _ = l;
        if !w.burn() {
            return;
        }
        w.touch(&l.arr);
        w.touch(&l.opt);
        w.touch(&l.tup);
        w.touch(&l.col);
        w.touch(&l.bx);
        w.touch(&l.vec);
        w.touch(&l.map);
        w.touch(&l.bt);
        w.touch(&l.us);
        w.touch(&l.is);
        w.touch(&l.un);
        w.touch(&l.nest);
    }
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, parcode::ParcodeObject)]
pub struct OneRemote {
    #[parcode(chunkable)]
    pub data: Vec<u8>,
}
impl Val for OneRemote {
    fn mk(g: &mut G) -> Self {
        g.depth += 1;
        let v = Self { data: <Vec<u8> as Val>::mk(g), };
        g.depth -= 1;
        v
    }
    fn same(&self, o: &Self) -> bool {
        let _ = o;
        self.data.same(&o.data)
    }
}
impl Item for OneRemote {
    fn local(&self, out: &mut Vec<u8>) {
        let _ = &out;
    }
    fn kids(&self, out: &mut Vec<Shape>) {
        let _ = &out;
        out.push(self.data.shape(0, false));
    }
    item_lazy!();
}
impl Rooted for OneRemote {
    fn shape(&self, comp: u8, _m: bool) -> Shape {
        let (mut bytes, mut kids) = (vec![], vec![]);
        self.local(&mut bytes);
        self.kids(&mut kids);
        Shape::Struct { bytes, kids, comp }
    }
    root_lazy!();
}
impl Remote for OneRemote {
    const INLINE: bool = false;
    fn lazy_check<'a>(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, cx: &mut Cx, w: &mut Walk) {
        let _ = (l, &w);
        cx.count("lazy_structs", 1);
        cx.at("data", |cx| self.data.lazy_check(&l.data, false, cx, w));
    }
    fn poke<'a>(l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, w: &mut Poke) {
        let _ = l;
        if !w.burn() {
            return;
        }
        <Vec<u8> as Remote>::poke(&l.data, false, w);
    }
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, parcode::ParcodeObject)]
pub struct Prims {
    #[parcode(chunkable)]
    pub a: u8,
    pub x: u16,
    #[parcode(chunkable)]
    pub b: String,
    #[parcode(chunkable)]
    pub c: f32,
    #[parcode(chunkable)]
    pub d: bool,
    #[parcode(chunkable)]
    pub e: i64,
}
impl Val for Prims {
    fn mk(g: &mut G) -> Self {
        g.depth += 1;
        let v = Self { a: <u8 as Val>::mk(g), x: <u16 as Val>::mk(g), b: <String as Val>::mk(g), c: <f32 as Val>::mk(g), d: <bool as Val>::mk(g), e: <i64 as Val>::mk(g), };
        g.depth -= 1;
        v
    }
    fn same(&self, o: &Self) -> bool {
        let _ = o;
        self.a.same(&o.a) && self.x.same(&o.x) && self.b.same(&o.b) && self.c.same(&o.c) && self.d.same(&o.d) && self.e.same(&o.e)
    }
}
impl Item for Prims {
    fn local(&self, out: &mut Vec<u8>) {
        let _ = &out;
        bin(&self.x, out);
    }
    fn kids(&self, out: &mut Vec<Shape>) {
        let _ = &out;
        out.push(self.a.shape(0, false));
        out.push(self.b.shape(0, false));
        out.push(self.c.shape(0, false));
        out.push(self.d.shape(0, false));
        out.push(self.e.shape(0, false));
    }
    item_lazy!();
}
impl Rooted for Prims {
    fn shape(&self, comp: u8, _m: bool) -> Shape {
        let (mut bytes, mut kids) = (vec![], vec![]);
        self.local(&mut bytes);
        self.kids(&mut kids);
        Shape::Struct { bytes, kids, comp }
    }
    root_lazy!();
}
impl Remote for Prims {
    const INLINE: bool = false;
    fn lazy_check<'a>(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, cx: &mut Cx, w: &mut Walk) {
        let _ = (l, &w);
        cx.count("lazy_structs", 1);
        cx.check(self.x.same(&l.x), "local", || format!("field x: {:.200?}, expected {:.200?}", l.x, self.x));
        cx.at("a", |cx| self.a.lazy_check(&l.a, false, cx, w));
        cx.at("b", |cx| self.b.lazy_check(&l.b, false, cx, w));
        cx.at("c", |cx| self.c.lazy_check(&l.c, false, cx, w));
        cx.at("d", |cx| self.d.lazy_check(&l.d, false, cx, w));
        cx.at("e", |cx| self.e.lazy_check(&l.e, false, cx, w));
    }
    fn poke<'a>(l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, w: &mut Poke) {
        let _ = l;
        if !w.burn() {
            return;
        }
        w.touch(&l.x);
        <u8 as Remote>::poke(&l.a, false, w);
        <String as Remote>::poke(&l.b, false, w);
        <f32 as Remote>::poke(&l.c, false, w);
        <bool as Remote>::poke(&l.d, false, w);
        <i64 as Remote>::poke(&l.e, false, w);
    }
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, parcode::ParcodeObject)]
pub struct Mixed {
    #[parcode(chunkable)]
    pub big: Vec<u32>,
    pub id: u32,
    #[parcode(chunkable)]
    pub flat: Flat,
    pub name: String,
    #[parcode(chunkable)]
    pub blob: HashMap<u16, String>,
    #[parcode(map)]
    pub map: HashMap<String, u32>,
    pub tail: Option<u8>,
}
impl Val for Mixed {
    fn mk(g: &mut G) -> Self {
        g.depth += 1;
        let v = Self { big: <Vec<u32> as Val>::mk(g), id: <u32 as Val>::mk(g), flat: <Flat as Val>::mk(g), name: <String as Val>::mk(g), blob: <HashMap<u16, String> as Val>::mk(g), map: <HashMap<String, u32> as Val>::mk(g), tail: <Option<u8> as Val>::mk(g), };
        g.depth -= 1;
        v
    }
    fn same(&self, o: &Self) -> bool {
        let _ = o;
        self.big.same(&o.big) && self.id.same(&o.id) && self.flat.same(&o.flat) && self.name.same(&o.name) && self.blob.same(&o.blob) && self.map.same(&o.map) && self.tail.same(&o.tail)
    }
}
impl Item for Mixed {
    fn local(&self, out: &mut Vec<u8>) {
        let _ = &out;
        bin(&self.id, out);
        bin(&self.name, out);
        bin(&self.tail, out);
    }
    fn kids(&self, out: &mut Vec<Shape>) {
        let _ = &out;
        out.push(self.big.shape(0, false));
        out.push(self.flat.shape(0, false));
        out.push(self.blob.shape(0, false));
        out.push(self.map.shape(0, true));
    }
    item_lazy!();
}
impl Rooted for Mixed {
    fn shape(&self, comp: u8, _m: bool) -> Shape {
        let (mut bytes, mut kids) = (vec![], vec![]);
        self.local(&mut bytes);
        self.kids(&mut kids);
        Shape::Struct { bytes, kids, comp }
    }
    root_lazy!();
}
impl Remote for Mixed {
    const INLINE: bool = false;
    fn lazy_check<'a>(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, cx: &mut Cx, w: &mut Walk) {
        let _ = (l, &w);
        cx.count("lazy_structs", 1);
        cx.check(self.id.same(&l.id), "local", || format!("field id: {:.200?}, expected {:.200?}", l.id, self.id));
        cx.check(self.name.same(&l.name), "local", || format!("field name: {:.200?}, expected {:.200?}", l.name, self.name));
        cx.check(self.tail.same(&l.tail), "local", || format!("field tail: {:.200?}, expected {:.200?}", l.tail, self.tail));
        cx.at("big", |cx| self.big.lazy_check(&l.big, false, cx, w));
        cx.at("flat", |cx| self.flat.lazy_check(&l.flat, false, cx, w));
        cx.at("blob", |cx| self.blob.lazy_check(&l.blob, false, cx, w));
        cx.at("map", |cx| self.map.lazy_check(&l.map, true, cx, w));
    }
    fn poke<'a>(l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, w: &mut Poke) {
        let _ = l;
        if !w.burn() {
            return;
        }
        w.touch(&l.id);
        w.touch(&l.name);
        w.touch(&l.tail);
        <Vec<u32> as Remote>::poke(&l.big, false, w);
        <Flat as Remote>::poke(&l.flat, false, w);
        <HashMap<u16, String> as Remote>::poke(&l.blob, false, w);
        <HashMap<String, u32> as Remote>::poke(&l.map, true, w);
    }
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, parcode::ParcodeObject)]
pub struct Packed {
    #[parcode(chunkable, compression = "lz4")]
    pub a: Vec<u8>,
    #[parcode(chunkable, compression = "LZ4")]
    pub b: Vec<String>,
    pub k: u64,
    #[parcode(map, compression = "lz4")]
    pub m: HashMap<u32, String>,
    #[parcode(chunkable, compression = "lz4")]
    pub p: Flat,
    #[parcode(chunkable, compression = "lz4")]
    pub q: String,
    #[parcode(chunkable, compression = "zstd")]
    pub z: Vec<u64>,
    #[parcode(chunkable, compression = "none")]
    pub n: Vec<u16>,
    #[parcode(chunkable, compression = "lz4")]
    pub bm: HashMap<u8, u64>,
}
impl Val for Packed {
    fn mk(g: &mut G) -> Self {
        g.depth += 1;
        let v = Self { a: <Vec<u8> as Val>::mk(g), b: <Vec<String> as Val>::mk(g), k: <u64 as Val>::mk(g), m: <HashMap<u32, String> as Val>::mk(g), p: <Flat as Val>::mk(g), q: <String as Val>::mk(g), z: <Vec<u64> as Val>::mk(g), n: <Vec<u16> as Val>::mk(g), bm: <HashMap<u8, u64> as Val>::mk(g), };
        g.depth -= 1;
        v
    }
    fn same(&self, o: &Self) -> bool {
        let _ = o;
        self.a.same(&o.a) && self.b.same(&o.b) && self.k.same(&o.k) && self.m.same(&o.m) && self.p.same(&o.p) && self.q.same(&o.q) && self.z.same(&o.z) && self.n.same(&o.n) && self.bm.same(&o.bm)
    }
}
impl Item for Packed {
    fn local(&self, out: &mut Vec<u8>) {
        let _ = &out;
        bin(&self.k, out);
    }
    fn kids(&self, out: &mut Vec<Shape>) {
        let _ = &out;
        out.push(self.a.shape(1, false));
        out.push(self.b.shape(1, false));
        out.push(self.m.shape(1, true));
        out.push(self.p.shape(1, false));
        out.push(self.q.shape(1, false));
        out.push(self.z.shape(2, false));
        out.push(self.n.shape(0, false));
        out.push(self.bm.shape(1, false));
    }
    item_lazy!();
}
impl Rooted for Packed {
    fn shape(&self, comp: u8, _m: bool) -> Shape {
        let (mut bytes, mut kids) = (vec![], vec![]);
        self.local(&mut bytes);
        self.kids(&mut kids);
        Shape::Struct { bytes, kids, comp }
    }
    root_lazy!();
}
impl Remote for Packed {
    const INLINE: bool = false;
    fn lazy_check<'a>(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, cx: &mut Cx, w: &mut Walk) {
        let _ = (l, &w);
        cx.count("lazy_structs", 1);
        cx.check(self.k.same(&l.k), "local", || format!("field k: {:.200?}, expected {:.200?}", l.k, self.k));
        cx.at("a", |cx| self.a.lazy_check(&l.a, false, cx, w));
        cx.at("b", |cx| self.b.lazy_check(&l.b, false, cx, w));
        cx.at("m", |cx| self.m.lazy_check(&l.m, true, cx, w));
        cx.at("p", |cx| self.p.lazy_check(&l.p, false, cx, w));
        cx.at("q", |cx| self.q.lazy_check(&l.q, false, cx, w));
        cx.at("z", |cx| self.z.lazy_check(&l.z, false, cx, w));
        cx.at("n", |cx| self.n.lazy_check(&l.n, false, cx, w));
        cx.at("bm", |cx| self.bm.lazy_check(&l.bm, false, cx, w));
    }
    fn poke<'a>(l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, w: &mut Poke) {
        let _ = l;
        if !w.burn() {
            return;
        }
        w.touch(&l.k);
        <Vec<u8> as Remote>::poke(&l.a, false, w);
        <Vec<String> as Remote>::poke(&l.b, false, w);
        <HashMap<u32, String> as Remote>::poke(&l.m, true, w);
        <Flat as Remote>::poke(&l.p, false, w);
        <String as Remote>::poke(&l.q, false, w);
        <Vec<u64> as Remote>::poke(&l.z, false, w);
        <Vec<u16> as Remote>::poke(&l.n, false, w);
        <HashMap<u8, u64> as Remote>::poke(&l.bm, false, w);
    }
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, parcode::ParcodeObject)]
pub struct Attrs {
    #[parcode(chunkable)]
    #[parcode(compression = "lz4")]
    pub a: Vec<u8>,
    #[parcode(map, chunkable)]
    pub b: HashMap<i32, u8>,
    #[parcode(chunkable, map, compression = "Lz4")]
    pub c: HashMap<i32, i32>,
    #[parcode(compression = "lz4")]
    pub d: u32,
    #[parcode(map)]
    pub e: Vec<i16>,
    #[parcode(map)]
    pub f: Flat,
    #[parcode(compression = "none", chunkable)]
    pub g: u64,
}
impl Val for Attrs {
    fn mk(g: &mut G) -> Self {
        g.depth += 1;
        let v = Self { a: <Vec<u8> as Val>::mk(g), b: <HashMap<i32, u8> as Val>::mk(g), c: <HashMap<i32, i32> as Val>::mk(g), d: <u32 as Val>::mk(g), e: <Vec<i16> as Val>::mk(g), f: <Flat as Val>::mk(g), g: <u64 as Val>::mk(g), };
        g.depth -= 1;
        v
    }
    fn same(&self, o: &Self) -> bool {
        let _ = o;
        self.a.same(&o.a) && self.b.same(&o.b) && self.c.same(&o.c) && self.d.same(&o.d) && self.e.same(&o.e) && self.f.same(&o.f) && self.g.same(&o.g)
    }
}
impl Item for Attrs {
    fn local(&self, out: &mut Vec<u8>) {
        let _ = &out;
        bin(&self.d, out);
    }
    fn kids(&self, out: &mut Vec<Shape>) {
        let _ = &out;
        out.push(self.a.shape(1, false));
        out.push(self.b.shape(0, true));
        out.push(self.c.shape(1, true));
        out.push(self.e.shape(0, true));
        out.push(self.f.shape(0, true));
        out.push(self.g.shape(0, false));
    }
    item_lazy!();
}
impl Rooted for Attrs {
    fn shape(&self, comp: u8, _m: bool) -> Shape {
        let (mut bytes, mut kids) = (vec![], vec![]);
        self.local(&mut bytes);
        self.kids(&mut kids);
        Shape::Struct { bytes, kids, comp }
    }
    root_lazy!();
}
impl Remote for Attrs {
    const INLINE: bool = false;
    fn lazy_check<'a>(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, cx: &mut Cx, w: &mut Walk) {
        let _ = (l, &w);
        cx.count("lazy_structs", 1);
        cx.check(self.d.same(&l.d), "local", || format!("field d: {:.200?}, expected {:.200?}", l.d, self.d));
        cx.at("a", |cx| self.a.lazy_check(&l.a, false, cx, w));
        cx.at("b", |cx| self.b.lazy_check(&l.b, true, cx, w));
        cx.at("c", |cx| self.c.lazy_check(&l.c, true, cx, w));
        cx.at("e", |cx| self.e.lazy_check(&l.e, true, cx, w));
        cx.at("f", |cx| self.f.lazy_check(&l.f, true, cx, w));
        cx.at("g", |cx| self.g.lazy_check(&l.g, false, cx, w));
    }
    fn poke<'a>(l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, w: &mut Poke) {
        let _ = l;
        if !w.burn() {
            return;
        }
        w.touch(&l.d);
        <Vec<u8> as Remote>::poke(&l.a, false, w);
        <HashMap<i32, u8> as Remote>::poke(&l.b, true, w);
        <HashMap<i32, i32> as Remote>::poke(&l.c, true, w);
        <Vec<i16> as Remote>::poke(&l.e, true, w);
        <Flat as Remote>::poke(&l.f, true, w);
        <u64 as Remote>::poke(&l.g, false, w);
    }
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, parcode::ParcodeObject)]
pub struct Leaf {
    pub v: u32,
    #[parcode(chunkable)]
    pub data: Vec<u16>,
}
impl Val for Leaf {
    fn mk(g: &mut G) -> Self {
        g.depth += 1;
        let v = Self { v: <u32 as Val>::mk(g), data: <Vec<u16> as Val>::mk(g), };
        g.depth -= 1;
        v
    }
    fn same(&self, o: &Self) -> bool {
        let _ = o;
        self.v.same(&o.v) && self.data.same(&o.data)
    }
}
impl Item for Leaf {
    fn local(&self, out: &mut Vec<u8>) {
        let _ = &out;
        bin(&self.v, out);
    }
    fn kids(&self, out: &mut Vec<Shape>) {
        let _ = &out;
        out.push(self.data.shape(0, false));
    }
    item_lazy!();
}
impl Rooted for Leaf {
    fn shape(&self, comp: u8, _m: bool) -> Shape {
        let (mut bytes, mut kids) = (vec![], vec![]);
        self.local(&mut bytes);
        self.kids(&mut kids);
        Shape::Struct { bytes, kids, comp }
    }
    root_lazy!();
}
impl Remote for Leaf {
    const INLINE: bool = false;
    fn lazy_check<'a>(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, cx: &mut Cx, w: &mut Walk) {
        let _ = (l, &w);
        cx.count("lazy_structs", 1);
        cx.check(self.v.same(&l.v), "local", || format!("field v: {:.200?}, expected {:.200?}", l.v, self.v));
        cx.at("data", |cx| self.data.lazy_check(&l.data, false, cx, w));
    }
    fn poke<'a>(l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, w: &mut Poke) {
        let _ = l;
        if !w.burn() {
            return;
        }
        w.touch(&l.v);
        <Vec<u16> as Remote>::poke(&l.data, false, w);
    }
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, parcode::ParcodeObject)]
pub struct Twig {
    pub v: i16,
    #[parcode(chunkable)]
    pub leaf: Leaf,
    #[parcode(chunkable)]
    pub leaves: Vec<Leaf>,
    pub s: String,
}
impl Val for Twig {
    fn mk(g: &mut G) -> Self {
        g.depth += 1;
        let v = Self { v: <i16 as Val>::mk(g), leaf: <Leaf as Val>::mk(g), leaves: <Vec<Leaf> as Val>::mk(g), s: <String as Val>::mk(g), };
        g.depth -= 1;
        v
    }
    fn same(&self, o: &Self) -> bool {
        let _ = o;
        self.v.same(&o.v) && self.leaf.same(&o.leaf) && self.leaves.same(&o.leaves) && self.s.same(&o.s)
    }
}
impl Item for Twig {
    fn local(&self, out: &mut Vec<u8>) {
        let _ = &out;
        bin(&self.v, out);
        bin(&self.s, out);
    }
    fn kids(&self, out: &mut Vec<Shape>) {
        let _ = &out;
        out.push(self.leaf.shape(0, false));
        out.push(self.leaves.shape(0, false));
    }
    item_lazy!();
}
impl Rooted for Twig {
    fn shape(&self, comp: u8, _m: bool) -> Shape {
        let (mut bytes, mut kids) = (vec![], vec![]);
        self.local(&mut bytes);
        self.kids(&mut kids);
        Shape::Struct { bytes, kids, comp }
    }
    root_lazy!();
}
impl Remote for Twig {
    const INLINE: bool = false;
    fn lazy_check<'a>(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, cx: &mut Cx, w: &mut Walk) {
        let _ = (l, &w);
        cx.count("lazy_structs", 1);
        cx.check(self.v.same(&l.v), "local", || format!("field v: {:.200?}, expected {:.200?}", l.v, self.v));
        cx.check(self.s.same(&l.s), "local", || format!("field s: {:.200?}, expected {:.200?}", l.s, self.s));
        cx.at("leaf", |cx| self.leaf.lazy_check(&l.leaf, false, cx, w));
        cx.at("leaves", |cx| self.leaves.lazy_check(&l.leaves, false, cx, w));
    }
    fn poke<'a>(l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, w: &mut Poke) {
        let _ = l;
        if !w.burn() {
            return;
        }
        w.touch(&l.v);
        w.touch(&l.s);
        <Leaf as Remote>::poke(&l.leaf, false, w);
        <Vec<Leaf> as Remote>::poke(&l.leaves, false, w);
    }
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, parcode::ParcodeObject)]
pub struct Tree {
    pub v: u32,
    #[parcode(chunkable)]
    pub kids: Vec<Tree>,
}
impl Val for Tree {
    fn mk(g: &mut G) -> Self {
        g.depth += 1;
        let v = Self { v: <u32 as Val>::mk(g), kids: <Vec<Tree> as Val>::mk(g), };
        g.depth -= 1;
        v
    }
    fn same(&self, o: &Self) -> bool {
        let _ = o;
        self.v.same(&o.v) && self.kids.same(&o.kids)
    }
}
impl Item for Tree {
    fn local(&self, out: &mut Vec<u8>) {
        let _ = &out;
        bin(&self.v, out);
    }
    fn kids(&self, out: &mut Vec<Shape>) {
        let _ = &out;
        out.push(self.kids.shape(0, false));
    }
    item_lazy!();
}
impl Rooted for Tree {
    fn shape(&self, comp: u8, _m: bool) -> Shape {
        let (mut bytes, mut kids) = (vec![], vec![]);
        self.local(&mut bytes);
        self.kids(&mut kids);
        Shape::Struct { bytes, kids, comp }
    }
    root_lazy!();
}
impl Remote for Tree {
    const INLINE: bool = false;
    fn lazy_check<'a>(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, cx: &mut Cx, w: &mut Walk) {
        let _ = (l, &w);
        cx.count("lazy_structs", 1);
        cx.check(self.v.same(&l.v), "local", || format!("field v: {:.200?}, expected {:.200?}", l.v, self.v));
        cx.at("kids", |cx| self.kids.lazy_check(&l.kids, false, cx, w));
    }
    fn poke<'a>(l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, w: &mut Poke) {
        let _ = l;
        if !w.burn() {
            return;
        }
        w.touch(&l.v);
        <Vec<Tree> as Remote>::poke(&l.kids, false, w);
    }
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, parcode::ParcodeObject)]
pub struct Deep {
    #[parcode(chunkable)]
    pub twig: Twig,
    #[parcode(map)]
    pub m: HashMap<String, Leaf>,
    #[parcode(chunkable)]
    pub vv: Vec<Vec<u8>>,
    #[parcode(chunkable)]
    pub vl: Vec<Vec<Leaf>>,
    pub n: u8,
}
impl Val for Deep {
    fn mk(g: &mut G) -> Self {
        g.depth += 1;
        let v = Self { twig: <Twig as Val>::mk(g), m: <HashMap<String, Leaf> as Val>::mk(g), vv: <Vec<Vec<u8>> as Val>::mk(g), vl: <Vec<Vec<Leaf>> as Val>::mk(g), n: <u8 as Val>::mk(g), };
        g.depth -= 1;
        v
    }
    fn same(&self, o: &Self) -> bool {
        let _ = o;
        self.twig.same(&o.twig) && self.m.same(&o.m) && self.vv.same(&o.vv) && self.vl.same(&o.vl) && self.n.same(&o.n)
    }
}
impl Item for Deep {
    fn local(&self, out: &mut Vec<u8>) {
        let _ = &out;
        bin(&self.n, out);
    }
    fn kids(&self, out: &mut Vec<Shape>) {
        let _ = &out;
        out.push(self.twig.shape(0, false));
        out.push(self.m.shape(0, true));
        out.push(self.vv.shape(0, false));
        out.push(self.vl.shape(0, false));
    }
    item_lazy!();
}
impl Rooted for Deep {
    fn shape(&self, comp: u8, _m: bool) -> Shape {
        let (mut bytes, mut kids) = (vec![], vec![]);
        self.local(&mut bytes);
        self.kids(&mut kids);
        Shape::Struct { bytes, kids, comp }
    }
    root_lazy!();
}
impl Remote for Deep {
    const INLINE: bool = false;
    fn lazy_check<'a>(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, cx: &mut Cx, w: &mut Walk) {
        let _ = (l, &w);
        cx.count("lazy_structs", 1);
        cx.check(self.n.same(&l.n), "local", || format!("field n: {:.200?}, expected {:.200?}", l.n, self.n));
        cx.at("twig", |cx| self.twig.lazy_check(&l.twig, false, cx, w));
        cx.at("m", |cx| self.m.lazy_check(&l.m, true, cx, w));
        cx.at("vv", |cx| self.vv.lazy_check(&l.vv, false, cx, w));
        cx.at("vl", |cx| self.vl.lazy_check(&l.vl, false, cx, w));
    }
    fn poke<'a>(l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, w: &mut Poke) {
        let _ = l;
        if !w.burn() {
            return;
        }
        w.touch(&l.n);
        <Twig as Remote>::poke(&l.twig, false, w);
        <HashMap<String, Leaf> as Remote>::poke(&l.m, true, w);
        <Vec<Vec<u8>> as Remote>::poke(&l.vv, false, w);
        <Vec<Vec<Leaf>> as Remote>::poke(&l.vl, false, w);
    }
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, parcode::ParcodeObject)]
pub struct Maps {
    #[parcode(map)]
    pub a: HashMap<u64, Leaf>,
    #[parcode(map)]
    pub b: HashMap<CKey, Twig>,
    #[parcode(chunkable, map)]
    pub c: HashMap<CKey, u32>,
    #[parcode(chunkable)]
    pub d: HashMap<CKey, Flat>,
    #[parcode(map)]
    pub e: HashMap<(u32, String), Vec<u8>>,
    #[parcode(map)]
    pub f: HashMap<String, HashMap<u8, u8>>,
    #[parcode(map)]
    pub g: HashMap<bool, Prims>,
    #[parcode(map)]
    pub h: HashMap<[u8; 4], Empty>,
    #[parcode(map)]
    pub i: HashMap<Option<u16>, Unit>,
}
impl Val for Maps {
    fn mk(g: &mut G) -> Self {
        g.depth += 1;
        let v = Self { a: <HashMap<u64, Leaf> as Val>::mk(g), b: <HashMap<CKey, Twig> as Val>::mk(g), c: <HashMap<CKey, u32> as Val>::mk(g), d: <HashMap<CKey, Flat> as Val>::mk(g), e: <HashMap<(u32, String), Vec<u8>> as Val>::mk(g), f: <HashMap<String, HashMap<u8, u8>> as Val>::mk(g), g: <HashMap<bool, Prims> as Val>::mk(g), h: <HashMap<[u8; 4], Empty> as Val>::mk(g), i: <HashMap<Option<u16>, Unit> as Val>::mk(g), };
        g.depth -= 1;
        v
    }
    fn same(&self, o: &Self) -> bool {
        let _ = o;
        self.a.same(&o.a) && self.b.same(&o.b) && self.c.same(&o.c) && self.d.same(&o.d) && self.e.same(&o.e) && self.f.same(&o.f) && self.g.same(&o.g) && self.h.same(&o.h) && self.i.same(&o.i)
    }
}
impl Item for Maps {
    fn local(&self, out: &mut Vec<u8>) {
        let _ = &out;
    }
    fn kids(&self, out: &mut Vec<Shape>) {
        let _ = &out;
        out.push(self.a.shape(0, true));
        out.push(self.b.shape(0, true));
        out.push(self.c.shape(0, true));
        out.push(self.d.shape(0, false));
        out.push(self.e.shape(0, true));
        out.push(self.f.shape(0, true));
        out.push(self.g.shape(0, true));
        out.push(self.h.shape(0, true));
        out.push(self.i.shape(0, true));
    }
    item_lazy!();
}
impl Rooted for Maps {
    fn shape(&self, comp: u8, _m: bool) -> Shape {
        let (mut bytes, mut kids) = (vec![], vec![]);
        self.local(&mut bytes);
        self.kids(&mut kids);
        Shape::Struct { bytes, kids, comp }
    }
    root_lazy!();
}
impl Remote for Maps {
    const INLINE: bool = false;
    fn lazy_check<'a>(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, cx: &mut Cx, w: &mut Walk) {
        let _ = (l, &w);
        cx.count("lazy_structs", 1);
        cx.at("a", |cx| self.a.lazy_check(&l.a, true, cx, w));
        cx.at("b", |cx| self.b.lazy_check(&l.b, true, cx, w));
        cx.at("c", |cx| self.c.lazy_check(&l.c, true, cx, w));
        cx.at("d", |cx| self.d.lazy_check(&l.d, false, cx, w));
        cx.at("e", |cx| self.e.lazy_check(&l.e, true, cx, w));
        cx.at("f", |cx| self.f.lazy_check(&l.f, true, cx, w));
        cx.at("g", |cx| self.g.lazy_check(&l.g, true, cx, w));
        cx.at("h", |cx| self.h.lazy_check(&l.h, true, cx, w));
        cx.at("i", |cx| self.i.lazy_check(&l.i, true, cx, w));
    }
    fn poke<'a>(l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, w: &mut Poke) {
        let _ = l;
        if !w.burn() {
            return;
        }
        <HashMap<u64, Leaf> as Remote>::poke(&l.a, true, w);
        <HashMap<CKey, Twig> as Remote>::poke(&l.b, true, w);
        <HashMap<CKey, u32> as Remote>::poke(&l.c, true, w);
        <HashMap<CKey, Flat> as Remote>::poke(&l.d, false, w);
        <HashMap<(u32, String), Vec<u8>> as Remote>::poke(&l.e, true, w);
        <HashMap<String, HashMap<u8, u8>> as Remote>::poke(&l.f, true, w);
        <HashMap<bool, Prims> as Remote>::poke(&l.g, true, w);
        <HashMap<[u8; 4], Empty> as Remote>::poke(&l.h, true, w);
        <HashMap<Option<u16>, Unit> as Remote>::poke(&l.i, true, w);
    }
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, parcode::ParcodeObject)]
pub struct Inner0 {
    #[parcode(chunkable)]
    pub e: Empty,
    #[parcode(chunkable)]
    pub u: Unit,
    #[parcode(chunkable)]
    pub ve: Vec<Empty>,
    #[parcode(chunkable)]
    pub vu: Vec<Unit>,
}
impl Val for Inner0 {
    fn mk(g: &mut G) -> Self {
        g.depth += 1;
        let v = Self { e: <Empty as Val>::mk(g), u: <Unit as Val>::mk(g), ve: <Vec<Empty> as Val>::mk(g), vu: <Vec<Unit> as Val>::mk(g), };
        g.depth -= 1;
        v
    }
    fn same(&self, o: &Self) -> bool {
        let _ = o;
        self.e.same(&o.e) && self.u.same(&o.u) && self.ve.same(&o.ve) && self.vu.same(&o.vu)
    }
}
impl Item for Inner0 {
    fn local(&self, out: &mut Vec<u8>) {
        let _ = &out;
    }
    fn kids(&self, out: &mut Vec<Shape>) {
        let _ = &out;
        out.push(self.e.shape(0, false));
        out.push(self.u.shape(0, false));
        out.push(self.ve.shape(0, false));
        out.push(self.vu.shape(0, false));
    }
    item_lazy!();
}
impl Rooted for Inner0 {
    fn shape(&self, comp: u8, _m: bool) -> Shape {
        let (mut bytes, mut kids) = (vec![], vec![]);
        self.local(&mut bytes);
        self.kids(&mut kids);
        Shape::Struct { bytes, kids, comp }
    }
    root_lazy!();
}
impl Remote for Inner0 {
    const INLINE: bool = false;
    fn lazy_check<'a>(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, cx: &mut Cx, w: &mut Walk) {
        let _ = (l, &w);
        cx.count("lazy_structs", 1);
        cx.at("e", |cx| self.e.lazy_check(&l.e, false, cx, w));
        cx.at("u", |cx| self.u.lazy_check(&l.u, false, cx, w));
        cx.at("ve", |cx| self.ve.lazy_check(&l.ve, false, cx, w));
        cx.at("vu", |cx| self.vu.lazy_check(&l.vu, false, cx, w));
    }
    fn poke<'a>(l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, w: &mut Poke) {
        let _ = l;
        if !w.burn() {
            return;
        }
        <Empty as Remote>::poke(&l.e, false, w);
        <Unit as Remote>::poke(&l.u, false, w);
        <Vec<Empty> as Remote>::poke(&l.ve, false, w);
        <Vec<Unit> as Remote>::poke(&l.vu, false, w);
    }
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, parcode::ParcodeObject)]
pub struct Hard {
    pub v: u32,
    #[parcode(chunkable)]
    pub leaf: Leaf,
    #[parcode(chunkable)]
    pub leaves: Vec<Leaf>,
    #[parcode(map)]
    pub m: HashMap<u16, Leaf>,
    #[parcode(map)]
    pub h: HashMap<CKey, u32>,
    #[parcode(chunkable)]
    pub b: HashMap<u8, u16>,
    #[parcode(chunkable)]
    pub vv: Vec<Vec<u8>>,
    #[parcode(map)]
    pub e: HashMap<[u8; 4], Vec<u16>>,
    #[parcode(chunkable, compression = "lz4")]
    pub z: Vec<u64>,
    pub o: Option<u8>,
}
impl Val for Hard {
    fn mk(g: &mut G) -> Self {
        g.depth += 1;
        let v = Self { v: <u32 as Val>::mk(g), leaf: <Leaf as Val>::mk(g), leaves: <Vec<Leaf> as Val>::mk(g), m: <HashMap<u16, Leaf> as Val>::mk(g), h: <HashMap<CKey, u32> as Val>::mk(g), b: <HashMap<u8, u16> as Val>::mk(g), vv: <Vec<Vec<u8>> as Val>::mk(g), e: <HashMap<[u8; 4], Vec<u16>> as Val>::mk(g), z: <Vec<u64> as Val>::mk(g), o: <Option<u8> as Val>::mk(g), };
        g.depth -= 1;
        v
    }
    fn same(&self, o: &Self) -> bool {
        let _ = o;
        self.v.same(&o.v) && self.leaf.same(&o.leaf) && self.leaves.same(&o.leaves) && self.m.same(&o.m) && self.h.same(&o.h) && self.b.same(&o.b) && self.vv.same(&o.vv) && self.e.same(&o.e) && self.z.same(&o.z) && self.o.same(&o.o)
    }
}
impl Item for Hard {
    fn local(&self, out: &mut Vec<u8>) {
        let _ = &out;
        bin(&self.v, out);
        bin(&self.o, out);
    }
    fn kids(&self, out: &mut Vec<Shape>) {
        let _ = &out;
        out.push(self.leaf.shape(0, false));
        out.push(self.leaves.shape(0, false));
        out.push(self.m.shape(0, true));
        out.push(self.h.shape(0, true));
        out.push(self.b.shape(0, false));
        out.push(self.vv.shape(0, false));
        out.push(self.e.shape(0, true));
        out.push(self.z.shape(1, false));
    }
    item_lazy!();
}
impl Rooted for Hard {
    fn shape(&self, comp: u8, _m: bool) -> Shape {
        let (mut bytes, mut kids) = (vec![], vec![]);
        self.local(&mut bytes);
        self.kids(&mut kids);
        Shape::Struct { bytes, kids, comp }
    }
    root_lazy!();
}
impl Remote for Hard {
    const INLINE: bool = false;
    fn lazy_check<'a>(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, cx: &mut Cx, w: &mut Walk) {
        let _ = (l, &w);
        cx.count("lazy_structs", 1);
        cx.check(self.v.same(&l.v), "local", || format!("field v: {:.200?}, expected {:.200?}", l.v, self.v));
        cx.check(self.o.same(&l.o), "local", || format!("field o: {:.200?}, expected {:.200?}", l.o, self.o));
        cx.at("leaf", |cx| self.leaf.lazy_check(&l.leaf, false, cx, w));
        cx.at("leaves", |cx| self.leaves.lazy_check(&l.leaves, false, cx, w));
        cx.at("m", |cx| self.m.lazy_check(&l.m, true, cx, w));
        cx.at("h", |cx| self.h.lazy_check(&l.h, true, cx, w));
        cx.at("b", |cx| self.b.lazy_check(&l.b, false, cx, w));
        cx.at("vv", |cx| self.vv.lazy_check(&l.vv, false, cx, w));
        cx.at("e", |cx| self.e.lazy_check(&l.e, true, cx, w));
        cx.at("z", |cx| self.z.lazy_check(&l.z, false, cx, w));
    }
    fn poke<'a>(l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, w: &mut Poke) {
        let _ = l;
        if !w.burn() {
            return;
        }
        w.touch(&l.v);
        w.touch(&l.o);
        <Leaf as Remote>::poke(&l.leaf, false, w);
        <Vec<Leaf> as Remote>::poke(&l.leaves, false, w);
        <HashMap<u16, Leaf> as Remote>::poke(&l.m, true, w);
        <HashMap<CKey, u32> as Remote>::poke(&l.h, true, w);
        <HashMap<u8, u16> as Remote>::poke(&l.b, false, w);
        <Vec<Vec<u8>> as Remote>::poke(&l.vv, false, w);
        <HashMap<[u8; 4], Vec<u16>> as Remote>::poke(&l.e, true, w);
        <Vec<u64> as Remote>::poke(&l.z, false, w);
    }
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, parcode::ParcodeObject)]
pub struct Raw {
    pub r#type: u32,
    #[parcode(chunkable)]
    pub r#fn: Vec<u8>,
    #[parcode(map)]
    pub r#match: HashMap<u8, u8>,
}
impl Val for Raw {
    fn mk(g: &mut G) -> Self {
        g.depth += 1;
        let v = Self { r#type: <u32 as Val>::mk(g), r#fn: <Vec<u8> as Val>::mk(g), r#match: <HashMap<u8, u8> as Val>::mk(g), };
        g.depth -= 1;
        v
    }
    fn same(&self, o: &Self) -> bool {
        let _ = o;
        self.r#type.same(&o.r#type) && self.r#fn.same(&o.r#fn) && self.r#match.same(&o.r#match)
    }
}
impl Item for Raw {
    fn local(&self, out: &mut Vec<u8>) {
        let _ = &out;
        bin(&self.r#type, out);
    }
    fn kids(&self, out: &mut Vec<Shape>) {
        let _ = &out;
        out.push(self.r#fn.shape(0, false));
        out.push(self.r#match.shape(0, true));
    }
    item_lazy!();
}
impl Rooted for Raw {
    fn shape(&self, comp: u8, _m: bool) -> Shape {
        let (mut bytes, mut kids) = (vec![], vec![]);
        self.local(&mut bytes);
        self.kids(&mut kids);
        Shape::Struct { bytes, kids, comp }
    }
    root_lazy!();
}
impl Remote for Raw {
    const INLINE: bool = false;
    fn lazy_check<'a>(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, cx: &mut Cx, w: &mut Walk) {
        let _ = (l, &w);
        cx.count("lazy_structs", 1);
        cx.check(self.r#type.same(&l.r#type), "local", || format!("field r#type: {:.200?}, expected {:.200?}", l.r#type, self.r#type));
        cx.at("r#fn", |cx| self.r#fn.lazy_check(&l.r#fn, false, cx, w));
        cx.at("r#match", |cx| self.r#match.lazy_check(&l.r#match, true, cx, w));
    }
    fn poke<'a>(l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, w: &mut Poke) {
        let _ = l;
        if !w.burn() {
            return;
        }
        w.touch(&l.r#type);
        <Vec<u8> as Remote>::poke(&l.r#fn, false, w);
        <HashMap<u8, u8> as Remote>::poke(&l.r#match, true, w);
    }
}
pub trait Each {
    fn visit<T: Rooted>(&mut self, name: &'static str);
}
pub fn each<E: Each>(e: &mut E) {
    e.visit::<u8>("u8");
    e.visit::<u16>("u16");
    e.visit::<u32>("u32");
    e.visit::<u64>("u64");
    e.visit::<i8>("i8");
    e.visit::<i16>("i16");
    e.visit::<i32>("i32");
    e.visit::<i64>("i64");
    e.visit::<f32>("f32");
    e.visit::<f64>("f64");
    e.visit::<bool>("bool");
    e.visit::<String>("String");
    e.visit::<u128>("u128");
    e.visit::<i128>("i128");
    e.visit::<Vec<u8>>("Vec<u8>");
    e.visit::<Vec<u16>>("Vec<u16>");
    e.visit::<Vec<u32>>("Vec<u32>");
    e.visit::<Vec<u64>>("Vec<u64>");
    e.visit::<Vec<i8>>("Vec<i8>");
    e.visit::<Vec<i16>>("Vec<i16>");
    e.visit::<Vec<i32>>("Vec<i32>");
    e.visit::<Vec<i64>>("Vec<i64>");
    e.visit::<Vec<f32>>("Vec<f32>");
    e.visit::<Vec<f64>>("Vec<f64>");
    e.visit::<Vec<bool>>("Vec<bool>");
    e.visit::<Vec<String>>("Vec<String>");
    e.visit::<Vec<u128>>("Vec<u128>");
    e.visit::<Vec<i128>>("Vec<i128>");
    e.visit::<Vec<Vec<u8>>>("Vec<Vec<u8>>");
    e.visit::<Vec<Vec<String>>>("Vec<Vec<String>>");
    e.visit::<Vec<HashMap<u8, u16>>>("Vec<HashMap<u8, u16>>");
    e.visit::<HashMap<u32, String>>("HashMap<u32, String>");
    e.visit::<HashMap<String, Flat>>("HashMap<String, Flat>");
    e.visit::<HashMap<CKey, Vec<u8>>>("HashMap<CKey, Vec<u8>>");
    e.visit::<HashMap<u8, Leaf>>("HashMap<u8, Leaf>");
    e.visit::<Empty>("Empty");
    e.visit::<Unit>("Unit");
    e.visit::<Flat>("Flat");
    e.visit::<Wide>("Wide");
    e.visit::<OneRemote>("OneRemote");
    e.visit::<Prims>("Prims");
    e.visit::<Mixed>("Mixed");
    e.visit::<Packed>("Packed");
    e.visit::<Attrs>("Attrs");
    e.visit::<Leaf>("Leaf");
    e.visit::<Twig>("Twig");
    e.visit::<Tree>("Tree");
    e.visit::<Deep>("Deep");
    e.visit::<Maps>("Maps");
    e.visit::<Inner0>("Inner0");
    e.visit::<Hard>("Hard");
    e.visit::<Raw>("Raw");
    e.visit::<Vec<Empty>>("Vec<Empty>");
    e.visit::<Vec<Unit>>("Vec<Unit>");
    e.visit::<Vec<Flat>>("Vec<Flat>");
    e.visit::<Vec<Wide>>("Vec<Wide>");
    e.visit::<Vec<OneRemote>>("Vec<OneRemote>");
    e.visit::<Vec<Prims>>("Vec<Prims>");
    e.visit::<Vec<Mixed>>("Vec<Mixed>");
    e.visit::<Vec<Attrs>>("Vec<Attrs>");
    e.visit::<Vec<Leaf>>("Vec<Leaf>");
    e.visit::<Vec<Twig>>("Vec<Twig>");
    e.visit::<Vec<Tree>>("Vec<Tree>");
    e.visit::<Vec<Inner0>>("Vec<Inner0>");
    e.visit::<Vec<Hard>>("Vec<Hard>");
    e.visit::<Vec<Raw>>("Vec<Raw>");
    e.visit::<Vec<Maps>>("Vec<Maps>");
    e.visit::<Vec<Packed>>("Vec<Packed>");
    e.visit::<Vec<Vec<Twig>>>("Vec<Vec<Twig>>");
}
/// Structurally different types only, for monitors that are slow to build or run.
pub fn few<E: Each>(e: &mut E) {
    e.visit::<u32>("u32");
    e.visit::<f64>("f64");
    e.visit::<String>("String");
    e.visit::<Vec<u8>>("Vec<u8>");
    e.visit::<Vec<u16>>("Vec<u16>");
    e.visit::<Vec<u64>>("Vec<u64>");
    e.visit::<Vec<bool>>("Vec<bool>");
    e.visit::<Vec<String>>("Vec<String>");
    e.visit::<Vec<u128>>("Vec<u128>");
    e.visit::<Vec<Vec<u8>>>("Vec<Vec<u8>>");
    e.visit::<HashMap<u32, String>>("HashMap<u32, String>");
    e.visit::<HashMap<u8, Leaf>>("HashMap<u8, Leaf>");
    e.visit::<Empty>("Empty");
    e.visit::<Mixed>("Mixed");
    e.visit::<Attrs>("Attrs");
    e.visit::<Leaf>("Leaf");
    e.visit::<Hard>("Hard");
    e.visit::<Tree>("Tree");
    e.visit::<Vec<Flat>>("Vec<Flat>");
    e.visit::<Vec<Leaf>>("Vec<Leaf>");
    e.visit::<Vec<Unit>>("Vec<Unit>");
}
