//! Generated by tools/gen_types.py zoo; do not edit.
#![allow(dead_code, unused_imports)]
use crate::cx::Cx;
use crate::shape::{Shape, bin};
#[allow(unused_imports)]
use crate::val::*;
#[allow(unused_imports)]
use crate::spy::Spy;
use crate::{item_lazy, root_lazy};
#[allow(unused_imports)]
use std::collections::{BTreeMap, HashMap};
use parcode::rt::ParcodeLazyRef;
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, parcode::ParcodeObject)]
pub struct Spy2 {
    pub a: Spy,
    pub b: Spy,
}
impl Val for Spy2 {
    fn mk(g: &mut G) -> Self {
        g.depth += 1;
        let v = Self { a: <Spy as Val>::mk(g), b: <Spy as Val>::mk(g), };
        g.depth -= 1;
        v
    }
    fn same(&self, o: &Self) -> bool {
        let _ = o;
        self.a.same(&o.a) && self.b.same(&o.b)
    }
}
impl Item for Spy2 {
    fn local(&self, out: &mut Vec<u8>) {
        let _ = &out;
        bin(&self.a, out);
        bin(&self.b, out);
    }
    fn kids(&self, out: &mut Vec<Shape>) {
        let _ = &out;
    }
    item_lazy!();
}
impl Rooted for Spy2 {
    fn shape(&self, comp: u8, _m: bool) -> Shape {
        let (mut bytes, mut kids) = (vec![], vec![]);
        self.local(&mut bytes);
        self.kids(&mut kids);
        Shape::Struct { bytes, kids, comp }
    }
    root_lazy!();
}
impl Remote for Spy2 {
    const INLINE: bool = false;
    fn lazy_check<'a>(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, cx: &mut Cx, w: &mut Walk) {
        let _ = (l, &w);
        cx.count("lazy_structs", 1);
        cx.check(self.a.same(&l.a), "local", || format!("field a: {:.200?}, expected {:.200?}", l.a, self.a));
        cx.check(self.b.same(&l.b), "local", || format!("field b: {:.200?}, expected {:.200?}", l.b, self.b));
    }
    fn poke<'a>(l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, w: &mut Poke) {
        let _ = l;
        if !w.burn() {
            return;
        }
        w.touch(&l.a);
        w.touch(&l.b);
    }
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, parcode::ParcodeObject)]
pub struct SFlat {
    pub s: Spy,
    pub n: u16,
    pub t: String,
}
impl Val for SFlat {
    fn mk(g: &mut G) -> Self {
        g.depth += 1;
        let v = Self { s: <Spy as Val>::mk(g), n: <u16 as Val>::mk(g), t: <String as Val>::mk(g), };
        g.depth -= 1;
        v
    }
    fn same(&self, o: &Self) -> bool {
        let _ = o;
        self.s.same(&o.s) && self.n.same(&o.n) && self.t.same(&o.t)
    }
}
impl Item for SFlat {
    fn local(&self, out: &mut Vec<u8>) {
        let _ = &out;
        bin(&self.s, out);
        bin(&self.n, out);
        bin(&self.t, out);
    }
    fn kids(&self, out: &mut Vec<Shape>) {
        let _ = &out;
    }
    item_lazy!();
}
impl Rooted for SFlat {
    fn shape(&self, comp: u8, _m: bool) -> Shape {
        let (mut bytes, mut kids) = (vec![], vec![]);
        self.local(&mut bytes);
        self.kids(&mut kids);
        Shape::Struct { bytes, kids, comp }
    }
    root_lazy!();
}
impl Remote for SFlat {
    const INLINE: bool = false;
    fn lazy_check<'a>(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, cx: &mut Cx, w: &mut Walk) {
        let _ = (l, &w);
        cx.count("lazy_structs", 1);
        cx.check(self.s.same(&l.s), "local", || format!("field s: {:.200?}, expected {:.200?}", l.s, self.s));
        cx.check(self.n.same(&l.n), "local", || format!("field n: {:.200?}, expected {:.200?}", l.n, self.n));
        cx.check(self.t.same(&l.t), "local", || format!("field t: {:.200?}, expected {:.200?}", l.t, self.t));
    }
    fn poke<'a>(l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, w: &mut Poke) {
        let _ = l;
        if !w.burn() {
            return;
        }
        w.touch(&l.s);
        w.touch(&l.n);
        w.touch(&l.t);
    }
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, parcode::ParcodeObject)]
pub struct SLeaf {
    pub s: Spy,
    #[parcode(chunkable)]
    pub data: Vec<u16>,
}
impl Val for SLeaf {
    fn mk(g: &mut G) -> Self {
        g.depth += 1;
        let v = Self { s: <Spy as Val>::mk(g), data: <Vec<u16> as Val>::mk(g), };
        g.depth -= 1;
        v
    }
    fn same(&self, o: &Self) -> bool {
        let _ = o;
        self.s.same(&o.s) && self.data.same(&o.data)
    }
}
impl Item for SLeaf {
    fn local(&self, out: &mut Vec<u8>) {
        let _ = &out;
        bin(&self.s, out);
    }
    fn kids(&self, out: &mut Vec<Shape>) {
        let _ = &out;
        out.push(self.data.shape(0, false));
    }
    item_lazy!();
}
impl Rooted for SLeaf {
    fn shape(&self, comp: u8, _m: bool) -> Shape {
        let (mut bytes, mut kids) = (vec![], vec![]);
        self.local(&mut bytes);
        self.kids(&mut kids);
        Shape::Struct { bytes, kids, comp }
    }
    root_lazy!();
}
impl Remote for SLeaf {
    const INLINE: bool = false;
    fn lazy_check<'a>(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, cx: &mut Cx, w: &mut Walk) {
        let _ = (l, &w);
        cx.count("lazy_structs", 1);
        cx.check(self.s.same(&l.s), "local", || format!("field s: {:.200?}, expected {:.200?}", l.s, self.s));
        cx.at("data", |cx| self.data.lazy_check(&l.data, false, cx, w));
    }
    fn poke<'a>(l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, w: &mut Poke) {
        let _ = l;
        if !w.burn() {
            return;
        }
        w.touch(&l.s);
        <Vec<u16> as Remote>::poke(&l.data, false, w);
    }
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, parcode::ParcodeObject)]
pub struct SNode {
    pub a: Spy,
    #[parcode(chunkable)]
    pub leaf: SLeaf,
    #[parcode(chunkable)]
    pub leaves: Vec<SLeaf>,
    #[parcode(map)]
    pub m: HashMap<u32, SLeaf>,
    #[parcode(chunkable, compression = "lz4")]
    pub flat: Vec<SFlat>,
    pub z: Option<Spy>,
}
impl Val for SNode {
    fn mk(g: &mut G) -> Self {
        g.depth += 1;
        let v = Self { a: <Spy as Val>::mk(g), leaf: <SLeaf as Val>::mk(g), leaves: <Vec<SLeaf> as Val>::mk(g), m: <HashMap<u32, SLeaf> as Val>::mk(g), flat: <Vec<SFlat> as Val>::mk(g), z: <Option<Spy> as Val>::mk(g), };
        g.depth -= 1;
        v
    }
    fn same(&self, o: &Self) -> bool {
        let _ = o;
        self.a.same(&o.a) && self.leaf.same(&o.leaf) && self.leaves.same(&o.leaves) && self.m.same(&o.m) && self.flat.same(&o.flat) && self.z.same(&o.z)
    }
}
impl Item for SNode {
    fn local(&self, out: &mut Vec<u8>) {
        let _ = &out;
        bin(&self.a, out);
        bin(&self.z, out);
    }
    fn kids(&self, out: &mut Vec<Shape>) {
        let _ = &out;
        out.push(self.leaf.shape(0, false));
        out.push(self.leaves.shape(0, false));
        out.push(self.m.shape(0, true));
        out.push(self.flat.shape(1, false));
    }
    item_lazy!();
}
impl Rooted for SNode {
    fn shape(&self, comp: u8, _m: bool) -> Shape {
        let (mut bytes, mut kids) = (vec![], vec![]);
        self.local(&mut bytes);
        self.kids(&mut kids);
        Shape::Struct { bytes, kids, comp }
    }
    root_lazy!();
}
impl Remote for SNode {
    const INLINE: bool = false;
    fn lazy_check<'a>(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, cx: &mut Cx, w: &mut Walk) {
        let _ = (l, &w);
        cx.count("lazy_structs", 1);
        cx.check(self.a.same(&l.a), "local", || format!("field a: {:.200?}, expected {:.200?}", l.a, self.a));
        cx.check(self.z.same(&l.z), "local", || format!("field z: {:.200?}, expected {:.200?}", l.z, self.z));
        cx.at("leaf", |cx| self.leaf.lazy_check(&l.leaf, false, cx, w));
        cx.at("leaves", |cx| self.leaves.lazy_check(&l.leaves, false, cx, w));
        cx.at("m", |cx| self.m.lazy_check(&l.m, true, cx, w));
        cx.at("flat", |cx| self.flat.lazy_check(&l.flat, false, cx, w));
    }
    fn poke<'a>(l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, w: &mut Poke) {
        let _ = l;
        if !w.burn() {
            return;
        }
        w.touch(&l.a);
        w.touch(&l.z);
        <SLeaf as Remote>::poke(&l.leaf, false, w);
        <Vec<SLeaf> as Remote>::poke(&l.leaves, false, w);
        <HashMap<u32, SLeaf> as Remote>::poke(&l.m, true, w);
        <Vec<SFlat> as Remote>::poke(&l.flat, false, w);
    }
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, parcode::ParcodeObject)]
pub struct STree {
    pub s: Spy,
    #[parcode(chunkable)]
    pub kids: Vec<STree>,
    #[parcode(chunkable)]
    pub one: SFlat,
}
impl Val for STree {
    fn mk(g: &mut G) -> Self {
        g.depth += 1;
        let v = Self { s: <Spy as Val>::mk(g), kids: <Vec<STree> as Val>::mk(g), one: <SFlat as Val>::mk(g), };
        g.depth -= 1;
        v
    }
    fn same(&self, o: &Self) -> bool {
        let _ = o;
        self.s.same(&o.s) && self.kids.same(&o.kids) && self.one.same(&o.one)
    }
}
impl Item for STree {
    fn local(&self, out: &mut Vec<u8>) {
        let _ = &out;
        bin(&self.s, out);
    }
    fn kids(&self, out: &mut Vec<Shape>) {
        let _ = &out;
        out.push(self.kids.shape(0, false));
        out.push(self.one.shape(0, false));
    }
    item_lazy!();
}
impl Rooted for STree {
    fn shape(&self, comp: u8, _m: bool) -> Shape {
        let (mut bytes, mut kids) = (vec![], vec![]);
        self.local(&mut bytes);
        self.kids(&mut kids);
        Shape::Struct { bytes, kids, comp }
    }
    root_lazy!();
}
impl Remote for STree {
    const INLINE: bool = false;
    fn lazy_check<'a>(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, cx: &mut Cx, w: &mut Walk) {
        let _ = (l, &w);
        cx.count("lazy_structs", 1);
        cx.check(self.s.same(&l.s), "local", || format!("field s: {:.200?}, expected {:.200?}", l.s, self.s));
        cx.at("kids", |cx| self.kids.lazy_check(&l.kids, false, cx, w));
        cx.at("one", |cx| self.one.lazy_check(&l.one, false, cx, w));
    }
    fn poke<'a>(l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, w: &mut Poke) {
        let _ = l;
        if !w.burn() {
            return;
        }
        w.touch(&l.s);
        <Vec<STree> as Remote>::poke(&l.kids, false, w);
        <SFlat as Remote>::poke(&l.one, false, w);
    }
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, parcode::ParcodeObject)]
pub struct SHard {
    pub s: Spy,
    #[parcode(chunkable)]
    pub leaf: SLeaf,
    #[parcode(chunkable)]
    pub leaves: Vec<SLeaf>,
    #[parcode(map)]
    pub m: HashMap<u16, SLeaf>,
    #[parcode(chunkable)]
    pub b: HashMap<u8, Spy2>,
    #[parcode(chunkable)]
    pub vv: Vec<Vec<Spy2>>,
    #[parcode(map)]
    pub e: HashMap<CKey, Vec<Spy2>>,
    pub z: Vec<Spy>,
    #[parcode(chunkable, compression = "lz4")]
    pub f: Vec<Spy2>,
}
impl Val for SHard {
    fn mk(g: &mut G) -> Self {
        g.depth += 1;
        let v = Self { s: <Spy as Val>::mk(g), leaf: <SLeaf as Val>::mk(g), leaves: <Vec<SLeaf> as Val>::mk(g), m: <HashMap<u16, SLeaf> as Val>::mk(g), b: <HashMap<u8, Spy2> as Val>::mk(g), vv: <Vec<Vec<Spy2>> as Val>::mk(g), e: <HashMap<CKey, Vec<Spy2>> as Val>::mk(g), z: <Vec<Spy> as Val>::mk(g), f: <Vec<Spy2> as Val>::mk(g), };
        g.depth -= 1;
        v
    }
    fn same(&self, o: &Self) -> bool {
        let _ = o;
        self.s.same(&o.s) && self.leaf.same(&o.leaf) && self.leaves.same(&o.leaves) && self.m.same(&o.m) && self.b.same(&o.b) && self.vv.same(&o.vv) && self.e.same(&o.e) && self.z.same(&o.z) && self.f.same(&o.f)
    }
}
impl Item for SHard {
    fn local(&self, out: &mut Vec<u8>) {
        let _ = &out;
        bin(&self.s, out);
        bin(&self.z, out);
    }
    fn kids(&self, out: &mut Vec<Shape>) {
        let _ = &out;
        out.push(self.leaf.shape(0, false));
        out.push(self.leaves.shape(0, false));
        out.push(self.m.shape(0, true));
        out.push(self.b.shape(0, false));
        out.push(self.vv.shape(0, false));
        out.push(self.e.shape(0, true));
        out.push(self.f.shape(1, false));
    }
    item_lazy!();
}
impl Rooted for SHard {
    fn shape(&self, comp: u8, _m: bool) -> Shape {
        let (mut bytes, mut kids) = (vec![], vec![]);
        self.local(&mut bytes);
        self.kids(&mut kids);
        Shape::Struct { bytes, kids, comp }
    }
    root_lazy!();
}
impl Remote for SHard {
    const INLINE: bool = false;
    fn lazy_check<'a>(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, cx: &mut Cx, w: &mut Walk) {
        let _ = (l, &w);
        cx.count("lazy_structs", 1);
        cx.check(self.s.same(&l.s), "local", || format!("field s: {:.200?}, expected {:.200?}", l.s, self.s));
        cx.check(self.z.same(&l.z), "local", || format!("field z: {:.200?}, expected {:.200?}", l.z, self.z));
        cx.at("leaf", |cx| self.leaf.lazy_check(&l.leaf, false, cx, w));
        cx.at("leaves", |cx| self.leaves.lazy_check(&l.leaves, false, cx, w));
        cx.at("m", |cx| self.m.lazy_check(&l.m, true, cx, w));
        cx.at("b", |cx| self.b.lazy_check(&l.b, false, cx, w));
        cx.at("vv", |cx| self.vv.lazy_check(&l.vv, false, cx, w));
        cx.at("e", |cx| self.e.lazy_check(&l.e, true, cx, w));
        cx.at("f", |cx| self.f.lazy_check(&l.f, false, cx, w));
    }
    fn poke<'a>(l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, w: &mut Poke) {
        let _ = l;
        if !w.burn() {
            return;
        }
        w.touch(&l.s);
        w.touch(&l.z);
        <SLeaf as Remote>::poke(&l.leaf, false, w);
        <Vec<SLeaf> as Remote>::poke(&l.leaves, false, w);
        <HashMap<u16, SLeaf> as Remote>::poke(&l.m, true, w);
        <HashMap<u8, Spy2> as Remote>::poke(&l.b, false, w);
        <Vec<Vec<Spy2>> as Remote>::poke(&l.vv, false, w);
        <HashMap<CKey, Vec<Spy2>> as Remote>::poke(&l.e, true, w);
        <Vec<Spy2> as Remote>::poke(&l.f, false, w);
    }
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, parcode::ParcodeObject)]
pub struct SMaps {
    #[parcode(map)]
    pub a: HashMap<CKey, SFlat>,
    #[parcode(chunkable)]
    pub b: HashMap<u16, SFlat>,
    #[parcode(map)]
    pub c: HashMap<String, Vec<SFlat>>,
    #[parcode(chunkable)]
    pub vv: Vec<Vec<SFlat>>,
    pub v: Vec<Spy>,
}
impl Val for SMaps {
    fn mk(g: &mut G) -> Self {
        g.depth += 1;
        let v = Self { a: <HashMap<CKey, SFlat> as Val>::mk(g), b: <HashMap<u16, SFlat> as Val>::mk(g), c: <HashMap<String, Vec<SFlat>> as Val>::mk(g), vv: <Vec<Vec<SFlat>> as Val>::mk(g), v: <Vec<Spy> as Val>::mk(g), };
        g.depth -= 1;
        v
    }
    fn same(&self, o: &Self) -> bool {
        let _ = o;
        self.a.same(&o.a) && self.b.same(&o.b) && self.c.same(&o.c) && self.vv.same(&o.vv) && self.v.same(&o.v)
    }
}
impl Item for SMaps {
    fn local(&self, out: &mut Vec<u8>) {
        let _ = &out;
        bin(&self.v, out);
    }
    fn kids(&self, out: &mut Vec<Shape>) {
        let _ = &out;
        out.push(self.a.shape(0, true));
        out.push(self.b.shape(0, false));
        out.push(self.c.shape(0, true));
        out.push(self.vv.shape(0, false));
    }
    item_lazy!();
}
impl Rooted for SMaps {
    fn shape(&self, comp: u8, _m: bool) -> Shape {
        let (mut bytes, mut kids) = (vec![], vec![]);
        self.local(&mut bytes);
        self.kids(&mut kids);
        Shape::Struct { bytes, kids, comp }
    }
    root_lazy!();
}
impl Remote for SMaps {
    const INLINE: bool = false;
    fn lazy_check<'a>(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, cx: &mut Cx, w: &mut Walk) {
        let _ = (l, &w);
        cx.count("lazy_structs", 1);
        cx.check(self.v.same(&l.v), "local", || format!("field v: {:.200?}, expected {:.200?}", l.v, self.v));
        cx.at("a", |cx| self.a.lazy_check(&l.a, true, cx, w));
        cx.at("b", |cx| self.b.lazy_check(&l.b, false, cx, w));
        cx.at("c", |cx| self.c.lazy_check(&l.c, true, cx, w));
        cx.at("vv", |cx| self.vv.lazy_check(&l.vv, false, cx, w));
    }
    fn poke<'a>(l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, w: &mut Poke) {
        let _ = l;
        if !w.burn() {
            return;
        }
        w.touch(&l.v);
        <HashMap<CKey, SFlat> as Remote>::poke(&l.a, true, w);
        <HashMap<u16, SFlat> as Remote>::poke(&l.b, false, w);
        <HashMap<String, Vec<SFlat>> as Remote>::poke(&l.c, true, w);
        <Vec<Vec<SFlat>> as Remote>::poke(&l.vv, false, w);
    }
}
pub use crate::zoo::Each;
pub fn each<E: Each>(e: &mut E) {
    e.visit::<SFlat>("SFlat");
    e.visit::<SLeaf>("SLeaf");
    e.visit::<SNode>("SNode");
    e.visit::<STree>("STree");
    e.visit::<SMaps>("SMaps");
    e.visit::<Vec<SFlat>>("Vec<SFlat>");
    e.visit::<Vec<SLeaf>>("Vec<SLeaf>");
    e.visit::<Vec<SNode>>("Vec<SNode>");
    e.visit::<Vec<STree>>("Vec<STree>");
    e.visit::<Vec<SMaps>>("Vec<SMaps>");
    e.visit::<Vec<Vec<SFlat>>>("Vec<Vec<SFlat>>");
    e.visit::<HashMap<u32, SFlat>>("HashMap<u32, SFlat>");
    e.visit::<Vec<Spy2>>("Vec<Spy2>");
    e.visit::<SHard>("SHard");
    e.visit::<Vec<SHard>>("Vec<SHard>");
}
/// Structurally different types only, for monitors that are slow to build or run.
pub fn few<E: Each>(e: &mut E) {
    e.visit::<SLeaf>("SLeaf");
    e.visit::<SHard>("SHard");
    e.visit::<Vec<SFlat>>("Vec<SFlat>");
    e.visit::<Vec<SLeaf>>("Vec<SLeaf>");
    e.visit::<Vec<Spy2>>("Vec<Spy2>");
    e.visit::<HashMap<u32, SFlat>>("HashMap<u32, SFlat>");
}
