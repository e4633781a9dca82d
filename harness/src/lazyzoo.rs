//! Generated by tools/gen_types.py zoo; do not edit.
#![allow(dead_code, unused_imports)]
use pcmon::cx::Cx;
use pcmon::shape::{Shape, bin};
#[allow(unused_imports)]
use pcmon::val::*;
#[allow(unused_imports)]
use pcmon::spy::Spy;
use pcmon::{item_lazy, root_lazy};
#[allow(unused_imports)]
use std::collections::{BTreeMap, HashMap};
use parcode::rt::ParcodeLazyRef;
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, parcode::ParcodeObject)]
pub struct Rec {
    pub id: u64,
    pub name: String,
    pub tags: Vec<u16>,
}
impl Val for Rec {
    fn mk(g: &mut G) -> Self {
        g.depth += 1;
        let v = Self { id: <u64 as Val>::mk(g), name: <String as Val>::mk(g), tags: <Vec<u16> as Val>::mk(g), };
        g.depth -= 1;
        v
    }
    fn same(&self, o: &Self) -> bool {
        let _ = o;
        self.id.same(&o.id) && self.name.same(&o.name) && self.tags.same(&o.tags)
    }
}
impl Item for Rec {
    fn local(&self, out: &mut Vec<u8>) {
        let _ = &out;
        bin(&self.id, out);
        bin(&self.name, out);
        bin(&self.tags, out);
    }
    fn kids(&self, out: &mut Vec<Shape>) {
        let _ = &out;
    }
    item_lazy!();
}
impl Rooted for Rec {
    fn shape(&self, comp: u8, _m: bool) -> Shape {
        let (mut bytes, mut kids) = (vec![], vec![]);
        self.local(&mut bytes);
        self.kids(&mut kids);
        Shape::Struct { bytes, kids, comp }
    }
    root_lazy!();
}
impl Remote for Rec {
    const INLINE: bool = false;
    fn lazy_check<'a>(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, cx: &mut Cx, w: &mut Walk) {
        let _ = (l, &w);
        cx.count("lazy_structs", 1);
        cx.check(self.id.same(&l.id), "local", || format!("field id: {:.200?}, expected {:.200?}", l.id, self.id));
        cx.check(self.name.same(&l.name), "local", || format!("field name: {:.200?}, expected {:.200?}", l.name, self.name));
        cx.check(self.tags.same(&l.tags), "local", || format!("field tags: {:.200?}, expected {:.200?}", l.tags, self.tags));
    }
    fn poke<'a>(l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, w: &mut Poke) {
        let _ = l;
        if !w.burn() {
            return;
        }
        w.touch(&l.id);
        w.touch(&l.name);
        w.touch(&l.tags);
    }
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, parcode::ParcodeObject)]
pub struct Inner {
    pub a: u32,
    #[parcode(chunkable)]
    pub big: Vec<u64>,
    pub s: String,
    #[parcode(chunkable)]
    pub text: String,
    #[parcode(map)]
    pub m: HashMap<u32, String>,
    #[parcode(chunkable, compression = "lz4")]
    pub packed: Vec<u64>,
}
impl Val for Inner {
    fn mk(g: &mut G) -> Self {
        g.depth += 1;
        let v = Self { a: <u32 as Val>::mk(g), big: <Vec<u64> as Val>::mk(g), s: <String as Val>::mk(g), text: <String as Val>::mk(g), m: <HashMap<u32, String> as Val>::mk(g), packed: <Vec<u64> as Val>::mk(g), };
        g.depth -= 1;
        v
    }
    fn same(&self, o: &Self) -> bool {
        let _ = o;
        self.a.same(&o.a) && self.big.same(&o.big) && self.s.same(&o.s) && self.text.same(&o.text) && self.m.same(&o.m) && self.packed.same(&o.packed)
    }
}
impl Item for Inner {
    fn local(&self, out: &mut Vec<u8>) {
        let _ = &out;
        bin(&self.a, out);
        bin(&self.s, out);
    }
    fn kids(&self, out: &mut Vec<Shape>) {
        let _ = &out;
        out.push(self.big.shape(0, false));
        out.push(self.text.shape(0, false));
        out.push(self.m.shape(0, true));
        out.push(self.packed.shape(1, false));
    }
    item_lazy!();
}
impl Rooted for Inner {
    fn shape(&self, comp: u8, _m: bool) -> Shape {
        let (mut bytes, mut kids) = (vec![], vec![]);
        self.local(&mut bytes);
        self.kids(&mut kids);
        Shape::Struct { bytes, kids, comp }
    }
    root_lazy!();
}
impl Remote for Inner {
    const INLINE: bool = false;
    fn lazy_check<'a>(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, cx: &mut Cx, w: &mut Walk) {
        let _ = (l, &w);
        cx.count("lazy_structs", 1);
        cx.check(self.a.same(&l.a), "local", || format!("field a: {:.200?}, expected {:.200?}", l.a, self.a));
        cx.check(self.s.same(&l.s), "local", || format!("field s: {:.200?}, expected {:.200?}", l.s, self.s));
        cx.at("big", |cx| self.big.lazy_check(&l.big, false, cx, w));
        cx.at("text", |cx| self.text.lazy_check(&l.text, false, cx, w));
        cx.at("m", |cx| self.m.lazy_check(&l.m, true, cx, w));
        cx.at("packed", |cx| self.packed.lazy_check(&l.packed, false, cx, w));
    }
    fn poke<'a>(l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, w: &mut Poke) {
        let _ = l;
        if !w.burn() {
            return;
        }
        w.touch(&l.a);
        w.touch(&l.s);
        <Vec<u64> as Remote>::poke(&l.big, false, w);
        <String as Remote>::poke(&l.text, false, w);
        <HashMap<u32, String> as Remote>::poke(&l.m, true, w);
        <Vec<u64> as Remote>::poke(&l.packed, false, w);
    }
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, parcode::ParcodeObject)]
pub struct Sub {
    pub n: u32,
    #[parcode(chunkable)]
    pub data: Vec<u8>,
    #[parcode(chunkable)]
    pub inner: Inner,
    pub label: String,
    #[parcode(chunkable)]
    pub note: String,
    #[parcode(chunkable)]
    pub tail: Vec<u32>,
}
impl Val for Sub {
    fn mk(g: &mut G) -> Self {
        g.depth += 1;
        let v = Self { n: <u32 as Val>::mk(g), data: <Vec<u8> as Val>::mk(g), inner: <Inner as Val>::mk(g), label: <String as Val>::mk(g), note: <String as Val>::mk(g), tail: <Vec<u32> as Val>::mk(g), };
        g.depth -= 1;
        v
    }
    fn same(&self, o: &Self) -> bool {
        let _ = o;
        self.n.same(&o.n) && self.data.same(&o.data) && self.inner.same(&o.inner) && self.label.same(&o.label) && self.note.same(&o.note) && self.tail.same(&o.tail)
    }
}
impl Item for Sub {
    fn local(&self, out: &mut Vec<u8>) {
        let _ = &out;
        bin(&self.n, out);
        bin(&self.label, out);
    }
    fn kids(&self, out: &mut Vec<Shape>) {
        let _ = &out;
        out.push(self.data.shape(0, false));
        out.push(self.inner.shape(0, false));
        out.push(self.note.shape(0, false));
        out.push(self.tail.shape(0, false));
    }
    item_lazy!();
}
impl Rooted for Sub {
    fn shape(&self, comp: u8, _m: bool) -> Shape {
        let (mut bytes, mut kids) = (vec![], vec![]);
        self.local(&mut bytes);
        self.kids(&mut kids);
        Shape::Struct { bytes, kids, comp }
    }
    root_lazy!();
}
impl Remote for Sub {
    const INLINE: bool = false;
    fn lazy_check<'a>(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, cx: &mut Cx, w: &mut Walk) {
        let _ = (l, &w);
        cx.count("lazy_structs", 1);
        cx.check(self.n.same(&l.n), "local", || format!("field n: {:.200?}, expected {:.200?}", l.n, self.n));
        cx.check(self.label.same(&l.label), "local", || format!("field label: {:.200?}, expected {:.200?}", l.label, self.label));
        cx.at("data", |cx| self.data.lazy_check(&l.data, false, cx, w));
        cx.at("inner", |cx| self.inner.lazy_check(&l.inner, false, cx, w));
        cx.at("note", |cx| self.note.lazy_check(&l.note, false, cx, w));
        cx.at("tail", |cx| self.tail.lazy_check(&l.tail, false, cx, w));
    }
    fn poke<'a>(l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, w: &mut Poke) {
        let _ = l;
        if !w.burn() {
            return;
        }
        w.touch(&l.n);
        w.touch(&l.label);
        <Vec<u8> as Remote>::poke(&l.data, false, w);
        <Inner as Remote>::poke(&l.inner, false, w);
        <String as Remote>::poke(&l.note, false, w);
        <Vec<u32> as Remote>::poke(&l.tail, false, w);
    }
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, parcode::ParcodeObject)]
pub struct Doc {
    pub id: u64,
    #[parcode(chunkable)]
    pub bytes: Vec<u8>,
    #[parcode(chunkable)]
    pub recs: Vec<Rec>,
    #[parcode(chunkable)]
    pub text: String,
    #[parcode(chunkable)]
    pub inner: Inner,
    pub title: String,
    #[parcode(map)]
    pub people: HashMap<u64, Rec>,
    #[parcode(map)]
    pub subs_by: HashMap<String, Sub>,
    #[parcode(chunkable)]
    pub subs: Vec<Sub>,
    #[parcode(chunkable)]
    pub plain: HashMap<u32, u32>,
    #[parcode(chunkable)]
    pub num: u64,
    #[parcode(chunkable, compression = "lz4")]
    pub packed: Vec<String>,
    #[parcode(chunkable)]
    pub rec: Rec,
}
impl Val for Doc {
    fn mk(g: &mut G) -> Self {
        g.depth += 1;
        let v = Self { id: <u64 as Val>::mk(g), bytes: <Vec<u8> as Val>::mk(g), recs: <Vec<Rec> as Val>::mk(g), text: <String as Val>::mk(g), inner: <Inner as Val>::mk(g), title: <String as Val>::mk(g), people: <HashMap<u64, Rec> as Val>::mk(g), subs_by: <HashMap<String, Sub> as Val>::mk(g), subs: <Vec<Sub> as Val>::mk(g), plain: <HashMap<u32, u32> as Val>::mk(g), num: <u64 as Val>::mk(g), packed: <Vec<String> as Val>::mk(g), rec: <Rec as Val>::mk(g), };
        g.depth -= 1;
        v
    }
    fn same(&self, o: &Self) -> bool {
        let _ = o;
        self.id.same(&o.id) && self.bytes.same(&o.bytes) && self.recs.same(&o.recs) && self.text.same(&o.text) && self.inner.same(&o.inner) && self.title.same(&o.title) && self.people.same(&o.people) && self.subs_by.same(&o.subs_by) && self.subs.same(&o.subs) && self.plain.same(&o.plain) && self.num.same(&o.num) && self.packed.same(&o.packed) && self.rec.same(&o.rec)
    }
}
impl Item for Doc {
    fn local(&self, out: &mut Vec<u8>) {
        let _ = &out;
        bin(&self.id, out);
        bin(&self.title, out);
    }
    fn kids(&self, out: &mut Vec<Shape>) {
        let _ = &out;
        out.push(self.bytes.shape(0, false));
        out.push(self.recs.shape(0, false));
        out.push(self.text.shape(0, false));
        out.push(self.inner.shape(0, false));
        out.push(self.people.shape(0, true));
        out.push(self.subs_by.shape(0, true));
        out.push(self.subs.shape(0, false));
        out.push(self.plain.shape(0, false));
        out.push(self.num.shape(0, false));
        out.push(self.packed.shape(1, false));
        out.push(self.rec.shape(0, false));
    }
    item_lazy!();
}
impl Rooted for Doc {
    fn shape(&self, comp: u8, _m: bool) -> Shape {
        let (mut bytes, mut kids) = (vec![], vec![]);
        self.local(&mut bytes);
        self.kids(&mut kids);
        Shape::Struct { bytes, kids, comp }
    }
    root_lazy!();
}
impl Remote for Doc {
    const INLINE: bool = false;
    fn lazy_check<'a>(&self, l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, cx: &mut Cx, w: &mut Walk) {
        let _ = (l, &w);
        cx.count("lazy_structs", 1);
        cx.check(self.id.same(&l.id), "local", || format!("field id: {:.200?}, expected {:.200?}", l.id, self.id));
        cx.check(self.title.same(&l.title), "local", || format!("field title: {:.200?}, expected {:.200?}", l.title, self.title));
        cx.at("bytes", |cx| self.bytes.lazy_check(&l.bytes, false, cx, w));
        cx.at("recs", |cx| self.recs.lazy_check(&l.recs, false, cx, w));
        cx.at("text", |cx| self.text.lazy_check(&l.text, false, cx, w));
        cx.at("inner", |cx| self.inner.lazy_check(&l.inner, false, cx, w));
        cx.at("people", |cx| self.people.lazy_check(&l.people, true, cx, w));
        cx.at("subs_by", |cx| self.subs_by.lazy_check(&l.subs_by, true, cx, w));
        cx.at("subs", |cx| self.subs.lazy_check(&l.subs, false, cx, w));
        cx.at("plain", |cx| self.plain.lazy_check(&l.plain, false, cx, w));
        cx.at("num", |cx| self.num.lazy_check(&l.num, false, cx, w));
        cx.at("packed", |cx| self.packed.lazy_check(&l.packed, false, cx, w));
        cx.at("rec", |cx| self.rec.lazy_check(&l.rec, false, cx, w));
    }
    fn poke<'a>(l: &<Self as ParcodeLazyRef<'a>>::Lazy, _m: bool, w: &mut Poke) {
        let _ = l;
        if !w.burn() {
            return;
        }
        w.touch(&l.id);
        w.touch(&l.title);
        <Vec<u8> as Remote>::poke(&l.bytes, false, w);
        <Vec<Rec> as Remote>::poke(&l.recs, false, w);
        <String as Remote>::poke(&l.text, false, w);
        <Inner as Remote>::poke(&l.inner, false, w);
        <HashMap<u64, Rec> as Remote>::poke(&l.people, true, w);
        <HashMap<String, Sub> as Remote>::poke(&l.subs_by, true, w);
        <Vec<Sub> as Remote>::poke(&l.subs, false, w);
        <HashMap<u32, u32> as Remote>::poke(&l.plain, false, w);
        <u64 as Remote>::poke(&l.num, false, w);
        <Vec<String> as Remote>::poke(&l.packed, false, w);
        <Rec as Remote>::poke(&l.rec, false, w);
    }
}
