//! C25: serde, Default, From and constructors of the containers.
use futures_signals::signal::*;
use futures_signals::signal_map::*;
use futures_signals::signal_vec::*;
use mc::conc::{Sg, Sm, Sv};
use mc::model::*;
use mc::src::*;
use mc::*;
use serde::de::{DeserializeOwned, Deserializer, Visitor};
use serde::ser::{self, Serialize, Serializer};
use serde::Deserialize;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::rc::Rc;

// ------------------------------------------------------------ recording (de)serializers

type E = serde::de::value::Error;
/// Records every call of the data model.
#[derive(Clone)]
struct Rec(Rc<RefCell<Vec<String>>>);
impl Rec { fn put(&self, s: impl Into<String>) -> Result<(), E> { self.0.borrow_mut().push(s.into()); Ok(()) } }
fn tokens<T: Serialize + ?Sized>(t: &T) -> (Vec<String>, Result<(), String>) {
    let r = Rec(Default::default());
    let e = t.serialize(r.clone()).map_err(|e| e.to_string());
    let v = r.0.borrow().clone();
    (v, e)
}
macro_rules! scalars { ($($f:ident($t:ty))*) => { $(fn $f(self, v: $t) -> Result<(), E> { self.put(format!("{}({:?})", stringify!($f), v)) })* } }
impl Serializer for Rec {
    type Ok = (); type Error = E;
    type SerializeSeq = Rec; type SerializeTuple = Rec; type SerializeTupleStruct = Rec; type SerializeTupleVariant = Rec; type SerializeMap = Rec; type SerializeStruct = Rec; type SerializeStructVariant = Rec;
    scalars!(serialize_bool(bool) serialize_i8(i8) serialize_i16(i16) serialize_i32(i32) serialize_i64(i64) serialize_u8(u8) serialize_u16(u16) serialize_u32(u32) serialize_u64(u64)
        serialize_f32(f32) serialize_f64(f64) serialize_char(char) serialize_str(&str) serialize_bytes(&[u8]) serialize_unit_struct(&'static str));
    fn serialize_none(self) -> Result<(), E> { self.put("none") }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<(), E> { self.put("some")?; v.serialize(self) }
    fn serialize_unit(self) -> Result<(), E> { self.put("unit") }
    fn serialize_unit_variant(self, n: &'static str, i: u32, v: &'static str) -> Result<(), E> { self.put(format!("unit_variant({} {} {})", n, i, v)) }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, n: &'static str, v: &T) -> Result<(), E> { self.put(format!("newtype_struct({})", n))?; v.serialize(self) }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, n: &'static str, i: u32, k: &'static str, v: &T) -> Result<(), E> { self.put(format!("newtype_variant({} {} {})", n, i, k))?; v.serialize(self) }
    fn serialize_seq(self, n: Option<usize>) -> Result<Rec, E> { self.put(format!("seq({:?})", n))?; Ok(self) }
    fn serialize_tuple(self, n: usize) -> Result<Rec, E> { self.put(format!("tuple({})", n))?; Ok(self) }
    fn serialize_tuple_struct(self, k: &'static str, n: usize) -> Result<Rec, E> { self.put(format!("tuple_struct({} {})", k, n))?; Ok(self) }
    fn serialize_tuple_variant(self, a: &'static str, _: u32, k: &'static str, n: usize) -> Result<Rec, E> { self.put(format!("tuple_variant({} {} {})", a, k, n))?; Ok(self) }
    fn serialize_map(self, n: Option<usize>) -> Result<Rec, E> { self.put(format!("map({:?})", n))?; Ok(self) }
    fn serialize_struct(self, k: &'static str, n: usize) -> Result<Rec, E> { self.put(format!("struct({} {})", k, n))?; Ok(self) }
    fn serialize_struct_variant(self, a: &'static str, _: u32, k: &'static str, n: usize) -> Result<Rec, E> { self.put(format!("struct_variant({} {} {})", a, k, n))?; Ok(self) }
}
macro_rules! compound { ($($t:ident $f:ident)*) => { $(impl ser::$t for Rec { type Ok = (); type Error = E; fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { self.put("element")?; v.serialize(self.clone()) } fn end(self) -> Result<(), E> { self.put("end") } })* } }
compound!(SerializeSeq serialize_element SerializeTuple serialize_element SerializeTupleStruct serialize_field SerializeTupleVariant serialize_field);
impl ser::SerializeMap for Rec {
    type Ok = (); type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { self.put("key")?; v.serialize(self.clone()) }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { self.put("value")?; v.serialize(self.clone()) }
    fn end(self) -> Result<(), E> { self.put("end") }
}
macro_rules! fields { ($($t:ident)*) => { $(impl ser::$t for Rec { type Ok = (); type Error = E; fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), E> { self.put(format!("field {}", k))?; v.serialize(self.clone()) } fn end(self) -> Result<(), E> { self.put("end") } })* } }
fields!(SerializeStruct SerializeStructVariant);

/// Fails, saying what was asked for.
struct Asks;
macro_rules! asks { ($($f:ident)*) => { $(fn $f<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> { Err(serde::de::Error::custom(stringify!($f))) })* } }
impl<'de> Deserializer<'de> for Asks {
    type Error = E;
    asks!(deserialize_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_f32 deserialize_f64
        deserialize_char deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf deserialize_option deserialize_unit deserialize_seq deserialize_map deserialize_identifier deserialize_ignored_any);
    fn deserialize_unit_struct<V: Visitor<'de>>(self, n: &'static str, _: V) -> Result<V::Value, E> { Err(serde::de::Error::custom(format!("unit_struct {}", n))) }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, n: &'static str, _: V) -> Result<V::Value, E> { Err(serde::de::Error::custom(format!("newtype_struct {}", n))) }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, _: V) -> Result<V::Value, E> { Err(serde::de::Error::custom(format!("tuple {}", n))) }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, k: &'static str, n: usize, _: V) -> Result<V::Value, E> { Err(serde::de::Error::custom(format!("tuple_struct {} {}", k, n))) }
    fn deserialize_struct<V: Visitor<'de>>(self, k: &'static str, f: &'static [&'static str], _: V) -> Result<V::Value, E> { Err(serde::de::Error::custom(format!("struct {} {:?}", k, f))) }
    fn deserialize_enum<V: Visitor<'de>>(self, k: &'static str, f: &'static [&'static str], _: V) -> Result<V::Value, E> { Err(serde::de::Error::custom(format!("enum {} {:?}", k, f))) }
}

// ------------------------------------------------------------ elements

trait Elem: Serialize + DeserializeOwned + Clone + PartialEq + Debug + 'static { fn make(n: usize) -> Self; const KINDS: usize; }
impl Elem for u8 { fn make(n: usize) -> u8 { n as u8 } const KINDS: usize = 2; }
impl Elem for Option<u8> { fn make(n: usize) -> Self { [None, Some(1)][n] } const KINDS: usize = 2; }
impl Elem for String { fn make(n: usize) -> Self { ["", "a\"b"][n].into() } const KINDS: usize = 2; }
impl Elem for Vec<u8> { fn make(n: usize) -> Self { (0..n as u8 * 2).collect() } const KINDS: usize = 2; }
impl Elem for () { fn make(_: usize) -> Self {} const KINDS: usize = 1; }
/// 1 cannot be serialized, 2 cannot be deserialized
#[derive(Clone, PartialEq, Debug)]
struct Bad(u8);
impl Serialize for Bad { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { if self.0 == 1 { Err(ser::Error::custom("bad")) } else { self.0.serialize(s) } } }
impl<'de> Deserialize<'de> for Bad { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Bad, D::Error> { let v = u8::deserialize(d)?; if v == 2 { Err(serde::de::Error::custom("bad")) } else { Ok(Bad(v)) } } }
impl Elem for Bad { fn make(n: usize) -> Self { Bad(n as u8) } const KINDS: usize = 3; }

// ------------------------------------------------------------ containers

trait Case: 'static {
    type C: Serialize + DeserializeOwned + Default + Debug;
    type P: Serialize + DeserializeOwned + PartialEq + Debug + Clone + Default;
    fn make(p: P<Self>) -> Vec<Self::C>;
    fn ops(p: &P<Self>) -> usize;
    fn op(c: &Self::C, p: &mut P<Self>, n: usize);
    fn contents(c: &Self::C) -> P<Self>;
    /// how read-only views print
    fn views(_: &Self::C) -> Vec<String> { vec![] }
    /// drains a new subscriber with every call
    fn subscribe(c: &Self::C) -> Box<dyn FnMut() -> (P<Self>, usize)>;
}
type P<X> = <X as Case>::P;

struct Cell1<T>(T);
impl<T: Elem + Default> Case for Cell1<T> {
    type C = Mutable<T>;
    type P = T;
    fn make(p: T) -> Vec<Mutable<T>> { vec![Mutable::new(p.clone()), Mutable::from(p.clone()), p.into()] }
    fn ops(_: &T) -> usize { T::KINDS }
    fn op(c: &Self::C, p: &mut T, n: usize) { *p = T::make(n); c.set(p.clone()) }
    fn contents(c: &Self::C) -> T { c.get_cloned() }
    fn views(c: &Self::C) -> Vec<String> { vec![format!("{:?}", c.read_only()), format!("{:?}", c.lock_ref()), format!("{:?}", c.lock_mut())] }
    fn subscribe(c: &Self::C) -> Box<dyn FnMut() -> (T, usize)> {
        let mut e = Exec::new(Sg(c.signal_cloned()));
        let mut last = (None, 0);
        Box::new(move || { while e.force(&mut |v| { last.0 = Some(v); last.1 += 1 }) == Step::Item {} (last.0.clone().unwrap(), last.1) })
    }
}
struct List<T>(T);
impl<T: Elem> Case for List<T> {
    type C = MutableVec<T>;
    type P = Vec<T>;
    fn make(p: Vec<T>) -> Vec<MutableVec<T>> {
        let mut o = vec![MutableVec::new_with_values(p.clone()), MutableVec::from(p.clone()), MutableVec::from(&p[..]), p.clone().into_boxed_slice().into()];
        if p.is_empty() { o.extend([MutableVec::new(), MutableVec::with_capacity(3), MutableVec::with_capacity(0)]); }
        if let [a, b] = &p[..] { o.push([a.clone(), b.clone()].into()); }
        o
    }
    fn ops(p: &Vec<T>) -> usize { 2 * T::KINDS + !p.is_empty() as usize * 2 }
    fn op(c: &Self::C, p: &mut Vec<T>, n: usize) {
        let mut l = c.lock_mut();
        if n < T::KINDS { p.push(T::make(n)); l.push_cloned(T::make(n)) }
        else if n < 2 * T::KINDS { let k = n - T::KINDS; p.insert(0, T::make(k)); l.insert_cloned(0, T::make(k)) }
        else if n == 2 * T::KINDS { p.pop(); l.pop(); }
        else { p.clear(); l.clear() }
    }
    fn contents(c: &Self::C) -> Vec<T> { c.lock_ref().to_vec() }
    fn subscribe(c: &Self::C) -> Box<dyn FnMut() -> (Vec<T>, usize)> {
        let mut e = Exec::new(Sv(c.signal_vec_cloned()));
        let mut m: (Vec<T>, usize) = (vec![], 0);
        Box::new(move || { while e.force(&mut |d| { m.1 += 1; apply(&mut m.0, d) }) == Step::Item {} m.clone() })
    }
}
struct Dict<K, T>(K, T);
impl<K: Elem + Ord, T: Elem> Case for Dict<K, T> {
    type C = MutableBTreeMap<K, T>;
    type P = BTreeMap<K, T>;
    fn make(p: BTreeMap<K, T>) -> Vec<MutableBTreeMap<K, T>> {
        let mut o = vec![MutableBTreeMap::with_values(p.clone()), MutableBTreeMap::from(p.clone()), p.clone().into()];
        if p.is_empty() { o.push(MutableBTreeMap::new()) }
        if p.len() == 2 { let mut i = p.clone().into_iter(); let (a, b) = (i.next().unwrap(), i.next().unwrap()); o.push([b, a].into()) }
        o
    }
    fn ops(p: &BTreeMap<K, T>) -> usize { K::KINDS * (T::KINDS + 1) + !p.is_empty() as usize }
    fn op(c: &Self::C, p: &mut BTreeMap<K, T>, n: usize) {
        let mut l = c.lock_mut();
        if n == K::KINDS * (T::KINDS + 1) { p.clear(); l.clear(); return; }
        let (k, t) = (K::make(n % K::KINDS), n / K::KINDS);
        if t < T::KINDS { p.insert(k.clone(), T::make(t)); l.insert_cloned(k, T::make(t)); }
        else { p.remove(&k); l.remove(&k); }
    }
    fn contents(c: &Self::C) -> BTreeMap<K, T> { c.lock_ref().iter().map(|(k, v)| (k.clone(), v.clone())).collect() }
    fn subscribe(c: &Self::C) -> Box<dyn FnMut() -> (BTreeMap<K, T>, usize)> {
        let mut e = Exec::new(Sm(c.signal_map_cloned()));
        let mut m: (BTreeMap<K, T>, usize) = (BTreeMap::new(), 0);
        Box::new(move || { while e.force(&mut |d| { m.1 += 1; apply_map(&mut m.0, d) }) == Step::Item {} m.clone() })
    }
}

// ------------------------------------------------------------ checks

fn examine<X: Case>(c: &X::C, p: &X::P) {
    let mut sub = X::subscribe(c);
    let before = sub();
    assert_eq!(before.0, *p, "contents seen by a subscriber");
    assert_eq!(X::contents(c), *p, "contents");
    let (t, u) = (tokens(c), tokens(p));
    assert_eq!(t, u, "the container does not serialize to what its contents serialize to");
    let (js, pj) = (serde_json::to_string(c).map_err(|e| e.to_string()), serde_json::to_string(p).map_err(|e| e.to_string()));
    assert_eq!(js, pj, "the container does not serialize to the JSON of its contents");
    let (shown, plain) = (format!("{:?}", c), format!("{:?}", p));
    assert!(shown.contains(&plain), "the container prints as {}, its contents as {}", shown, plain);
    for shown in X::views(c) { assert!(shown.contains(&plain), "a read-only view prints as {}, the contents as {}", shown, plain); }
    assert_eq!(X::contents(c), *p, "contents after serialization and printing");
    assert_eq!(sub().1, before.1, "serialization or printing notifies subscribers");
    let js = match js { Ok(j) => j, Err(_) => return };
    note(|| format!("serialized: {}", js));
    let (dc, dp) = (serde_json::from_str::<X::C>(&js), serde_json::from_str::<X::P>(&js));
    let (dc, dp) = match (dc, dp) { (Ok(a), Ok(b)) => (a, b), (Err(a), Err(b)) => { assert_eq!(a.to_string(), b.to_string()); return } (a, b) => panic!("deserialization: the container is {:?}, the contents are {:?}", a.map(|_| ()), b.map(|_| ())) };
    assert_eq!(dp, *p, "harness: the contents do not round-trip");
    assert_eq!(X::contents(&dc), *p, "contents after deserialization");
    // independent and live
    let mut dsub = X::subscribe(&dc);
    assert_eq!(dsub().0, *p, "contents seen by a subscriber of the deserialized container");
    let mut q = p.clone();
    X::op(&dc, &mut q, 0);
    assert_eq!((X::contents(&dc), dsub().0), (q.clone(), q.clone()), "the deserialized container after a change");
    assert_eq!(X::contents(c), *p, "the original changes with the deserialized container");
    assert_eq!(sub().1, before.1, "subscribers of the original get a change of the deserialized container");
    state(&js);
}
fn history<X: Case>(depth: usize) {
    let mut p = X::P::default();
    let made = X::make(p.clone());
    let k = choose(made.len() + 1);
    let mut c = if k == 0 { X::C::default() } else { made.into_iter().nth(k - 1).unwrap() };
    examine::<X>(&c, &p);
    for _ in 0..depth {
        let n = choose(X::ops(&p) + 2);
        match n {
            0 => break,
            1 => { // through another constructor
                let made = X::make(p.clone());
                let k = choose(made.len());
                note(|| format!("constructor {}", k));
                c = made.into_iter().nth(k).unwrap();
            }
            _ => { note(|| format!("operation {}", n - 2)); X::op(&c, &mut p, n - 2) }
        }
    }
    examine::<X>(&c, &p);
    outcome(&tokens(&p).0);
}
/// All texts over an alphabet of tokens.
fn parse_all<X: Case>(len: usize, alphabet: &[&str]) {
    let mut s = String::new();
    for _ in 0..len { let c = choose(alphabet.len() + 1); if c == 0 { break; } s.push_str(alphabet[c - 1]); }
    parse::<X>(&s);
}
fn parse<X: Case>(s: &str) {
    note(|| format!("text {}", s));
    let (c, p) = (serde_json::from_str::<X::C>(s), serde_json::from_str::<X::P>(s));
    match (c, p) {
        (Ok(c), Ok(p)) => { assert_eq!(X::contents(&c), p, "contents after deserialization"); state(&tokens(&p).0); outcome(&tokens(&p).0); }
        (Err(a), Err(b)) => { assert_eq!(a.to_string(), b.to_string(), "errors"); outcome(&a.to_string()); }
        (c, p) => panic!("deserialization of {}: the container {}, its contents {}", s, ok(c.is_ok()), ok(p.is_ok())),
    }
    let ask = |e: Result<(), E>| e.unwrap_err().to_string();
    assert_eq!(ask(X::C::deserialize(Asks).map(|_| ())), ask(X::P::deserialize(Asks).map(|_| ())), "what is asked of the deserializer");
}
fn ok(b: bool) -> &'static str { if b { "succeeds" } else { "fails" } }
/// Longer texts: a list or map of up to `n` entries.
fn parse_shaped<X: Case>(n: usize, elems: &[&str], keys: &[&str]) {
    let map = flip();
    let k = choose(n + 1);
    let mut parts = vec![];
    for _ in 0..k { let e = pick(elems); parts.push(if map { format!("{}:{}", pick(keys), e) } else { e.to_string() }); }
    let (a, b) = if map { ("{", "}") } else { ("[", "]") };
    let b = pick(&[b, "", ",", "1"]);
    parse::<X>(&format!("{}{}{}", a, parts.join(","), b));
}

/// Containers in containers.
fn nested(n: usize) {
    let mut plain: BTreeMap<u8, Vec<Option<u8>>> = BTreeMap::new();
    let c: MutableBTreeMap<u8, MutableVec<Mutable<Option<u8>>>> = MutableBTreeMap::new();
    for k in 0..choose(n + 1) as u8 {
        let v: Vec<Option<u8>> = (0..choose(n)).map(|i| if flip() { Some(i as u8) } else { None }).collect();
        c.lock_mut().insert_cloned(k, MutableVec::from(v.iter().map(|x| Mutable::new(*x)).collect::<Vec<_>>()));
        plain.insert(k, v);
    }
    assert_eq!(tokens(&c), tokens(&plain), "nested containers");
    let js = serde_json::to_string(&plain).unwrap();
    note(|| js.clone());
    let d: MutableBTreeMap<u8, MutableVec<Mutable<Option<u8>>>> = serde_json::from_str(&js).expect("nested containers do not deserialize");
    assert_eq!(tokens(&d), tokens(&plain), "nested containers after deserialization");
    outcome(&js);
}

impl Elem for u32 { const KINDS: usize = 2; fn make(n: usize) -> u32 { n as u32 + 1_000_000 } }
/// Long contents: every length up to 70, and around powers of two.
fn sized(most: usize) {
    let around: Vec<usize> = (6..17).map(|k| 1usize << k).filter(|n| *n <= most).collect();
    let n = match choose(2) { 0 => choose(71), _ => pick(&around) + choose(3) - 1 };
    let list: Vec<u32> = (0..n as u32).collect();
    let map: BTreeMap<u32, u32> = (0..n as u32).map(|k| (k, n as u32 - k)).collect();
    match choose(5) {
        0 => examine::<List<u32>>(&MutableVec::new_with_values(list.clone()), &list),
        1 => examine::<Dict<u32, u32>>(&MutableBTreeMap::with_values(map.clone()), &map),
        2 => examine::<Cell1<Vec<u8>>>(&Mutable::new(vec![7; n]), &vec![7; n]),
        // one bad entry at the end, or none
        3 => parse::<List<u32>>(&format!("[{}{}]", list.iter().map(|x| format!("{},", x)).collect::<String>(), pick(&["1", "-1", "null"]))),
        _ => parse::<Dict<u32, u32>>(&format!("{{{}\"5\":{}}}", list.iter().map(|x| format!("\"{}\":{},", x, x)).collect::<String>(), pick(&["1", "-1", "null"]))),
    }
    outcome(&n);
}

const ALPHABET: &[&str] = &["[", "]", "{", "}", ",", ":", "1", "300", "\"a\"", "\"1\"", "null", " "];
const ELEMS: &[&str] = &["0", "1", "2", "-1", "256", "null", "\"a\"", "[]", "[1]", "{}"];
const KEYS: &[&str] = &["\"a\"", "\"b\"", "\"1\"", "2", "\"\""];

fn case<X: Case>(js: &mut Vec<Job>, t: Tier, name: &str, depth: usize) {
    js.push(seq(format!("{}: histories, depth {}", name, depth), move || history::<X>(depth)));
    let n = t.pick(6, 7);
    js.push(seq(format!("{}: all texts of up to {} tokens", name, n), move || parse_all::<X>(n, ALPHABET)));
    let n = 3;
    js.push(seq(format!("{}: all lists and maps of up to {} entries", name, n), move || parse_shaped::<X>(n, ELEMS, KEYS)));
}
fn jobs(t: Tier) -> Vec<Job> {
    let mut js = vec![];
    case::<Cell1<u8>>(&mut js, t, "Mutable<u8>", 3);
    case::<Cell1<Option<u8>>>(&mut js, t, "Mutable<Option<u8>>", 3);
    case::<Cell1<String>>(&mut js, t, "Mutable<String>", 3);
    case::<Cell1<Vec<u8>>>(&mut js, t, "Mutable<Vec<u8>>", 3);
    case::<Cell1<()>>(&mut js, t, "Mutable<()>", 3);
    case::<List<u8>>(&mut js, t, "MutableVec<u8>", t.pick(4, 5));
    case::<List<Option<u8>>>(&mut js, t, "MutableVec<Option<u8>>", t.pick(4, 5));
    case::<List<String>>(&mut js, t, "MutableVec<String>", t.pick(3, 5));
    case::<List<Vec<u8>>>(&mut js, t, "MutableVec<Vec<u8>>", t.pick(3, 4));
    case::<List<()>>(&mut js, t, "MutableVec<()>", t.pick(4, 5));
    case::<List<Bad>>(&mut js, t, "MutableVec of values that fail to serialize", t.pick(3, 4));
    case::<Dict<u8, u8>>(&mut js, t, "MutableBTreeMap<u8, u8>", t.pick(4, 5));
    case::<Dict<String, Option<u8>>>(&mut js, t, "MutableBTreeMap<String, Option<u8>>", t.pick(3, 4));
    case::<Dict<String, Vec<u8>>>(&mut js, t, "MutableBTreeMap<String, Vec<u8>>", t.pick(3, 4));
    case::<Dict<String, Bad>>(&mut js, t, "MutableBTreeMap of values that fail to serialize", t.pick(3, 4));
    js.push(seq("nested containers", || nested(3)));
    let most = t.pick(5000, 70000);
    js.push(seq("contents of every length", move || sized(most)));
    js
}

fn main() {
    mc::main(Spec {
        property: "C25",
        assumptions: vec!["serde_json and the recording serializer stand for all data formats; the plain Vec, BTreeMap and value are the oracle".into()],
        notes: "every history of constructors and operations up to the depth, compared call by call with the serialization of the plain contents, deserialized and changed; and every text over a small token alphabet up to the length, deserialized next to the plain contents".into(),
    }, jobs)
}
