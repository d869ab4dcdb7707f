//! C20: a configuration keeps its meaning when it is derived, copied or serialized.
use std::path::{Path, PathBuf};

use mc::*;
use merkletree::merkle::*;
use merkletree::store::*;
use serde::de::{self, DeserializeSeed, SeqAccess, Visitor};
use serde::{ser, Deserialize, Serialize};
use typenum::U2;

/// A positional format (fields in order, without names), as binary formats have it.
mod pos {
    use super::*;

    #[derive(Clone, Debug, PartialEq)]
    pub enum Tok {
        Num(u64),
        Text(String),
        None,
        Some,
        Seq(usize),
    }
    #[derive(Debug)]
    pub struct Er(String);
    impl std::fmt::Display for Er {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::error::Error for Er {}
    impl ser::Error for Er {
        fn custom<T: std::fmt::Display>(m: T) -> Self {
            Er(m.to_string())
        }
    }
    impl de::Error for Er {
        fn custom<T: std::fmt::Display>(m: T) -> Self {
            Er(m.to_string())
        }
    }
    fn no<T>() -> Result<T, Er> {
        Err(Er("type not supported by the positional format".into()))
    }

    #[derive(Default)]
    pub struct Ser(pub Vec<Tok>);
    pub fn write<T: Serialize>(v: &T) -> Result<Vec<Tok>, Er> {
        let mut s = Ser::default();
        v.serialize(&mut s)?;
        Ok(s.0)
    }
    type Nothing = ser::Impossible<(), Er>;
    impl<'a> ser::Serializer for &'a mut Ser {
        type Ok = ();
        type Error = Er;
        type SerializeSeq = Self;
        type SerializeTuple = Self;
        type SerializeTupleStruct = Nothing;
        type SerializeTupleVariant = Nothing;
        type SerializeMap = Nothing;
        type SerializeStruct = Self;
        type SerializeStructVariant = Nothing;
        fn is_human_readable(&self) -> bool {
            false
        }
        fn serialize_bool(self, v: bool) -> Result<(), Er> {
            self.serialize_u64(v as u64)
        }
        fn serialize_i8(self, v: i8) -> Result<(), Er> {
            self.serialize_u64(v as u64)
        }
        fn serialize_i16(self, v: i16) -> Result<(), Er> {
            self.serialize_u64(v as u64)
        }
        fn serialize_i32(self, v: i32) -> Result<(), Er> {
            self.serialize_u64(v as u64)
        }
        fn serialize_i64(self, v: i64) -> Result<(), Er> {
            self.serialize_u64(v as u64)
        }
        fn serialize_u8(self, v: u8) -> Result<(), Er> {
            self.serialize_u64(v as u64)
        }
        fn serialize_u16(self, v: u16) -> Result<(), Er> {
            self.serialize_u64(v as u64)
        }
        fn serialize_u32(self, v: u32) -> Result<(), Er> {
            self.serialize_u64(v as u64)
        }
        fn serialize_u64(self, v: u64) -> Result<(), Er> {
            self.0.push(Tok::Num(v));
            Ok(())
        }
        fn serialize_f32(self, _: f32) -> Result<(), Er> {
            no()
        }
        fn serialize_f64(self, _: f64) -> Result<(), Er> {
            no()
        }
        fn serialize_char(self, _: char) -> Result<(), Er> {
            no()
        }
        fn serialize_str(self, v: &str) -> Result<(), Er> {
            self.0.push(Tok::Text(v.to_string()));
            Ok(())
        }
        fn serialize_bytes(self, _: &[u8]) -> Result<(), Er> {
            no()
        }
        fn serialize_none(self) -> Result<(), Er> {
            self.0.push(Tok::None);
            Ok(())
        }
        fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<(), Er> {
            self.0.push(Tok::Some);
            v.serialize(self)
        }
        fn serialize_unit(self) -> Result<(), Er> {
            Ok(())
        }
        fn serialize_unit_struct(self, _: &'static str) -> Result<(), Er> {
            Ok(())
        }
        fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<(), Er> {
            self.serialize_u64(i as u64)
        }
        fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<(), Er> {
            v.serialize(self)
        }
        fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Er> {
            no()
        }
        fn serialize_seq(self, n: Option<usize>) -> Result<Self, Er> {
            match n {
                Some(n) => {
                    self.0.push(Tok::Seq(n));
                    Ok(self)
                }
                None => no(),
            }
        }
        fn serialize_tuple(self, _: usize) -> Result<Self, Er> {
            Ok(self)
        }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Nothing, Er> {
            no()
        }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Nothing, Er> {
            no()
        }
        fn serialize_map(self, _: Option<usize>) -> Result<Nothing, Er> {
            no()
        }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, Er> {
            Ok(self)
        }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Nothing, Er> {
            no()
        }
    }
    impl<'a> ser::SerializeSeq for &'a mut Ser {
        type Ok = ();
        type Error = Er;
        fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Er> {
            v.serialize(&mut **self)
        }
        fn end(self) -> Result<(), Er> {
            Ok(())
        }
    }
    impl<'a> ser::SerializeTuple for &'a mut Ser {
        type Ok = ();
        type Error = Er;
        fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Er> {
            v.serialize(&mut **self)
        }
        fn end(self) -> Result<(), Er> {
            Ok(())
        }
    }
    impl<'a> ser::SerializeStruct for &'a mut Ser {
        type Ok = ();
        type Error = Er;
        fn serialize_field<T: Serialize + ?Sized>(&mut self, _: &'static str, v: &T) -> Result<(), Er> {
            v.serialize(&mut **self)
        }
        fn end(self) -> Result<(), Er> {
            Ok(())
        }
    }

    pub struct De {
        toks: Vec<Tok>,
        at: usize,
    }
    pub fn read<T: for<'de> Deserialize<'de>>(toks: &[Tok]) -> Result<T, Er> {
        let mut d = De { toks: toks.to_vec(), at: 0 };
        let v = T::deserialize(&mut d)?;
        if d.at != d.toks.len() {
            return Err(Er(format!("{} of {} tokens read", d.at, d.toks.len())));
        }
        Ok(v)
    }
    impl De {
        fn next(&mut self) -> Result<Tok, Er> {
            self.at += 1;
            self.toks.get(self.at - 1).cloned().ok_or_else(|| Er("end of input".into()))
        }
    }
    struct Fields<'a>(&'a mut De, usize);
    impl<'de, 'a> SeqAccess<'de> for Fields<'a> {
        type Error = Er;
        fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Er> {
            if self.1 == 0 {
                return Ok(None);
            }
            self.1 -= 1;
            s.deserialize(&mut *self.0).map(Some)
        }
        fn size_hint(&self) -> Option<usize> {
            Some(self.1)
        }
    }
    macro_rules! num {
        ($($f:ident $v:ident $t:ty),*) => {$(
            fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
                match self.next()? {
                    Tok::Num(n) => v.$v(n as $t),
                    t => Err(Er(format!("number expected, found {:?}", t))),
                }
            }
        )*};
    }
    impl<'de, 'a> de::Deserializer<'de> for &'a mut De {
        type Error = Er;
        fn is_human_readable(&self) -> bool {
            false
        }
        fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Er> {
            no()
        }
        num!(deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64,
             deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64);
        fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
            match self.next()? {
                Tok::Num(n) => v.visit_bool(n != 0),
                t => Err(Er(format!("number expected, found {:?}", t))),
            }
        }
        fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
            match self.next()? {
                Tok::Text(s) => v.visit_string(s),
                t => Err(Er(format!("text expected, found {:?}", t))),
            }
        }
        fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
            self.deserialize_str(v)
        }
        fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
            match self.next()? {
                Tok::None => v.visit_none(),
                Tok::Some => v.visit_some(self),
                t => Err(Er(format!("option expected, found {:?}", t))),
            }
        }
        fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
            match self.next()? {
                Tok::Seq(n) => v.visit_seq(Fields(self, n)),
                t => Err(Er(format!("sequence expected, found {:?}", t))),
            }
        }
        fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, Er> {
            v.visit_seq(Fields(self, n))
        }
        fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, Er> {
            v.visit_seq(Fields(self, f.len()))
        }
        fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Er> {
            v.visit_newtype_struct(self)
        }
        serde::forward_to_deserialize_any! { f32 f64 char bytes byte_buf unit unit_struct map enum identifier ignored_any tuple_struct }
    }
}

type Meaning = (PathBuf, String, Option<usize>, usize);
fn meaning(c: &StoreConfig) -> Meaning {
    (c.path.clone(), c.id.clone(), c.size, c.rows_to_discard)
}

const DIRS: [&str; 6] = ["/dev/shm/x", "rel/ative", "", ".", "/with space/\u{fc}/", "a\"b\\c"];
const IDS: [&str; 14] = ["a", "", "tree-c-1", "tree.r.last", "0", "..", "with space", "\u{fc}ber", "a\"b", "a\\b", "x.dat", "new\nline", "sc-02-data-a.dat", "A"];
const SIZES: [Option<usize>; 6] = [None, Some(0), Some(1), Some(7), Some(1 << 32), Some(usize::MAX)];
const ROWS: [usize; 6] = [0, 1, 2, 7, 1 << 33, usize::MAX];

/// The ways of passing a config on.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Via {
    Same,
    Copy,
    Json,
    JsonValue,
    Pos,
    Derive,
    Rebuild,
}
const VIAS: [Via; 7] = [Via::Same, Via::Copy, Via::Json, Via::JsonValue, Via::Pos, Via::Derive, Via::Rebuild];

fn pass(c: &StoreConfig, v: Via) -> Result<StoreConfig, Fail> {
    Ok(match v {
        Via::Same => StoreConfig { path: c.path.clone(), id: c.id.clone(), size: c.size, rows_to_discard: c.rows_to_discard },
        Via::Copy => c.clone(),
        Via::Json => {
            let t = call(|| Ok(serde_json::to_string(c)?)).must("to json")?;
            call(|| Ok(serde_json::from_str(&t)?)).must("from json")?
        }
        Via::JsonValue => {
            let t = call(|| Ok(serde_json::to_value(c)?)).must("to a json value")?;
            call(|| Ok(serde_json::from_value(t)?)).must("from a json value")?
        }
        Via::Pos => {
            let t = call(|| Ok(pos::write(c)?)).must("to the positional format")?;
            call(|| Ok(pos::read(&t)?)).must("from the positional format")?
        }
        Via::Derive => StoreConfig::from_config(c, c.id.clone(), c.size),
        Via::Rebuild => {
            let mut n = StoreConfig::new(c.path.clone(), c.id.clone(), c.rows_to_discard);
            n.size = c.size;
            n
        }
    })
}

/// Every config, passed on twice; every config derived from it.
fn fields(ctx: &mut Ctx, dir: &str) -> R {
    let id = ctx.pick("id", &IDS);
    let size = ctx.pick("size", &SIZES);
    let rows = ctx.pick("rows", &ROWS);
    let want: Meaning = (PathBuf::from(dir), id.to_string(), size, rows);
    let mut c = StoreConfig::new(dir, id, rows);
    check!(meaning(&c) == (want.0.clone(), want.1.clone(), None, want.3), "new", "new({:?}, {:?}, {}) is {:?}", dir, id, rows, c);
    c.size = size;
    for a in VIAS {
        for b in VIAS {
            let n = pass(&pass(&c, a)?, b)?;
            check!(meaning(&n) == want, "passed on", "{:?} passed on by {:?} and {:?} became {:?}", c, a, b, n);
            ctx.op(2);
        }
    }
    for i in IDS {
        for s in SIZES {
            let n = StoreConfig::from_config(&c, i, s);
            let w: Meaning = (want.0.clone(), i.to_string(), s.or(size), rows);
            check!(meaning(&n) == w, "derived", "from_config({:?}, {:?}, {:?}) is {:?}", c, i, s, n);
            check!(meaning(&c) == want, "derived", "the original changed");
            ctx.op(1);
        }
    }
    // what other programs and earlier versions have written
    let j = serde_json::json!({"path": dir, "id": id, "size": size, "rows_to_discard": rows});
    let n: StoreConfig = call(|| Ok(serde_json::from_value(j.clone())?)).must("from the documented fields")?;
    check!(meaning(&n) == want, "fields", "{} read as {:?}", j, n);
    let w = call(|| Ok(serde_json::to_value(&c)?)).must("to a json value")?;
    check!(w == j, "fields", "{:?} written as {}, expected {}", c, w, j);
    let mut t = vec![pos::Tok::Text(dir.into()), pos::Tok::Text(id.into())];
    match size {
        None => t.push(pos::Tok::None),
        Some(s) => t.extend([pos::Tok::Some, pos::Tok::Num(s as u64)]),
    }
    t.push(pos::Tok::Num(rows as u64));
    let n: StoreConfig = call(|| Ok(pos::read(&t)?)).must("from the documented order")?;
    check!(meaning(&n) == want, "order", "{:?} read as {:?}", t, n);
    let w = call(|| Ok(pos::write(&c)?)).must("to the positional format")?;
    check!(w == t, "order", "{:?} written as {:?}, expected {:?}", c, w, t);
    // the name of its file
    let p = StoreConfig::data_path(Path::new(dir), id);
    check!(p == Path::new(dir).join(format!("sc-02-data-{}.dat", id)), "file name", "data_path({:?}, {:?}) is {:?}", dir, id, p);
    let d = StoreConfig::default();
    check!(meaning(&d) == (PathBuf::new(), String::new(), None, 0), "default", "default config {:?}", d);
    ctx.op(6);
    ctx.state(h64(rows as u64, format!("{:?}", want).as_bytes()));
    Ok(())
}

fn replicas(ctx: &mut Ctx) -> R {
    const OFF: [usize; 4] = [0, 1, 5000, usize::MAX];
    let dir = ctx.pick("path", &DIRS);
    let n = ctx.choose("offsets", 4);
    let mut offs = vec![];
    for _ in 0..n {
        offs.push(ctx.pick("offset", &OFF));
    }
    let want = (PathBuf::from(dir), offs.clone());
    let of = |r: &ReplicaConfig| (r.path.clone(), r.offsets.clone());
    let r = ReplicaConfig::new(dir, offs.clone());
    check!(of(&r) == want, "replica", "new is {:?}", r);
    check!(of(&r.clone()) == want, "replica", "copy is {:?}", r.clone());
    let j = serde_json::json!({"path": dir, "offsets": offs});
    let w = call(|| Ok(serde_json::to_value(&r)?)).must("to a json value")?;
    check!(w == j, "replica fields", "{:?} written as {}", r, w);
    let b: ReplicaConfig = call(|| Ok(serde_json::from_value(j)?)).must("from a json value")?;
    check!(of(&b) == want, "replica", "from json is {:?}", b);
    let mut t = vec![pos::Tok::Text(dir.into()), pos::Tok::Seq(n)];
    t.extend(offs.iter().map(|o| pos::Tok::Num(*o as u64)));
    let w = call(|| Ok(pos::write(&r)?)).must("to the positional format")?;
    check!(w == t, "replica order", "{:?} written as {:?}", r, w);
    let b: ReplicaConfig = call(|| Ok(pos::read(&t)?)).must("from the positional format")?;
    check!(of(&b) == want, "replica", "from the positional format is {:?}", b);
    let b = ReplicaConfig::from(Path::new(dir));
    check!(of(&b) == (PathBuf::from(dir), vec![0]), "replica", "from a path is {:?}", b);
    ctx.op(7);
    ctx.state(h64(n as u64, format!("{:?}", want).as_bytes()));
    Ok(())
}

type E = El<32>;
type A = Alg<true>;

/// A tree built, reopened, compacted and deleted, each under the config passed on in another way.
fn trees(ctx: &mut Ctx, kind: usize) -> R {
    let vias: [Via; 3] = [ctx.pick("build", &VIAS), ctx.pick("open", &VIAS), ctx.pick("delete", &VIAS)];
    let size = ctx.pick("size", &[None, Some(0), Some(31), Some(usize::MAX)]);
    let rows = ctx.choose("rows", 4);
    let n = 16;
    let r = RefTree::<E>::new(items::<E>(Pat::Distinct, 3, n), 2, true);
    let b = to_bytes(&r.rows[0]);
    let mut c = StoreConfig::new(&ctx.dir, "a.b", rows);
    c.size = size;
    let file = ctx.dir.join("sc-02-data-a.b.dat");
    let rep = ctx.dir.join("replica");
    write_file(&rep, &b);
    let [mut c1, mut c2, c3] = [pass(&c, vias[0])?, pass(&c, vias[1])?, pass(&c, vias[2])?];
    // a config derived for another tree must not matter
    c1 = StoreConfig::from_config(&StoreConfig::from_config(&c1, "other", None), "a.b", None);
    c2 = StoreConfig::from_config(&c2, "a.b", size);
    type T<S> = MerkleTree<E, A, S, U2>;
    match kind {
        0 => {
            let mut t: T<DiskStore<E>> = call(|| MerkleTree::from_byte_slice_with_config(&b, c1)).must("build")?;
            same_tree(ctx, &t, &r, None, "built")?;
            call(|| t.compact(c2.clone(), StoreConfigDataVersion::One as u32)).must("compact")?;
            drop(t);
            let s = call(|| Lc::<E>::new_from_disk(r.len(), 2, &c2)).must("open")?;
            let t: T<Lc<E>> = call(|| MerkleTree::from_data_store(s, n)).must("open")?;
            same_tree(ctx, &t, &r, Some(rows), "compacted")?;
            call(|| t.delete(c3)).must("delete")?;
        }
        1 => {
            let t: T<MmapStore<E>> = call(|| MerkleTree::from_byte_slice_with_config(&b, c1)).must("build")?;
            drop(t);
            let s = call(|| MmapStore::<E>::new_from_disk(r.len(), 2, &c2)).must("open")?;
            let t: T<MmapStore<E>> = call(|| MerkleTree::from_data_store(s, n)).must("open")?;
            same_tree(ctx, &t, &r, None, "reopened")?;
            call(|| t.delete(c3)).must("delete")?;
        }
        _ => {
            let t: T<Lc<E>> = call(|| MerkleTree::from_byte_slice_with_config(&b, c1)).must("build")?;
            drop(t);
            let rc: ReplicaConfig = match vias[1] {
                Via::Json | Via::JsonValue => serde_json::from_str(&serde_json::to_string(&ReplicaConfig::from(&rep as &Path)).unwrap()).unwrap(),
                Via::Pos => pos::read(&pos::write(&ReplicaConfig::new(&rep, vec![0])).unwrap()).unwrap(),
                _ => ReplicaConfig::new(&rep, vec![0]),
            };
            let s = call(|| {
                let rd = ExternalReader::new_from_config(&rc, 0)?;
                Lc::<E>::new_from_disk_with_reader(r.len(), 2, &c2, rd)
            })
            .must("open")?;
            let t: T<Lc<E>> = call(|| MerkleTree::from_data_store(s, n)).must("open")?;
            same_tree(ctx, &t, &r, Some(rows), "reopened")?;
            call(|| t.delete(c3)).must("delete")?;
        }
    }
    check!(!file.exists(), "delete", "{:?}: the file is still there", file);
    let left: Vec<String> = snapshot(&ctx.dir).into_iter().map(|x| x.0).collect();
    check!(left == ["replica"], "delete", "left behind: {:?}", left);
    ctx.op(4);
    ctx.state(h64(rows as u64, format!("{:?}{:?}", vias, size).as_bytes()));
    Ok(())
}

fn build(tier: Tier) -> Spec {
    let _ = tier;
    let mut s = Spec::new("C20");
    for d in DIRS {
        s.add(format!("fields {:?}", d), move |c| fields(c, d));
    }
    s.add("replicas", replicas);
    for (k, name) in ["disk", "mmap", "levelcache"].into_iter().enumerate() {
        s.add(format!("trees {}", name), move |c| trees(c, k));
    }
    s.bound(format!("{} directories x {} ids x {} sizes x {} numbers of rows, passed on twice in 7 ways; every derivation with {} ids x {} sizes", DIRS.len(), IDS.len(), SIZES.len(), ROWS.len(), IDS.len(), SIZES.len()));
    s.bound("every list of up to 3 of 4 offsets for 6 replica paths; formats: JSON (self-describing) and a positional one");
    s.bound("trees of 16 leafs on 3 stores, built, opened, compacted and deleted under a config passed on in each of the 7 ways");
    s.assume("paths are valid Unicode, as serde requires");
    s
}

fn main() {
    mc::engine::main(build)
}
