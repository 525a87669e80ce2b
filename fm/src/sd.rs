//! A recording serializer, and a deserializer which can lie and fail.

use std::cell::Cell;
use std::fmt;

use serde::de::{self, DeserializeSeed, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};

/// One value of the serde data model, with the lengths as announced.
#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Bool(bool),
    I(i128, u8),
    U(u128, u8),
    F(u64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<Node>),
    Unit,
    UnitStruct(&'static str),
    Newtype(&'static str, Box<Node>),
    UnitVariant(u32, &'static str),
    NewtypeVariant(u32, &'static str, Box<Node>),
    Seq(Option<usize>, Vec<Node>),
    Tuple(usize, Vec<Node>),
    Map(Option<usize>, Vec<(Node, Node)>),
    Other(String),
}

#[derive(Debug, Clone, PartialEq)]
pub struct Error(pub String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}

pub const INJECTED: &str = "injected fault";

/// Counts events, and fails at one of them.
#[derive(Debug, Default)]
pub struct Plan {
    pub events: Cell<u64>,
    pub fail_at: Option<u64>,
    pub human: bool,
    pub hint: Hint,
    /// Variants by number rather than by name.
    pub numbers: bool,
    /// Announce owned rather than borrowed strings.
    pub owned: bool,
    pub fired: Cell<bool>,
}

#[derive(Debug, Clone, Copy, Default, PartialEq)]
pub enum Hint {
    #[default]
    Exact,
    Nothing,
    Is(usize),
}

impl Plan {
    fn tick(&self) -> Result<(), Error> {
        let n = self.events.get();
        self.events.set(n + 1);
        if self.fail_at == Some(n) {
            self.fired.set(true);
            return Err(Error(INJECTED.to_string()));
        }
        Ok(())
    }
}

pub fn record<T: Serialize + ?Sized>(t: &T) -> Node {
    record_with(t, &Plan::default()).unwrap_or_else(|e| Node::Other(e.0))
}

pub fn record_with<T: Serialize + ?Sized>(t: &T, plan: &Plan) -> Result<Node, Error> {
    t.serialize(Rec(plan))
}

#[derive(Clone, Copy)]
pub struct Rec<'p>(&'p Plan);

pub struct RecSeq<'p> {
    plan: &'p Plan,
    len: Option<usize>,
    tuple: bool,
    items: Vec<Node>,
}

pub struct RecMap<'p> {
    plan: &'p Plan,
    len: Option<usize>,
    key: Option<Node>,
    items: Vec<(Node, Node)>,
}

macro_rules! num {
    ($($f:ident $t:ty, $v:ident, $n:literal;)*) => {
        $(fn $f(self, x: $t) -> Result<Node, Error> {
            self.0.tick()?;
            Ok(Node::$v(x.into(), $n))
        })*
    };
}

impl<'p> ser::Serializer for Rec<'p> {
    type Ok = Node;
    type Error = Error;
    type SerializeSeq = RecSeq<'p>;
    type SerializeTuple = RecSeq<'p>;
    type SerializeTupleStruct = ser::Impossible<Node, Error>;
    type SerializeTupleVariant = ser::Impossible<Node, Error>;
    type SerializeMap = RecMap<'p>;
    type SerializeStruct = ser::Impossible<Node, Error>;
    type SerializeStructVariant = ser::Impossible<Node, Error>;

    num! {
        serialize_i8 i8, I, 8; serialize_i16 i16, I, 16; serialize_i32 i32, I, 32; serialize_i64 i64, I, 64; serialize_i128 i128, I, 128;
        serialize_u8 u8, U, 8; serialize_u16 u16, U, 16; serialize_u32 u32, U, 32; serialize_u64 u64, U, 64; serialize_u128 u128, U, 128;
    }
    fn serialize_bool(self, x: bool) -> Result<Node, Error> {
        self.0.tick()?;
        Ok(Node::Bool(x))
    }
    fn serialize_f32(self, x: f32) -> Result<Node, Error> {
        self.serialize_f64(x.into())
    }
    fn serialize_f64(self, x: f64) -> Result<Node, Error> {
        self.0.tick()?;
        Ok(Node::F(x.to_bits()))
    }
    fn serialize_char(self, x: char) -> Result<Node, Error> {
        self.0.tick()?;
        Ok(Node::Char(x))
    }
    fn serialize_str(self, x: &str) -> Result<Node, Error> {
        self.0.tick()?;
        Ok(Node::Str(x.to_string()))
    }
    fn serialize_bytes(self, x: &[u8]) -> Result<Node, Error> {
        self.0.tick()?;
        Ok(Node::Bytes(x.to_vec()))
    }
    fn serialize_none(self) -> Result<Node, Error> {
        self.0.tick()?;
        Ok(Node::None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, x: &T) -> Result<Node, Error> {
        self.0.tick()?;
        Ok(Node::Some(Box::new(x.serialize(self)?)))
    }
    fn serialize_unit(self) -> Result<Node, Error> {
        self.0.tick()?;
        Ok(Node::Unit)
    }
    fn serialize_unit_struct(self, n: &'static str) -> Result<Node, Error> {
        self.0.tick()?;
        Ok(Node::UnitStruct(n))
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, v: &'static str) -> Result<Node, Error> {
        self.0.tick()?;
        Ok(Node::UnitVariant(i, v))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, n: &'static str, x: &T) -> Result<Node, Error> {
        self.0.tick()?;
        Ok(Node::Newtype(n, Box::new(x.serialize(self)?)))
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, i: u32, v: &'static str, x: &T) -> Result<Node, Error> {
        self.0.tick()?;
        Ok(Node::NewtypeVariant(i, v, Box::new(x.serialize(self)?)))
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<RecSeq<'p>, Error> {
        self.0.tick()?;
        Ok(RecSeq { plan: self.0, len, tuple: false, items: Vec::new() })
    }
    fn serialize_tuple(self, len: usize) -> Result<RecSeq<'p>, Error> {
        self.0.tick()?;
        Ok(RecSeq { plan: self.0, len: Some(len), tuple: true, items: Vec::new() })
    }
    fn serialize_tuple_struct(self, n: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Error> {
        Err(Error(format!("tuple struct {n}")))
    }
    fn serialize_tuple_variant(self, n: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Error> {
        Err(Error(format!("tuple variant {n}")))
    }
    fn serialize_map(self, len: Option<usize>) -> Result<RecMap<'p>, Error> {
        self.0.tick()?;
        Ok(RecMap { plan: self.0, len, key: None, items: Vec::new() })
    }
    fn serialize_struct(self, n: &'static str, _: usize) -> Result<Self::SerializeStruct, Error> {
        Err(Error(format!("struct {n}")))
    }
    fn serialize_struct_variant(self, n: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Error> {
        Err(Error(format!("struct variant {n}")))
    }
    fn is_human_readable(&self) -> bool {
        self.0.human
    }
}

impl RecSeq<'_> {
    fn put<T: Serialize + ?Sized>(&mut self, x: &T) -> Result<(), Error> {
        self.plan.tick()?;
        let n = x.serialize(Rec(self.plan))?;
        self.items.push(n);
        Ok(())
    }
    fn done(self) -> Result<Node, Error> {
        self.plan.tick()?;
        Ok(if self.tuple { Node::Tuple(self.len.unwrap_or(0), self.items) } else { Node::Seq(self.len, self.items) })
    }
}
impl ser::SerializeSeq for RecSeq<'_> {
    type Ok = Node;
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, x: &T) -> Result<(), Error> {
        self.put(x)
    }
    fn end(self) -> Result<Node, Error> {
        self.done()
    }
}
impl ser::SerializeTuple for RecSeq<'_> {
    type Ok = Node;
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, x: &T) -> Result<(), Error> {
        self.put(x)
    }
    fn end(self) -> Result<Node, Error> {
        self.done()
    }
}
impl ser::SerializeMap for RecMap<'_> {
    type Ok = Node;
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, x: &T) -> Result<(), Error> {
        self.plan.tick()?;
        if self.key.is_some() {
            return Err(Error("two keys in a row".to_string()));
        }
        self.key = Some(x.serialize(Rec(self.plan))?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, x: &T) -> Result<(), Error> {
        self.plan.tick()?;
        let Some(k) = self.key.take() else {
            return Err(Error("a value without key".to_string()));
        };
        let v = x.serialize(Rec(self.plan))?;
        self.items.push((k, v));
        Ok(())
    }
    fn end(self) -> Result<Node, Error> {
        self.plan.tick()?;
        Ok(Node::Map(self.len, self.items))
    }
}

/// Deserializes a node.
#[derive(Clone, Copy)]
pub struct De<'p, 'n> {
    pub node: &'n Node,
    pub plan: &'p Plan,
    pub depth: usize,
}

pub fn read<'de, T: de::Deserialize<'de>>(node: &Node, plan: &Plan) -> Result<T, Error> {
    T::deserialize(De { node, plan, depth: 0 })
}

impl<'p, 'n> De<'p, 'n> {
    fn sub(self, node: &'n Node) -> Self {
        De { node, depth: self.depth + 1, ..self }
    }

    fn any<'de, V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.plan.tick()?;
        match self.node {
            Node::Bool(x) => v.visit_bool(*x),
            Node::I(x, 8) => v.visit_i8(*x as i8),
            Node::I(x, 16) => v.visit_i16(*x as i16),
            Node::I(x, 32) => v.visit_i32(*x as i32),
            Node::I(x, 64) => v.visit_i64(*x as i64),
            Node::I(x, _) => v.visit_i128(*x),
            Node::U(x, 8) => v.visit_u8(*x as u8),
            Node::U(x, 16) => v.visit_u16(*x as u16),
            Node::U(x, 32) => v.visit_u32(*x as u32),
            Node::U(x, 64) => v.visit_u64(*x as u64),
            Node::U(x, _) => v.visit_u128(*x),
            Node::F(x) => v.visit_f64(f64::from_bits(*x)),
            Node::Char(x) => v.visit_char(*x),
            Node::Str(x) => {
                if self.plan.owned {
                    v.visit_string(x.clone())
                } else {
                    v.visit_borrowed_str(Box::leak(x.clone().into_boxed_str()))
                }
            }
            Node::Bytes(x) => {
                if self.plan.owned {
                    v.visit_byte_buf(x.clone())
                } else {
                    v.visit_borrowed_bytes(Box::leak(x.clone().into_boxed_slice()))
                }
            }
            Node::None => v.visit_none(),
            Node::Some(x) => v.visit_some(self.sub(x)),
            Node::Unit | Node::UnitStruct(_) => v.visit_unit(),
            Node::Newtype(_, x) => v.visit_newtype_struct(self.sub(x)),
            Node::UnitVariant(..) | Node::NewtypeVariant(..) => v.visit_enum(self),
            Node::Seq(_, x) => v.visit_seq(Items { left: self.hint(x.len()), de: self, it: x.iter(), value: None }),
            Node::Tuple(_, x) => v.visit_seq(Items { left: Some(x.len()), de: self, it: x.iter(), value: None }),
            Node::Map(_, x) => v.visit_map(Items { left: self.hint(x.len()), de: self, it: x.iter(), value: None }),
            Node::Other(m) => Err(Error(m.clone())),
        }
    }

    fn hint(&self, n: usize) -> Option<usize> {
        match self.plan.hint {
            _ if self.depth > 0 => Some(n),
            Hint::Exact => Some(n),
            Hint::Nothing => None,
            Hint::Is(x) => Some(x),
        }
    }
}

struct Items<'p, 'n, I> {
    de: De<'p, 'n>,
    it: I,
    left: Option<usize>,
    value: Option<&'n Node>,
}

impl<I> Items<'_, '_, I> {
    fn step(&mut self) {
        if self.de.plan.hint == Hint::Exact {
            self.left = self.left.map(|l| l.saturating_sub(1));
        }
    }
}

impl<'de, 'p, 'n, I: Iterator<Item = &'n Node>> de::SeqAccess<'de> for Items<'p, 'n, I> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Error> {
        self.de.plan.tick()?;
        match self.it.next() {
            None => Ok(None),
            Some(n) => {
                self.step();
                s.deserialize(self.de.sub(n)).map(Some)
            }
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.left
    }
}

impl<'de, 'p, 'n, I: Iterator<Item = &'n (Node, Node)>> de::MapAccess<'de> for Items<'p, 'n, I> {
    type Error = Error;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Error> {
        self.de.plan.tick()?;
        match self.it.next() {
            None => Ok(None),
            Some((k, v)) => {
                self.step();
                self.value = Some(v);
                s.deserialize(self.de.sub(k)).map(Some)
            }
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, Error> {
        self.de.plan.tick()?;
        match self.value.take() {
            None => Err(Error("value asked for before its key".to_string())),
            Some(v) => s.deserialize(self.de.sub(v)),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.left
    }
}

impl<'de> de::Deserializer<'de> for De<'_, '_> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.any(v)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.any(v)
    }
    fn is_human_readable(&self) -> bool {
        self.plan.human
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

impl<'de> de::EnumAccess<'de> for De<'_, '_> {
    type Error = Error;
    type Variant = Self;
    fn variant_seed<V: DeserializeSeed<'de>>(self, s: V) -> Result<(V::Value, Self), Error> {
        self.plan.tick()?;
        let (i, n) = match self.node {
            Node::UnitVariant(i, n) | Node::NewtypeVariant(i, n, _) => (*i, *n),
            _ => return Err(Error("not an enum".to_string())),
        };
        let v = if self.plan.numbers {
            let d: de::value::U32Deserializer<Error> = i.into_deserializer();
            s.deserialize(d)?
        } else {
            let d: de::value::StrDeserializer<'_, Error> = n.into_deserializer();
            s.deserialize(d)?
        };
        Ok((v, self))
    }
}

impl<'de> de::VariantAccess<'de> for De<'_, '_> {
    type Error = Error;
    fn unit_variant(self) -> Result<(), Error> {
        self.plan.tick()?;
        match self.node {
            Node::UnitVariant(..) => Ok(()),
            _ => Err(Error("not a unit variant".to_string())),
        }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, Error> {
        self.plan.tick()?;
        match self.node {
            Node::NewtypeVariant(_, _, x) => s.deserialize(self.sub(x)),
            _ => Err(Error("not a newtype variant".to_string())),
        }
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, Error> {
        Err(Error("tuple variant".to_string()))
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, Error> {
        Err(Error("struct variant".to_string()))
    }
}

/// What a stream of pairs says, in order: the reference for maps.
#[derive(Debug)]
pub struct Pairs<K, V>(pub Vec<(K, V)>);

impl<'de, K: de::Deserialize<'de>, V: de::Deserialize<'de>> de::Deserialize<'de> for Pairs<K, V> {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct P<K, V>(std::marker::PhantomData<(K, V)>);
        impl<'de, K: de::Deserialize<'de>, V: de::Deserialize<'de>> Visitor<'de> for P<K, V> {
            type Value = Pairs<K, V>;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("pairs")
            }
            fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Pairs<K, V>, A::Error> {
                let mut out = Vec::new();
                while let Some(e) = a.next_entry()? {
                    out.push(e);
                }
                Ok(Pairs(out))
            }
        }
        d.deserialize_map(P(std::marker::PhantomData))
    }
}

/// The same for sets.
#[derive(Debug)]
pub struct Items1<K>(pub Vec<K>);

impl<'de, K: de::Deserialize<'de>> de::Deserialize<'de> for Items1<K> {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct P<K>(std::marker::PhantomData<K>);
        impl<'de, K: de::Deserialize<'de>> Visitor<'de> for P<K> {
            type Value = Items1<K>;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("items")
            }
            fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Items1<K>, A::Error> {
                let mut out = Vec::new();
                while let Some(e) = a.next_element()? {
                    out.push(e);
                }
                Ok(Items1(out))
            }
        }
        d.deserialize_seq(P(std::marker::PhantomData))
    }
}

/// Serializes as a map of the given entries, written here independently.
pub struct AsMap<'a, K, V>(pub &'a [(K, V)]);
impl<K: Serialize, V: Serialize> Serialize for AsMap<'_, K, V> {
    fn serialize<S: ser::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use ser::SerializeMap;
        let mut m = s.serialize_map(Some(self.0.len()))?;
        for (k, v) in self.0 {
            m.serialize_key(k)?;
            m.serialize_value(v)?;
        }
        m.end()
    }
}

pub struct AsSeq<'a, K>(pub &'a [K]);
impl<K: Serialize> Serialize for AsSeq<'_, K> {
    fn serialize<S: ser::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use ser::SerializeSeq;
        let mut m = s.serialize_seq(Some(self.0.len()))?;
        for k in self.0 {
            m.serialize_element(k)?;
        }
        m.end()
    }
}
