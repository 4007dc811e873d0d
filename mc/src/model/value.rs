//! The value domain of the models.
use toon::{JsonStreamEvent, JsonValue, StringOrNumberOrBoolOrNull as P};

#[derive(Clone, Debug)]
pub enum V {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<V>),
    Obj(Vec<(String, V)>),
}

impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::Null, V::Null) => true,
            (V::Bool(a), V::Bool(b)) => a == b,
            (V::Num(a), V::Num(b)) => a.to_bits() == b.to_bits(),
            (V::Str(a), V::Str(b)) => a == b,
            (V::Arr(a), V::Arr(b)) => a == b,
            (V::Obj(a), V::Obj(b)) => a == b,
            _ => false,
        }
    }
}
impl Eq for V {}

pub fn s(x: &str) -> V {
    V::Str(x.to_string())
}
pub fn obj(e: Vec<(&str, V)>) -> V {
    V::Obj(e.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

impl V {
    pub fn is_prim(&self) -> bool {
        !matches!(self, V::Arr(_) | V::Obj(_))
    }
    pub fn to_real(&self) -> JsonValue {
        match self {
            V::Arr(a) => JsonValue::Array(a.iter().map(V::to_real).collect()),
            V::Obj(o) => JsonValue::Object(o.iter().map(|(k, v)| (k.clone(), v.to_real())).collect()),
            p => JsonValue::Primitive(p.to_prim()),
        }
    }
    pub fn to_prim(&self) -> P {
        match self {
            V::Null => P::Null,
            V::Bool(b) => P::Bool(*b),
            V::Num(n) => P::Number(*n),
            V::Str(t) => P::String(t.clone()),
            _ => unreachable!(),
        }
    }
    pub fn from_prim(p: &P) -> V {
        match p {
            P::Null => V::Null,
            P::Bool(b) => V::Bool(*b),
            P::Number(n) => V::Num(*n),
            P::String(t) => V::Str(t.clone()),
        }
    }
    pub fn from_real(v: &JsonValue) -> V {
        match v {
            JsonValue::Primitive(p) => V::from_prim(p),
            JsonValue::Array(a) => V::Arr(a.iter().map(V::from_real).collect()),
            JsonValue::Object(o) => {
                V::Obj(o.iter().map(|(k, v)| (k.clone(), V::from_real(v))).collect())
            }
        }
    }
    /// -0 becomes 0, non-finite numbers become null.
    pub fn normal(&self) -> V {
        match self {
            V::Num(n) if !n.is_finite() => V::Null,
            V::Num(n) if *n == 0.0 => V::Num(0.0),
            V::Arr(a) => V::Arr(a.iter().map(V::normal).collect()),
            V::Obj(o) => V::Obj(o.iter().map(|(k, v)| (k.clone(), v.normal())).collect()),
            v => v.clone(),
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            V::Arr(a) => 1 + a.iter().map(V::depth).max().unwrap_or(0),
            V::Obj(o) => 1 + o.iter().map(|(_, v)| v.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    /// A printable, unambiguous form (JSON-like; numbers by their bits when unusual).
    pub fn show(&self) -> String {
        match self {
            V::Null => "null".into(),
            V::Bool(b) => b.to_string(),
            V::Num(n) => format!("{n:?}"),
            V::Str(t) => format!("{t:?}"),
            V::Arr(a) => format!("[{}]", a.iter().map(V::show).collect::<Vec<_>>().join(",")),
            V::Obj(o) => format!(
                "{{{}}}",
                o.iter().map(|(k, v)| format!("{k:?}:{}", v.show())).collect::<Vec<_>>().join(",")
            ),
        }
    }
}

/// Events of the models.
#[derive(Clone, Debug)]
pub enum E {
    SO,
    EO,
    SA(usize),
    EA,
    Key(String, bool),
    Prim(V),
}
impl PartialEq for E {
    fn eq(&self, o: &E) -> bool {
        match (self, o) {
            (E::SO, E::SO) | (E::EO, E::EO) | (E::EA, E::EA) => true,
            (E::SA(a), E::SA(b)) => a == b,
            (E::Key(a, x), E::Key(b, y)) => a == b && x == y,
            (E::Prim(a), E::Prim(b)) => a == b,
            _ => false,
        }
    }
}
impl E {
    pub fn from_real(e: &JsonStreamEvent) -> E {
        match e {
            JsonStreamEvent::StartObject => E::SO,
            JsonStreamEvent::EndObject => E::EO,
            JsonStreamEvent::StartArray { length } => E::SA(*length),
            JsonStreamEvent::EndArray => E::EA,
            JsonStreamEvent::Key { key, was_quoted } => E::Key(key.clone(), *was_quoted),
            JsonStreamEvent::Primitive { value } => E::Prim(V::from_prim(value)),
        }
    }
    pub fn to_real(&self) -> JsonStreamEvent {
        match self {
            E::SO => JsonStreamEvent::StartObject,
            E::EO => JsonStreamEvent::EndObject,
            E::SA(n) => JsonStreamEvent::StartArray { length: *n },
            E::EA => JsonStreamEvent::EndArray,
            E::Key(k, q) => JsonStreamEvent::Key { key: k.clone(), was_quoted: *q },
            E::Prim(v) => JsonStreamEvent::Primitive { value: v.to_prim() },
        }
    }
    pub fn show(&self) -> String {
        match self {
            E::SO => "{".into(),
            E::EO => "}".into(),
            E::SA(n) => format!("[{n}"),
            E::EA => "]".into(),
            E::Key(k, q) => format!("key({k:?},{q})"),
            E::Prim(v) => v.show(),
        }
    }
}
pub fn show_events(e: &[E]) -> String {
    e.iter().map(E::show).collect::<Vec<_>>().join(" ")
}
