//! Keys and values that may refuse to be serialized.
use crate::bp::{BK, BV};
use serde::de::{Deserialize, Deserializer};
use serde::ser::{Error, Serialize, SerializeTuple, Serializer};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

/// mood 0: serializes; 1: returns an error; 2: panics. The mood takes no part in comparisons.
#[derive(Clone, Debug)]
pub struct Picky {
    pub id: i64,
    pub text: String,
    pub mood: u8,
}
impl PartialEq for Picky {
    fn eq(&self, o: &Self) -> bool {
        self.id == o.id && self.text == o.text
    }
}
impl Eq for Picky {}
impl PartialOrd for Picky {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Picky {
    fn cmp(&self, o: &Self) -> Ordering {
        (self.id, &self.text).cmp(&(o.id, &o.text))
    }
}
impl Hash for Picky {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (self.id, &self.text).hash(h)
    }
}
impl Serialize for Picky {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut t = s.serialize_tuple(2)?;
        t.serialize_element(&self.id)?;
        match self.mood {
            0 => t.serialize_element(&self.text)?,
            1 => return Err(S::Error::custom("a picky value")),
            _ => panic!("a picky value"),
        }
        t.end()
    }
}
impl<'de> Deserialize<'de> for Picky {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let (id, text) = Deserialize::deserialize(d)?;
        Ok(Picky { id, text, mood: 0 })
    }
}
impl BK for Picky {
    type Q = Picky;
    const NAME: &'static str = "Picky";
    const MAX: i64 = 1 << 40;
    fn mk(i: i64, pad: usize) -> Self {
        Picky { id: i, text: <String as BK>::mk(i, pad), mood: 0 }
    }
    fn room(pad: usize) -> u64 {
        8 + <String as BK>::room(pad)
    }
}
impl BV for Picky {
    const NAME: &'static str = "Picky";
    fn mk(v: u64, pad: usize) -> Self {
        Picky { id: v as i64, text: <String as BV>::mk(v, pad), mood: 0 }
    }
    fn room(pad: usize) -> u64 {
        8 + <String as BV>::room(pad)
    }
}
