//! A float which survives JSON, including NaN, the infinities and -0.0.
use serde::{de::Error, Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;

#[derive(Clone, Copy, PartialEq, PartialOrd, Default)]
pub struct F(pub f64);

impl fmt::Debug for F {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

impl From<f64> for F {
    fn from(v: f64) -> Self {
        F(v)
    }
}

impl Serialize for F {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0.is_finite() {
            s.serialize_f64(self.0)
        } else if self.0.is_nan() {
            s.serialize_str("NaN")
        } else if self.0 > 0.0 {
            s.serialize_str("inf")
        } else {
            s.serialize_str("-inf")
        }
    }
}

impl<'de> Deserialize<'de> for F {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        #[derive(Deserialize)]
        #[serde(untagged)]
        enum Raw {
            Num(f64),
            Text(String),
        }
        match Raw::deserialize(d)? {
            Raw::Num(v) => Ok(F(v)),
            Raw::Text(t) => match t.as_str() {
                "NaN" => Ok(F(f64::NAN)),
                "inf" => Ok(F(f64::INFINITY)),
                "-inf" => Ok(F(f64::NEG_INFINITY)),
                _ => Err(D::Error::custom("not a float")),
            },
        }
    }
}
