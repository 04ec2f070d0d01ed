//! Clouds of tens of thousands of points, where counters of 16 bits wrap around. A case is just the number of points (and
//! a seed), from which a usual case is built.
use pbt_engine::Ctx;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Or<C> {
    Many { many: usize, seed: u64 },
    Usual(C),
}

/// More than fit into 16 bits.
pub const MANY: std::ops::RangeInclusive<usize> = 66_000..=80_000;

/// The usual cases, and one in `one_in` with many points.
pub fn or_many<C: Clone + Debug + 'static>(usual: impl Strategy<Value = C> + 'static, one_in: u32) -> BoxedStrategy<Or<C>> {
    prop_oneof![
        one_in - 1 => usual.prop_map(Or::Usual),
        1 => (MANY, any::<u64>()).prop_map(|(many, seed)| Or::Many { many, seed }),
    ]
    .boxed()
}

/// One for each of these seeds, whatever is generated.
pub fn fixed<C>(seeds: std::ops::Range<u64>) -> Vec<Or<C>> {
    seeds.map(|seed| Or::Many { many: MANY.start() + 2321 * seed as usize, seed }).collect()
}

pub fn checked<C>(
    c: &Or<C>,
    ctx: &mut Ctx,
    build: impl Fn(usize, &mut Random) -> C,
    check: impl Fn(&C, &mut Ctx) -> Result<(), String>,
) -> Result<(), String> {
    match c {
        Or::Usual(c) => check(c, ctx),
        Or::Many { many, seed } => {
            ctx.label("more than 65,536 points");
            check(&build(*many, &mut Random(*seed)), ctx).map_err(|e| {
                let cut = (0..=1500).rev().find(|i| e.is_char_boundary(*i)).unwrap_or(0);
                if e.len() > 1500 { format!("{} ...", &e[..cut]) } else { e }
            })
        }
    }
}

/// SplitMix64, starting with its seed.
pub struct Random(pub u64);

impl Random {
    pub fn bits(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    /// One of the numbers in this range.
    pub fn within(&mut self, low: i64, high: i64) -> i64 {
        low + (self.bits() % (high - low + 1) as u64) as i64
    }
    /// Between -1 and 1, with few enough digits for an f32.
    pub fn unit(&mut self) -> f64 {
        self.within(-(1 << 20), 1 << 20) as f64 / f64::from(1 << 20)
    }
    pub fn flip(&mut self) -> bool {
        self.bits() >> 63 == 1
    }
    pub fn point(&mut self, dim: usize, scale: f64) -> crate::P {
        (0..dim).map(|_| pbt_engine::F(self.unit() * scale)).collect()
    }
    pub fn cloud(&mut self, n: usize, dim: usize, scale: f64) -> Vec<crate::P> {
        (0..n).map(|_| self.point(dim, scale)).collect()
    }
}
