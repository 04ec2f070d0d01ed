//! Helpers shared by the property binaries.
use nalgebra::{Point, RealField};
use num_traits::{AsPrimitive, Bounded, FromPrimitive, NumAssign, ToPrimitive};
use pbt_engine::F;
use std::fmt::{Debug, LowerExp};
use std::iter::{Product, Sum};

pub mod calls;
pub mod icp_ref;
pub mod many;
#[cfg(feature = "cfg")]
pub mod requests;

pub use pbt_engine::{ensure, gen, gen::P, CheckResult, Ctx, Prop};

/// The floating point types of the library. More is known about them than the library asks for, in case it asks for more.
pub trait Fl:
    RealField
    + Copy
    + Default
    + Bounded
    + NumAssign
    + Sum
    + Debug
    + mapping_algorithms::types::IsNan
    + AsPrimitive<usize>
    + AsPrimitive<isize>
    + AsPrimitive<f64>
    + AsPrimitive<f32>
    + AsPrimitive<i8>
    + AsPrimitive<i16>
    + AsPrimitive<i32>
    + AsPrimitive<i64>
    + AsPrimitive<u8>
    + AsPrimitive<u16>
    + AsPrimitive<u32>
    + AsPrimitive<u64>
    + FromPrimitive
    + ToPrimitive
    + Into<f64>
    + LowerExp
    + Product
    + rand::distributions::uniform::SampleUniform
{
    const SINGLE: bool;
    /// Unit roundoff times two.
    const EPS: f64;
    /// The smallest normal number.
    const TINY: f64;
    const MAX: f64;
    fn of(v: f64) -> Self;
    fn f64(self) -> f64;
}

impl Fl for f32 {
    const SINGLE: bool = true;
    const EPS: f64 = f32::EPSILON as f64;
    const TINY: f64 = f32::MIN_POSITIVE as f64;
    const MAX: f64 = f32::MAX as f64;
    fn of(v: f64) -> Self {
        v as f32
    }
    fn f64(self) -> f64 {
        self as f64
    }
}

impl Fl for f64 {
    const SINGLE: bool = false;
    const EPS: f64 = f64::EPSILON;
    const TINY: f64 = f64::MIN_POSITIVE;
    const MAX: f64 = f64::MAX;
    fn of(v: f64) -> Self {
        v
    }
    fn f64(self) -> f64 {
        self
    }
}

pub fn pt<T: Fl, const N: usize>(p: &[F]) -> Point<T, N> {
    Point::from(std::array::from_fn(|i| T::of(p[i].0)))
}

pub fn pts<T: Fl, const N: usize>(ps: &[P]) -> Vec<Point<T, N>> {
    ps.iter().map(|p| pt(p)).collect()
}

pub fn raw<T: Fl, const N: usize>(p: &Point<T, N>) -> [f64; N] {
    std::array::from_fn(|i| p[i].f64())
}

pub fn raws<T: Fl, const N: usize>(ps: &[Point<T, N>]) -> Vec<[f64; N]> {
    ps.iter().map(raw).collect()
}

pub fn dist2<const N: usize>(a: &[f64; N], b: &[f64; N]) -> f64 {
    (0..N).map(|i| (a[i] - b[i]).powi(2)).sum()
}

/// Calls `$f::<T, N>($args)` for the requested precision and dimension.
#[macro_export]
macro_rules! dispatch {
    ($single:expr, $dim:expr, [$($n:literal),*], $f:ident $args:tt) => {
        match ($single, $dim) {
            $(
                (true, $n) => $f::<f32, $n> $args,
                (false, $n) => $f::<f64, $n> $args,
            )*
            (_, n) => panic!("dimension {n} is not supported"),
        }
    };
}

/// Multiset equality of points by value (`-0.0 == 0.0`).
pub fn same_multiset<const N: usize>(a: &[[f64; N]], b: &[[f64; N]]) -> bool {
    let sorted = |v: &[[f64; N]]| {
        let mut v: Vec<[f64; N]> = v.iter().map(|p| p.map(|c| c + 0.0)).collect();
        v.sort_by(|x, y| x.partial_cmp(y).expect("no NaN"));
        v
    };
    a.len() == b.len() && sorted(a) == sorted(b)
}
