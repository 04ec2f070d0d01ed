//! P13, P14: great circle distances and bearings.
use mapping_algorithms::geo::{calculate_haversine_distance, calculate_sphere_bearing};
use nalgebra::Point2;
use num_traits::Float;
use pbt_checks::*;
use pbt_engine::F;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::f64::consts::PI;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    single: bool,
    /// Latitude, longitude in degrees.
    a: [F; 2],
    b: [F; 2],
    radius: F,
}

/// Next to zero, where differences are precise however they are computed.
fn tiny() -> impl Strategy<Value = f64> {
    (gen::unit(), -24i32..=0).prop_map(|(u, e)| u * 10f64.powi(e))
}

fn latitude() -> BoxedStrategy<f64> {
    prop_oneof![
        4 => gen::unit().prop_map(|u| u * 90.0),
        2 => (-90i32..=90).prop_map(f64::from),
        2 => (-18i32..=18).prop_map(|v| f64::from(v) * 5.0),
        1 => prop_oneof![Just(90.0), Just(-90.0), Just(0.0)],
        1 => tiny(),
        1 => (gen::unit(), -7i32..=0, any::<bool>()).prop_map(|(u, e, south)| {
            let lat = 90.0 - u.abs() * 10f64.powi(e);
            if south { -lat } else { lat }
        }),
    ]
    .boxed()
}

fn longitude() -> BoxedStrategy<f64> {
    prop_oneof![
        4 => gen::unit().prop_map(|u| u * 180.0),
        2 => (-180i32..=180).prop_map(f64::from),
        1 => (-12i32..=24).prop_map(|v| f64::from(v) * 15.0),
        1 => gen::frac().prop_map(|u| u * 360.0),
        1 => prop_oneof![Just(180.0), Just(-180.0), Just(0.0), Just(360.0)],
        1 => tiny(),
    ]
    .boxed()
}

fn pair() -> impl Strategy<Value = Pair> {
    let offset = || {
        prop_oneof![
            2 => Just(0.0),
            3 => (gen::unit(), -24i32..=1).prop_map(|(u, e)| u * 10f64.powi(e)),
        ]
    };
    let radius = prop_oneof![
        3 => prop_oneof![Just(1.0), Just(6371.0), Just(3958.8), Just(6_371_008.8), Just(0.0)],
        1 => (gen::frac(), -3i32..=9).prop_map(|(u, e)| u * 10f64.powi(e)),
    ];
    (any::<bool>(), (latitude(), longitude()), (latitude(), longitude()), (offset(), offset()), 0u8..=9, radius).prop_map(
        |(single, (lat, lon), other, (dlat, dlon), kind, radius)| {
            let clamp = |lat: f64| lat.clamp(-90.0, 90.0);
            let (lat2, lon2) = match kind {
                // (Nearly) the same place, and across the antimeridian
                0 | 1 => (clamp(lat + dlat), lon + dlon),
                2 => (clamp(lat + dlat), if lon > 0.0 { lon - 360.0 } else { lon + 360.0 } + dlon),
                // (Nearly) antipodal
                3 | 4 => (clamp(-lat + dlat), if lon > 0.0 { lon - 180.0 } else { lon + 180.0 } + dlon),
                // Along a meridian, along a parallel
                5 => (other.0, lon + dlon),
                6 => (clamp(lat + dlat), other.1),
                _ => other,
            };
            let round = |v: f64| F(if single { gen::single(v) } else { v });
            Pair { single, a: [round(lat), round(lon)], b: [round(lat2), round(lon2)], radius: round(radius) }
        },
    )
}

/// The difference `b - a` in radians, accurate even for nearly equal values.
fn delta(a: f64, b: f64) -> f64 {
    (b - a).to_radians()
}

struct Reference {
    /// Haversine of the central angle, and of its supplement.
    hav: f64,
    anti: f64,
    phi: [f64; 2],
    dphi: f64,
    dlambda: f64,
}

fn reference(c: &Pair) -> Reference {
    let (a, b) = (c.a.map(|v| v.0), c.b.map(|v| v.0));
    let phi = [a[0].to_radians(), b[0].to_radians()];
    // Exact on the poles
    let cos = |lat: f64| (90.0 - lat.abs()).to_radians().sin();
    let (dphi, dlambda) = (delta(a[0], b[0]), delta(a[1], b[1]));
    let coscos = cos(a[0]) * cos(b[0]);
    // The second formula is the first one, with `b` replaced by its antipode
    Reference {
        hav: (dphi / 2.0).sin().powi(2) + coscos * (dlambda / 2.0).sin().powi(2),
        anti: ((a[0] + b[0]).to_radians() / 2.0).sin().powi(2) + coscos * (dlambda / 2.0).cos().powi(2),
        phi,
        dphi,
        dlambda,
    }
}

fn distance<T: Fl + Float>(c: &Pair, ctx: &mut Ctx) -> CheckResult {
    let at = |p: &[F; 2]| Point2::new(T::of(p[0].0), T::of(p[1].0));
    let radius = T::of(c.radius.0);
    let (a, b) = (at(&c.a), at(&c.b));
    let r = reference(c);

    let eps = 8.0 * T::EPS;
    let tiny = 4.0 * if T::SINGLE { f64::from(f32::MIN_POSITIVE) } else { f64::MIN_POSITIVE };
    let (sin_phi, sin_lambda) = ((r.dphi / 2.0).sin().abs(), (r.dlambda / 2.0).sin().abs());
    let (cos_a, cos_b) = (r.phi[0].cos().abs(), r.phi[1].cos().abs());
    // What rounding each angle (before or after subtracting them), and each operation, can do to the haversine
    let size = |axis: usize| (c.a[axis].0.abs() + c.b[axis].0.abs()).to_radians();
    let e_phi = eps * (r.dphi.abs() + size(0)) / 2.0;
    let e_lambda = eps * (r.dlambda.abs() + size(1)) / 2.0;
    let slack = eps * r.hav
        + (2.0 * sin_phi * e_phi + e_phi * e_phi)
        + (cos_a + eps) * (cos_b + eps) * (2.0 * sin_lambda * e_lambda + e_lambda * e_lambda)
        + sin_lambda * sin_lambda * (eps * (cos_a + cos_b) + eps * eps)
        + tiny;
    let anti_slack = slack + eps;
    let angle = |hav: f64, anti: f64| 2.0 * hav.max(0.0).sqrt().atan2(anti.max(0.0).sqrt());
    let lowest = angle(r.hav - slack, r.anti + anti_slack) * (1.0 - eps);
    let highest = angle(r.hav + slack, r.anti - anti_slack) * (1.0 + eps);
    let expected = angle(r.hav, r.anti);
    let rad = radius.f64();

    for (from, to) in [(a, b), (b, a)] {
        let got = calculate_haversine_distance(from, to, radius).f64();
        ensure!(
            got >= 0.0 && got >= lowest * rad - tiny && got <= highest * rad + tiny,
            "from {from:?} to {to:?} with a radius of {radius}: {got} instead of {} (within {} to {})",
            expected * rad, lowest * rad, highest * rad
        );
        ensure!(
            got <= PI * rad * (1.0 + 2.0 * T::EPS) + tiny,
            "from {from:?} to {to:?} with a radius of {radius}: {got} is more than half of the circumference"
        );
    }
    for p in [a, b] {
        let got = calculate_haversine_distance(p, p, radius).f64();
        ensure!(got == 0.0, "from {p:?} to itself: {got}");
    }
    ctx.label_if(r.anti < 1e-6, "nearly antipodal");
    ctx.label_if(r.anti <= 4.0 * T::EPS, "antipodal up to rounding");
    ctx.label_if(r.hav < 1e-6 && r.hav > 0.0, "nearby");
    ctx.label_if(r.hav < 1e-20, "coincident");
    ctx.label_if(r.dlambda.abs() > PI, "longitudes differ by more than half a turn");
    ctx.label_if(cos_a < 1e-6 || cos_b < 1e-6, "pole");
    ctx.nontrivial_if(rad > 0.0 && expected > 0.0 && lowest > expected * 0.9 && highest < expected * 1.1);
    Ok(())
}

fn bearing<T: Fl + Float>(c: &Pair, ctx: &mut Ctx) -> CheckResult {
    let at = |p: &[F; 2]| Point2::new(T::of(p[0].0), T::of(p[1].0));
    let (a, b) = (at(&c.a), at(&c.b));
    let got_t: T = calculate_sphere_bearing(a, b);
    let got = got_t.f64();
    let turn = if T::SINGLE { f64::from(std::f32::consts::TAU) } else { std::f64::consts::TAU };
    ensure!(
        got >= 0.0 && got < turn,
        "bearing from {a:?} to {b:?}: {got} is not within a single turn"
    );

    let r = reference(c);
    let cos_b = (90.0 - c.b[0].0.abs()).to_radians().sin();
    let east = r.dlambda.sin() * cos_b;
    let north = r.dphi.sin() + 2.0 * r.phi[0].sin() * cos_b * (r.dlambda / 2.0).sin().powi(2);
    let reach = east.hypot(north);
    // Rounding moves the direction by this much at most, compared to its length
    let slack = 8.0 * T::EPS * (1.0 + r.dlambda.abs());
    if reach <= 16.0 * slack {
        ctx.label("undetermined direction");
        return Ok(());
    }
    let expected = east.atan2(north);
    let off = (got - expected).rem_euclid(std::f64::consts::TAU);
    let off = off.min(std::f64::consts::TAU - off);
    let tolerance = 2.0 * slack / reach + 8.0 * T::EPS * 8.0;
    ensure!(
        off <= tolerance,
        "bearing from {a:?} to {b:?}: {got} instead of {}", expected.rem_euclid(std::f64::consts::TAU)
    );
    ctx.label(["north-east", "south-east", "south-west", "north-west"][(got / (PI / 2.0)) as usize % 4]);
    ctx.label_if(r.dlambda.abs() > PI, "longitudes differ by more than half a turn");
    ctx.nontrivial_if(tolerance < 0.01);
    Ok(())
}

fn main() {
    pbt_engine::main(vec![
        Prop::new(
            "P13", 4_000_000, 150_000_000,
            "two places in f32 or f64 (arbitrary, on poles, the equator, meridians and both sides of the antimeridian, nearly coincident, nearly antipodal) and a radius, compared with a reference in f64 which has no cancellation, within what rounding the angles can change, in both directions. Non-trivial: a positive distance which is determined to within a tenth",
            pair(),
            |c: &Pair, ctx| if c.single { distance::<f32>(c, ctx) } else { distance::<f64>(c, ctx) },
        ).assuming(&["latitudes within -90 to 90 degrees, longitudes within -360 to 560 degrees, finite radii of at least zero"]),
        Prop::new(
            "P14", 4_000_000, 150_000_000,
            "the same places; the bearing must be within [0, 2 pi) and, unless the places are so close (or so close to antipodal, or at a pole) that rounding determines it, that of the tangent vector computed in f64. Non-trivial: the bearing is determined to within 0.01 radians",
            pair(),
            |c: &Pair, ctx| if c.single { bearing::<f32>(c, ctx) } else { bearing::<f64>(c, ctx) },
        ).assuming(&["latitudes within -90 to 90 degrees, longitudes within -360 to 560 degrees"]),
    ]);
}
