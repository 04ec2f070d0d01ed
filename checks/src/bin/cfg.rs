//! P27: the configurations of the library agree.
use cfgdriver::{eval, Reply};
use mapping_algorithms::point_clouds::ICPConfiguration;
use mapping_algorithms::types::{AbstractIsometry, IsometryAbstractor};
use num_traits::AsPrimitive;
use pbt_checks::requests::*;
use pbt_checks::*;
use pbt_engine::F;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

/// The configurations which are compared with the default one.
const OTHERS: [(&str, &str); 3] = [
    ("cfg-nostd", "without the standard library"),
    ("cfg-bare", "without any feature"),
    ("cfg-tracing", "with tracing"),
];

struct Driver {
    child: Child,
    input: ChildStdin,
    output: BufReader<ChildStdout>,
}

impl Driver {
    fn start(which: &str) -> Self {
        let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let path = format!("{dir}/target/{which}/debug/cfgdriver");
        let mut child = Command::new(&path)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| {
                // An error of the check, not of the library
                eprintln!("cannot run {path}: {e}");
                std::process::exit(2)
            });
        let (input, output) = (child.stdin.take().expect("piped"), child.stdout.take().expect("piped"));
        Driver { child, input, output: BufReader::new(output) }
    }

    fn ask(&mut self, request: &str) -> Option<Reply> {
        self.input.write_all(request.as_bytes()).ok()?;
        self.input.flush().ok()?;
        let mut line = String::new();
        self.output.read_line(&mut line).ok()?;
        serde_json::from_str(&line).ok()
    }
}

thread_local! {
    static DRIVERS: RefCell<Vec<Driver>> = const { RefCell::new(Vec::new()) };
}

/// Whether rounding makes no difference to a registration, in either precision.
fn robust<T: Fl, R: icp_ref::Rot<T, N>, const N: usize>(
    source: &[P],
    target: &[P],
    (abs, interval, iters): (Option<F>, F, usize),
) -> Option<usize>
where
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
    f64: AsPrimitive<T>,
    IsometryAbstractor<T, N>: AbstractIsometry<T, N, RotType = R>,
{
    let (source, target) = (pts::<T, N>(source), pts::<T, N>(target));
    let config = ICPConfiguration::builder()
        .with_max_iterations(iters)
        .with_absolute_mse_threshold(abs.map(|v| T::of(v.0)))
        .with_mse_interval_threshold(T::of(interval.0))
        .build();
    let size = icp_ref::reach(&[&raws(&source), &raws(&target)]);
    icp_ref::calm(&source, &target, &config, (abs, interval, iters), size).ok()
}

fn check(c: &Case, ctx: &mut Ctx) -> CheckResult {
    if let Input::Icp { dim, source, target, iters, abs, interval, any: true, .. } = &c.call {
        if source.is_empty() || target.is_empty() {
            return Ok(());
        }
        let Some(rounds) = space!(c.single, *dim, robust(source, target, (*abs, *interval, *iters))) else {
            ctx.label("registration with close calls");
            return Ok(());
        };
        ctx.label_if(rounds > 8, "registration of more than 8 iterations");
    }
    let request = request(c);
    let std = std::panic::catch_unwind(|| eval(&request)).unwrap_or_else(|payload| Reply {
        panicked: Some(
            payload
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| payload.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default(),
        ),
        ..Default::default()
    });
    let class = match &c.call {
        Input::Cloud { points, .. } => {
            ctx.nontrivial_if(points.len() > 2);
            "point cloud"
        }
        Input::Line(_) => {
            ctx.nontrivial_if(std.exact[0].1.len() > 4);
            "line"
        }
        Input::Hull(h) => {
            ctx.nontrivial_if(std.exact.len() > 1);
            ctx.label_if(h.voxel.is_some(), "hull of a downsampled cloud");
            "hull"
        }
        Input::Inside(_) => {
            ctx.nontrivial_if(std.exact.get(1).is_some_and(|e| e.1.len() > 1));
            "point in polygon"
        }
        Input::Geo(p) => {
            ctx.nontrivial_if(p.a != p.b);
            "geography"
        }
        Input::Generate { count, .. } => {
            ctx.nontrivial_if(*count > 1);
            "generated cloud"
        }
        Input::Icp { .. } => {
            ctx.nontrivial_if(!std.approx.is_empty());
            ctx.label_if(std.approx.is_empty(), "registration fails");
            "registration"
        }
    };
    ctx.label(format!("{} {class}", if c.single { "single" } else { "double" }));

    let text = serde_json::to_string(&request).expect("serializes") + "\n";
    DRIVERS.with(|drivers| {
        let drivers = &mut *drivers.borrow_mut();
        if drivers.is_empty() {
            drivers.extend(OTHERS.iter().map(|(which, _)| Driver::start(which)));
        }
        for (driver, (which, name)) in drivers.iter_mut().zip(OTHERS) {
            let Some(reply) = driver.ask(&text) else {
                let status = driver.child.wait();
                *driver = Driver::start(which);
                return Err(format!("{name}, the library crashed with {status:?}, for {request:?}"));
            };
            if let Some(difference) = std.difference(&reply) {
                return Err(format!("by default and {name}: {difference}, for {request:?}"));
            }
        }
        Ok(())
    })
}

fn main() {
    pbt_engine::main(vec![Prop::new(
        "P27",
        800_000,
        20_000_000,
        "a call of any part of the library, evaluated in this process (all default features) and in three others, which \
         were built without the standard library, without any feature, and with tracing (every span being recorded, and \
         every message being formatted); non-trivial if the cloud has more than two points, the line more than one, the \
         hull exists, several points are looked up in a polygon, the places differ, or the registration converges",
        cases(),
        check,
    )
    .assuming(&[
        "elementary functions differ by a few units in the last place between the configurations",
        "results which are not specified are not compared: the order of a downsampled cloud, which of equally near points is returned",
    ])]);
}
