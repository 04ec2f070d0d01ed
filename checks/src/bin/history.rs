//! P31: calls do not depend on each other.
use cfgdriver::{eval, Call, Reply, Request};
use mapping_algorithms::kd_tree::KDTree;
use mapping_algorithms::point_clouds::{self as clouds, ICPConfiguration, ICPError, ICPSuccess};
use mapping_algorithms::polygons;
use nalgebra::{Point, Point2, UnitComplex, UnitQuaternion};
use num_traits::{real::Real, AsPrimitive};
use pbt_checks::requests::*;
use pbt_checks::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::fmt::Debug;
use std::io::{BufRead, BufReader, Read, Write};
use std::marker::PhantomData;
use std::os::fd::FromRawFd;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Barrier;
use std::time::{Duration, Instant};

/// How a call follows from an earlier one.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Change {
    /// Not at all.
    Same,
    /// The other precision.
    Precision,
    /// The points in reverse.
    Reverse,
    /// One point less.
    Drop,
    /// One point replaced with another one.
    Copy(u16, u16),
    /// Everything is further away in the first direction, by an integer.
    Move(u8),
    /// The other clouds, places, ends or polygon come first.
    Swap,
    /// Other parameters: whether to use a tree, the algorithm, the radius, ...
    Parameter,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Fresh(Case),
    Like(u16, Change),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    steps: Vec<Step>,
    threads_first: bool,
}

/// The clouds of a call, each of which may have any number of points.
fn lists(call: &mut Call) -> Vec<&mut Vec<Vec<f64>>> {
    match call {
        Call::Cloud { points, queries, .. } => Vec::from([points, queries]),
        Call::Hull { points, .. } => Vec::from([points]),
        Call::Inside { points, polygon } => Vec::from([points, polygon]),
        Call::Icp { source, target, .. } => Vec::from([source, target]),
        Call::Line { .. } | Call::Geo { .. } | Call::Generate { .. } => Vec::new(),
    }
}

fn changed(request: &Request, change: Change) -> Request {
    let mut request = request.clone();
    if let (Call::Hull { sorted, .. }, Change::Reverse | Change::Copy(..)) = (&mut request.call, change) {
        *sorted = false;
    }
    let call = &mut request.call;
    match change {
        Change::Same => (),
        Change::Precision => request.single = !request.single,
        Change::Reverse => lists(call).into_iter().for_each(|l| l.reverse()),
        Change::Drop => {
            if let Some(list) = lists(call).into_iter().next() {
                list.pop();
            }
        }
        Change::Copy(to, from) => {
            if let Some(list) = lists(call).into_iter().next() {
                if !list.is_empty() {
                    let (to, from) = (usize::from(to) % list.len(), usize::from(from) % list.len());
                    list[to] = list[from].clone();
                }
            }
        }
        Change::Move(by) => {
            let by = f64::from(by);
            match call {
                // These fit into their type, and are exact, only where they are
                Call::Hull { .. } => (),
                Call::Line { start, end, .. } => {
                    start[0] += by;
                    end[0] += by;
                }
                Call::Geo { a, b, .. } => {
                    a[1] = (a[1] + by).clamp(-180.0, 180.0);
                    b[1] = (b[1] - by).clamp(-180.0, 180.0);
                }
                Call::Generate { ranges, .. } => {
                    ranges[0].0 += by;
                    ranges[0].1 += by;
                }
                call => lists(call).into_iter().flatten().for_each(|p| p[0] += by),
            }
        }
        Change::Swap => match call {
            Call::Line { start, end, .. } => std::mem::swap(start, end),
            Call::Geo { a, b, .. } => std::mem::swap(a, b),
            Call::Inside { points, polygon } => std::mem::swap(points, polygon),
            Call::Icp { source, target, .. } => std::mem::swap(source, target),
            Call::Cloud { points, queries, .. } => std::mem::swap(points, queries),
            Call::Generate { ranges, .. } => ranges.reverse(),
            Call::Hull { .. } => (),
        },
        Change::Parameter => match call {
            Call::Cloud { shift, voxel, .. } => {
                shift.iter_mut().for_each(|v| *v += 1.0);
                *voxel *= 2.0;
            }
            Call::Line { out, .. } => *out = (*out + 1) % 8,
            Call::Hull { graham, sorted, .. } => {
                *graham = !*graham;
                *sorted = false;
            }
            Call::Inside { points, .. } => points.truncate(1),
            Call::Geo { radius, .. } => *radius *= 2.0,
            Call::Generate { count, .. } => *count += 1,
            Call::Icp { kd, iters, .. } => {
                *kd = !*kd;
                *iters += 1;
            }
        },
    }
    request
}

/// Everything that is needed for a case, in another process.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Order {
    requests: Vec<Request>,
    threads_first: bool,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
struct Answer {
    /// What is wrong, if anything.
    wrong: Option<String>,
    /// Which calls end the process, even alone: this is not about these.
    crashed: usize,
}

fn safely(request: &Request) -> Reply {
    std::panic::catch_unwind(|| eval(request)).unwrap_or_else(|payload| Reply {
        panicked: Some(
            payload
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| payload.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default(),
        ),
        ..Default::default()
    })
}

const THREADS: usize = 3;

/// For how long threads repeat short calls.
const ROUNDS: Duration = Duration::from_micros(500);

struct Shared<T>(T);
/// Only used with types which are `Sync`, see [`shareable`].
unsafe impl<T> Sync for Shared<T> {}

struct Probe<T>(PhantomData<T>);
trait Fallback {
    fn shareable(&self) -> bool;
}
impl<T> Fallback for &Probe<T> {
    fn shareable(&self) -> bool {
        false
    }
}
impl<T: Send + Sync> Probe<T> {
    fn shareable(&self) -> bool {
        true
    }
}

/// The types which cannot be used by several threads.
fn not_shareable() -> Vec<&'static str> {
    let mut all = Vec::new();
    macro_rules! probe {
        ($($t:ty),* $(,)?) => {$(
            #[allow(clippy::needless_borrow)]
            if !(&Probe::<$t>(PhantomData)).shareable() {
                all.push(stringify!($t));
            }
        )*};
    }
    probe!(
        KDTree<f32, 2>,
        KDTree<f32, 3>,
        KDTree<f64, 2>,
        KDTree<f64, 3>,
        ICPConfiguration<f32>,
        ICPConfiguration<f64>,
        ICPSuccess<f32, UnitComplex<f32>, 2>,
        ICPSuccess<f32, UnitQuaternion<f32>, 3>,
        ICPSuccess<f64, UnitComplex<f64>, 2>,
        ICPSuccess<f64, UnitQuaternion<f64>, 3>,
        ICPError<f32, 2>,
        ICPError<f64, 3>,
    );
    all
}

/// A tree which is queried by several threads at once answers like one which is not.
fn shared_tree<T: Fl, const N: usize>(points: &[Vec<f64>], queries: &[Vec<f64>]) -> Option<String> {
    let at = |ps: &[Vec<f64>]| -> Vec<Point<T, N>> {
        ps.iter().map(|p| Point::from(std::array::from_fn(|i| T::of(p[i])))).collect()
    };
    let (points, queries) = (at(points), at(queries));
    let tree = Shared(KDTree::from(points.as_slice()));
    let tree = &tree;
    let all: Vec<&Point<T, N>> = queries.iter().chain(&points).collect();
    let distance = |q: &Point<T, N>, p: Option<Point<T, N>>| p.map(|p| dist2(&raw(q), &raw(&p)));
    let barrier = Barrier::new(THREADS);
    let found: Vec<Vec<Option<f64>>> = std::thread::scope(|scope| {
        let threads: Vec<_> = (0..THREADS)
            .map(|t| {
                let (all, barrier, distance) = (&all, &barrier, &distance);
                scope.spawn(move || {
                    let tree = tree;
                    barrier.wait();
                    let mut found = vec![None; all.len()];
                    for i in 0..all.len() {
                        let at = (i + t * all.len() / THREADS) % all.len();
                        found[at] = distance(all[at], tree.0.nearest(all[at]));
                    }
                    found
                })
            })
            .collect();
        threads.into_iter().map(|t| t.join().unwrap_or_default()).collect()
    });
    let alone = KDTree::from(points.as_slice());
    let expected: Vec<_> = all.iter().map(|q| distance(q, alone.nearest(q))).collect();
    found
        .iter()
        .find(|f| **f != expected)
        .map(|f| format!("a tree queried by {THREADS} threads finds points at the squared distances {f:?} instead of {expected:?}"))
}

type Described = Vec<(&'static str, String)>;

fn guarded<R: Debug>(what: impl FnOnce() -> R) -> String {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(what)) {
        Ok(result) => format!("{result:?}"),
        Err(_) => "a panic".to_string(),
    }
}

fn any_nan<T: Fl, const N: usize>(points: &[Point<T, N>]) -> bool {
    points.iter().any(|p| raw(p).iter().any(|v| v.is_nan()))
}

/// What is said about a cloud, as text. Which of equally near points, and the order of a downsampled cloud, are left out.
fn described<T: Fl + AsPrimitive<T>, const N: usize>(points: &[Point<T, N>], queries: &[Point<T, N>]) -> Described
where
    usize: AsPrimitive<T>,
{
    let distances = |near: &dyn Fn(&Point<T, N>) -> Option<Point<T, N>>| -> Vec<Option<f64>> {
        queries.iter().map(|q| near(q).map(|p| dist2(&raw(q), &raw(&p)))).collect()
    };
    let mut all = Vec::from([
        ("lex_sort", guarded(|| clouds::lex_sort(points))),
        ("lex_sort_ref", guarded(|| clouds::lex_sort_ref(points))),
        ("calculate_point_cloud_center", guarded(|| clouds::calculate_point_cloud_center(points))),
        ("calculate_polygon_extents", guarded(|| polygons::calculate_polygon_extents(points))),
    ]);
    if !any_nan(points) {
        all.push((
            "find_nearest_neighbour_naive",
            guarded(|| distances(&|q| clouds::find_nearest_neighbour_naive(q, points))),
        ));
        all.push((
            "a tree",
            guarded(|| {
                let tree = KDTree::from(points);
                (tree.len(), distances(&|q| tree.nearest(q)))
            }),
        ));
        all.push((
            "downsample_point_cloud_voxel",
            guarded(|| {
                let down = clouds::downsample_point_cloud_voxel(points, T::of(1.0));
                let mut down: Vec<_> = down.iter().map(|p| format!("{p:?}")).collect();
                down.sort();
                down
            }),
        ));
    }
    all
}

/// What is said about it in two dimensions only.
fn described_in_plane<T: Fl + AsPrimitive<T> + Real>(points: &[Point2<T>], queries: &[Point2<T>]) -> Described
where
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
{
    let mut all = Vec::from([
        ("are_multiple_points_in_polygon", guarded(|| polygons::are_multiple_points_in_polygon(queries, points))),
        (
            "is_single_point_in_polygon",
            guarded(|| queries.iter().map(|q| polygons::is_single_point_in_polygon(q, points)).collect::<Vec<_>>()),
        ),
        ("graham_scan", guarded(|| polygons::graham_scan::<T, T>(points, false, None))),
    ]);
    if !any_nan(points) {
        all.push(("jarvis_march", guarded(|| polygons::jarvis_march::<T, T>(points, None))));
    }
    all
}

/// The same memory, with other points in it, is another cloud.
fn in_place<T: Fl, const N: usize>(
    points: &[Vec<f64>],
    queries: &[Vec<f64>],
    described: impl Fn(&[Point<T, N>], &[Point<T, N>]) -> Described,
) -> Option<String> {
    let at = |ps: &[Vec<f64>]| -> Vec<Point<T, N>> {
        ps.iter().map(|p| Point::from(std::array::from_fn(|i| T::of(p[i])))).collect()
    };
    let (first, queries) = (at(points), at(queries));
    let n = first.len();
    if n == 0 {
        return None;
    }
    let mut buffer = first.clone();
    let mut moved = first.clone();
    moved[n / 2][0] = moved[n / 2][0] + T::of(1.0);
    let mut broken = first.clone();
    broken[n - 1][N - 1] = T::of(f64::NAN);
    let reversed = first.iter().rev().copied().collect();
    let swapped = first.iter().map(|p| Point::from(std::array::from_fn(|i| p[N - 1 - i]))).collect();
    for other in [moved, broken, reversed, swapped] {
        buffer.copy_from_slice(&first);
        described(&buffer, &queries);
        buffer.copy_from_slice(&other);
        let got = described(&buffer, &queries);
        let expected = described(&other, &queries);
        if let Some((got, expected)) = got.iter().zip(&expected).find(|(a, b)| a != b) {
            return Some(format!(
                "{} gives {} for points which replace {first:?} in place, and {} for the same points elsewhere: {other:?}",
                got.0, got.1, expected.1
            ));
        }
    }
    None
}

/// Compares the calls, one after another and at the same time, with each of them alone.
fn together(order: &Order, alone: &[Reply]) -> Option<String> {
    let differ = |i: usize, reply: &Reply, when: &str| {
        alone[i]
            .difference(reply)
            .map(|d| format!("alone and {when}: {d}, for {:?}", order.requests[i]))
    };
    let n = order.requests.len();
    let threads = || -> Option<String> {
        let barrier = Barrier::new(THREADS);
        std::thread::scope(|scope| {
            let threads: Vec<_> = (0..THREADS)
                .map(|t| {
                    let (barrier, differ) = (&barrier, &differ);
                    scope.spawn(move || {
                        barrier.wait();
                        let start = Instant::now();
                        // At least twice, and as often as short calls need to meet
                        for round in 0..200 {
                            if round > 1 && start.elapsed() > ROUNDS {
                                break;
                            }
                            for i in 0..n {
                                let i = (i + t) % n;
                                let wrong = differ(i, &safely(&order.requests[i]), "next to the other calls, in other threads");
                                if wrong.is_some() {
                                    return wrong;
                                }
                            }
                        }
                        None
                    })
                })
                .collect();
            threads.into_iter().find_map(|t| t.join().expect("panics are caught"))
        })
    };
    if order.threads_first {
        if let Some(wrong) = threads() {
            return Some(wrong);
        }
    }
    // In order, again, and backwards
    for (k, i) in (0..n).chain(0..n).chain((0..n).rev()).enumerate() {
        if let Some(wrong) = differ(i, &safely(&order.requests[i]), &format!("as call {} of a sequence", k + 1)) {
            return Some(wrong);
        }
    }
    if !order.threads_first {
        if let Some(wrong) = threads() {
            return Some(wrong);
        }
    }
    macro_rules! both {
        ($t:ty, $n:literal, $points:expr, $queries:expr, $more:expr) => {
            shared_tree::<$t, $n>($points, $queries).or_else(|| {
                in_place::<$t, $n>($points, $queries, |points, queries| {
                    let mut all = described(points, queries);
                    all.extend($more(points, queries));
                    if any_nan(points) {
                        return all;
                    }
                    for kd in [true, false] {
                        let config = || ICPConfiguration::<$t>::builder().with_kd_tree(kd).with_max_iterations(3).build();
                        all.push(("icp (as the target)", guarded(|| clouds::icp(queries, points, config()))));
                        all.push(("icp (as the source)", guarded(|| clouds::icp(points, queries, config()))));
                    }
                    all
                })
            })
        };
    }
    order.requests.iter().find_map(|r| match (&r.call, r.single) {
        (Call::Cloud { dim: 2, points, queries, .. }, true) => both!(f32, 2, points, queries, described_in_plane),
        (Call::Cloud { dim: 2, points, queries, .. }, false) => both!(f64, 2, points, queries, described_in_plane),
        (Call::Cloud { points, queries, .. }, true) => both!(f32, 3, points, queries, |_, _| Vec::new()),
        (Call::Cloud { points, queries, .. }, false) => both!(f64, 3, points, queries, |_, _| Vec::new()),
        _ => None,
    })
}

/// Runs `what` in a new process, a copy of this one (which has only one thread). None: this process crashed.
fn apart(what: impl FnOnce() -> String) -> Option<String> {
    unsafe {
        let mut pipe = [0; 2];
        assert_eq!(libc::pipe(pipe.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "cannot fork");
        if pid == 0 {
            libc::close(pipe[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            // Neither an endless loop nor threads which wait for each other may last
            for (timer, seconds) in [(libc::ITIMER_VIRTUAL, 30), (libc::ITIMER_REAL, 120)] {
                let limit = libc::itimerval {
                    it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
                    it_value: libc::timeval { tv_sec: seconds, tv_usec: 0 },
                };
                libc::setitimer(timer, &limit, std::ptr::null_mut());
            }
            let text = what();
            let mut out = std::fs::File::from_raw_fd(pipe[1]);
            let _ = out.write_all(text.as_bytes());
            libc::_exit(0);
        }
        libc::close(pipe[1]);
        let mut text = String::new();
        let read = std::fs::File::from_raw_fd(pipe[0]).read_to_string(&mut text);
        let mut status = 0;
        assert_eq!(libc::waitpid(pid, &mut status, 0), pid);
        (read.is_ok() && libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 0).then_some(text)
    }
}

/// Answers orders. This process never calls the library itself, only its children do.
fn zygote() {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        let limit = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &limit);
    }
    std::panic::set_hook(Box::new(|_| {}));
    let mut stdout = std::io::stdout();
    for line in std::io::stdin().lines() {
        let Ok(line) = line else { return };
        let mut order: Order = serde_json::from_str(&line).expect("an order");
        let mut answer = Answer::default();
        let mut alone: Vec<Reply> = Vec::new();
        order.requests.retain(|request| {
            let reply = apart(|| serde_json::to_string(&safely(request)).expect("a reply"));
            match reply.and_then(|text| serde_json::from_str(&text).ok()) {
                Some(reply) => alone.push(reply),
                None => {
                    answer.crashed += 1;
                    return false;
                }
            }
            true
        });
        answer.wrong = match apart(|| together(&order, &alone).unwrap_or_default()) {
            None => Some(format!("each of these calls ends, but not all of them together: {:?}", order.requests)),
            Some(wrong) => (!wrong.is_empty()).then_some(wrong),
        };
        let text = serde_json::to_string(&answer).expect("an answer");
        if writeln!(stdout, "{text}").is_err() || stdout.flush().is_err() {
            return;
        }
    }
}

struct Zygote {
    _child: Child,
    input: ChildStdin,
    output: BufReader<ChildStdout>,
}

impl Zygote {
    fn start() -> Self {
        let path = std::env::current_exe().expect("the path of this program");
        let mut child = Command::new(path)
            .arg("--zygote")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .unwrap_or_else(|e| broken(&e.to_string()));
        let (input, output) = (child.stdin.take().expect("piped"), child.stdout.take().expect("piped"));
        Zygote { _child: child, input, output: BufReader::new(output) }
    }
    fn ask(&mut self, order: &Order) -> std::io::Result<Answer> {
        self.input.write_all((serde_json::to_string(order)? + "\n").as_bytes())?;
        self.input.flush()?;
        let mut line = String::new();
        self.output.read_line(&mut line)?;
        Ok(serde_json::from_str(&line)?)
    }
}

/// An error of the check, not of the library.
fn broken(what: &str) -> ! {
    eprintln!("the process which runs the calls: {what}");
    std::process::exit(2)
}

thread_local! {
    static ZYGOTE: RefCell<Option<Zygote>> = const { RefCell::new(None) };
}

fn kind(call: &Call) -> &'static str {
    match call {
        Call::Cloud { .. } => "point cloud",
        Call::Line { .. } => "line",
        Call::Hull { .. } => "hull",
        Call::Inside { .. } => "point in polygon",
        Call::Geo { .. } => "geography",
        Call::Generate { .. } => "generated cloud",
        Call::Icp { .. } => "registration",
    }
}

fn check(c: &History, ctx: &mut Ctx) -> CheckResult {
    let threads = not_shareable();
    ensure!(threads.is_empty(), "several threads cannot share {threads:?}");
    let mut requests: Vec<Request> = Vec::new();
    for step in &c.steps {
        requests.push(match step {
            Step::Fresh(case) => request(case),
            Step::Like(_, _) if requests.is_empty() => continue,
            Step::Like(which, change) => {
                let next = changed(&requests[usize::from(*which) % requests.len()], *change);
                // A tree or a line is searched from somewhere
                match &next.call {
                    Call::Cloud { queries, points, .. } if queries.is_empty() || points.is_empty() => continue,
                    _ => ctx.label(format!("{change:?}").split('(').next().unwrap_or_default().to_string()),
                }
                next
            }
        });
    }
    for request in &requests {
        ctx.label(kind(&request.call));
    }
    let texts: Vec<String> = requests.iter().map(|r| format!("{r:?}")).collect();
    ctx.nontrivial_if((1..texts.len()).any(|i| texts[i] != texts[0]));
    let order = Order { requests, threads_first: c.threads_first };
    let answer = ZYGOTE.with(|z| {
        z.borrow_mut()
            .get_or_insert_with(Zygote::start)
            .ask(&order)
            .unwrap_or_else(|e| broken(&e.to_string()))
    });
    ctx.label_if(answer.crashed > 0, "a call which crashes the process, alone");
    match answer.wrong {
        Some(wrong) => Err(wrong),
        None => Ok(()),
    }
}

fn history() -> impl Strategy<Value = History> {
    let change = prop_oneof![
        Just(Change::Same),
        Just(Change::Precision),
        Just(Change::Reverse),
        Just(Change::Drop),
        (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Change::Copy(a, b)),
        (1u8..=3).prop_map(Change::Move),
        Just(Change::Swap),
        Just(Change::Parameter),
    ];
    let step = prop_oneof![
        1 => cases().prop_map(Step::Fresh),
        2 => (any::<u16>(), change).prop_map(|(which, change)| Step::Like(which, change)),
    ];
    (cases(), vec(step, 1..=4), any::<bool>()).prop_map(|(first, more, threads_first)| {
        let mut steps = Vec::from([Step::Fresh(first)]);
        steps.extend(more);
        History { steps, threads_first }
    })
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--zygote") {
        return zygote();
    }
    pbt_engine::main(vec![Prop::new(
        "P31",
        16_000,
        400_000,
        "2 to 5 calls of any part of the library, most of which resemble an earlier one (other precision, order, place or \
         parameters, a point less or replaced, ends or clouds exchanged): each is evaluated in a process of its own, and all \
         of them in another one, in order, again, backwards, and in three threads at once (before or after that); trees are \
         also queried by three threads, and clouds are replaced with others (also with a NaN) in the same memory. Every observation has to be the same as in the process of its own. Non-trivial: at \
         least two different calls",
        history(),
        check,
    )
    .assuming(&["interleavings of threads are those which happen, there is no control over the scheduler"])]);
}
