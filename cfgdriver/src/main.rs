//! Answers requests, one per line, using the library in whichever configuration this was built with.
use cfgdriver::{eval, Reply, Request};
use std::io::{BufRead, Write};

/// Formats whatever is logged.
struct Log;

impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, record: &log::Record) {
        std::hint::black_box(format!("{}", record.args()));
    }
    fn flush(&self) {}
}

#[cfg(feature = "tracing")]
mod spans {
    use std::sync::atomic::{AtomicU64, Ordering};
    use tracing::{span, Event, Metadata, Subscriber};

    /// Enters every span.
    pub struct All(pub AtomicU64);

    impl Subscriber for All {
        fn enabled(&self, _: &Metadata<'_>) -> bool {
            true
        }
        fn new_span(&self, _: &span::Attributes<'_>) -> span::Id {
            span::Id::from_u64(self.0.fetch_add(1, Ordering::Relaxed) + 1)
        }
        fn record(&self, _: &span::Id, _: &span::Record<'_>) {}
        fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
        fn event(&self, _: &Event<'_>) {}
        fn enter(&self, _: &span::Id) {}
        fn exit(&self, _: &span::Id) {}
    }
}

/// Limits the processor time which is used from now on: a signal ends the process.
fn cpu_limit(seconds: i64) {
    let limit = libc::itimerval {
        it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
        it_value: libc::timeval { tv_sec: seconds, tv_usec: 0 },
    };
    unsafe {
        libc::setitimer(libc::ITIMER_VIRTUAL, &limit, std::ptr::null_mut());
    }
}

fn main() {
    // Never outlive the check, nor exhaust the memory
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        let limit = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &limit);
    }
    std::panic::set_hook(Box::new(|_| {}));
    #[cfg(feature = "tracing")]
    {
        tracing::dispatcher::set_global_default(tracing::Dispatch::new(spans::All(Default::default())))
            .expect("the only subscriber");
        static LOG: Log = Log;
        log::set_logger(&LOG).expect("the only logger");
        log::set_max_level(log::LevelFilter::Trace);
    }
    #[cfg(not(feature = "tracing"))]
    let _ = Log;

    let stdin = std::io::stdin().lock();
    let mut stdout = std::io::stdout().lock();
    for line in stdin.lines() {
        let Ok(line) = line else { return };
        let request: Request = serde_json::from_str(&line).expect("a request");
        cpu_limit(30);
        let reply = std::panic::catch_unwind(|| eval(&request)).unwrap_or_else(|payload| Reply {
            panicked: Some(
                payload
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| payload.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default(),
            ),
            ..Default::default()
        });
        cpu_limit(0);
        if writeln!(stdout, "{}", serde_json::to_string(&reply).expect("a reply")).is_err() || stdout.flush().is_err() {
            return;
        }
    }
}
