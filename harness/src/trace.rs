//! A tracing subscriber, as applications install one: it formats everything it is given and
//! discards it. On in one case in eight; what the library does must not depend on it.
use std::fmt::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use tracing_core::field::{Field, Visit};
use tracing_core::span::{Attributes, Id, Record};
use tracing_core::{Event, Interest, LevelFilter, Metadata, Subscriber};

static ON: AtomicBool = AtomicBool::new(false);
static SEEN: AtomicU64 = AtomicU64::new(0);

struct Sink(u64);

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}

impl Visit for Sink {
    fn record_debug(&mut self, field: &Field, value: &dyn std::fmt::Debug) {
        let _ = write!(self, "{}={:?}", field.name(), value);
    }
}

struct All;

impl Subscriber for All {
    fn register_callsite(&self, _: &'static Metadata<'static>) -> Interest {
        Interest::sometimes()
    }
    fn enabled(&self, _: &Metadata<'_>) -> bool {
        ON.load(Relaxed)
    }
    fn max_level_hint(&self) -> Option<LevelFilter> {
        Some(LevelFilter::TRACE)
    }
    fn new_span(&self, span: &Attributes<'_>) -> Id {
        span.record(&mut Sink(0));
        Id::from_u64(SEEN.fetch_add(1, Relaxed) + 1)
    }
    fn record(&self, _: &Id, values: &Record<'_>) {
        values.record(&mut Sink(0));
    }
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, event: &Event<'_>) {
        let mut s = Sink(0);
        event.record(&mut s);
        SEEN.fetch_add(1, Relaxed);
    }
    fn enter(&self, _: &Id) {}
    fn exit(&self, _: &Id) {}
}

pub fn install() {
    let _ = tracing_core::dispatcher::set_global_default(tracing_core::Dispatch::new(All));
}

pub fn set(on: bool) {
    ON.store(on, Relaxed);
}

pub fn on() -> bool {
    ON.load(Relaxed)
}

/// Spans and events formatted so far.
pub fn seen() -> u64 {
    SEEN.load(Relaxed)
}

/// What a process started now is told about it.
pub fn env() -> Option<(&'static str, &'static str)> {
    on().then_some(("BSPMON_TRACE", "1"))
}
