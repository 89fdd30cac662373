//! A tracing subscriber that takes everything and formats every field: logging must not change
//! what the code under test does.
use std::fmt::{Debug, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use tracing::field::{Field, Visit};
use tracing::{span, Event, Metadata, Subscriber};

#[derive(Default)]
pub struct Everything {
    next: AtomicU64,
    pub bytes: std::sync::Arc<AtomicU64>,
}
struct Count(u64);
impl Write for Count {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}
impl Visit for Count {
    fn record_debug(&mut self, _: &Field, v: &dyn Debug) {
        let _ = write!(self, "{v:?}");
    }
}
impl Subscriber for Everything {
    fn enabled(&self, _: &Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, a: &span::Attributes<'_>) -> span::Id {
        let mut c = Count(0);
        a.record(&mut c);
        self.bytes.fetch_add(c.0, Ordering::Relaxed);
        span::Id::from_u64(1 + self.next.fetch_add(1, Ordering::Relaxed))
    }
    fn record(&self, _: &span::Id, r: &span::Record<'_>) {
        r.record(&mut Count(0));
    }
    fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
    fn event(&self, e: &Event<'_>) {
        let mut c = Count(0);
        e.record(&mut c);
        self.bytes.fetch_add(c.0, Ordering::Relaxed);
    }
    fn enter(&self, _: &span::Id) {}
    fn exit(&self, _: &span::Id) {}
}

pub fn with<R>(on: bool, f: impl FnOnce() -> R) -> R {
    if !on {
        return f();
    }
    let e = Everything::default();
    let n = e.bytes.clone();
    tracing::subscriber::with_default(e, || {
        let r = f();
        assert!(n.load(Ordering::Relaxed) < u64::MAX);
        r
    })
}
