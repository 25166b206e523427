//! merlin 3.0.0 with a recorder (see Cargo.toml).
mod constants;
mod strobe;
mod transcript;
pub use crate::transcript::{Transcript, TranscriptRng, TranscriptRngBuilder};

pub mod sim {
    use std::cell::RefCell;

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum Event {
        Message(&'static [u8], Vec<u8>),
        Challenge(&'static [u8], Vec<u8>),
    }
    thread_local! {
        static LOG: RefCell<Option<Vec<Event>>> = const { RefCell::new(None) };
    }
    /// Start recording what transcripts on this thread absorb and produce.
    pub fn record() {
        LOG.with(|l| *l.borrow_mut() = Some(vec![]));
    }
    /// Stop recording and return what was recorded.
    pub fn take() -> Vec<Event> {
        LOG.with(|l| l.borrow_mut().take().unwrap_or_default())
    }
    pub(crate) fn note(f: impl FnOnce() -> Event) {
        LOG.with(|l| {
            if let Some(v) = l.borrow_mut().as_mut() {
                v.push(f());
            }
        })
    }
}
