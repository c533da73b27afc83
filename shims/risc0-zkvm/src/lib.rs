//! Stand-in for the zkVM guest environment: records what the guest commits.
pub mod guest { pub mod env {
    use std::cell::RefCell;
    thread_local! {
        static FRAMES: RefCell<Vec<Vec<u8>>> = const { RefCell::new(Vec::new()) };
        static JOURNAL: RefCell<Vec<Vec<u8>>> = const { RefCell::new(Vec::new()) };
    }
    pub fn log(_: &str) {}
    pub fn read_frame() -> Vec<u8> { FRAMES.with(|f| f.borrow_mut().remove(0)) }
    pub fn commit_slice(b: &[u8]) { JOURNAL.with(|j| j.borrow_mut().push(b.to_vec())) }
    // test side
    pub fn set_frames(v: Vec<Vec<u8>>) { FRAMES.with(|f| *f.borrow_mut() = v); JOURNAL.with(|j| j.borrow_mut().clear()) }
    pub fn take_commits() -> Vec<Vec<u8>> { JOURNAL.with(|j| std::mem::take(&mut *j.borrow_mut())) }
} }
