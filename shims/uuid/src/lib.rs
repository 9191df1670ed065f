//! Stand-in for `uuid`: one number after the other.
use std::cell::Cell;
use std::fmt;
thread_local! { static NEXT: Cell<u32> = const { Cell::new(0) }; }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Uuid(u32);
impl Uuid {
    pub fn new_v4() -> Uuid {
        Uuid(NEXT.with(|n| {
            n.set(n.get() + 1);
            n.get()
        }))
    }
}
impl fmt::Display for Uuid {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
