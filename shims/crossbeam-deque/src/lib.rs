//! Stand-in: queues shared by one thread.
use std::sync::{Arc, Mutex};
pub struct Worker<T>(Arc<Mutex<Vec<T>>>);
pub struct Stealer<T>(Arc<Mutex<Vec<T>>>);
impl<T> Worker<T> {
    pub fn new_lifo() -> Worker<T> {
        Worker(Arc::new(Mutex::new(Vec::new())))
    }
    pub fn push(&self, t: T) {
        self.0.lock().unwrap().push(t);
    }
    pub fn pop(&self) -> Option<T> {
        self.0.lock().unwrap().pop()
    }
    pub fn stealer(&self) -> Stealer<T> {
        Stealer(self.0.clone())
    }
}
pub enum Steal<T> {
    Empty,
    Success(T),
    Retry,
}
impl<T> Steal<T> {
    pub fn success(self) -> Option<T> {
        match self {
            Steal::Success(t) => Some(t),
            _ => None,
        }
    }
}
impl<T> Stealer<T> {
    pub fn steal_batch_and_pop(&self, dest: &Worker<T>) -> Steal<T> {
        if Arc::ptr_eq(&self.0, &dest.0) {
            return match dest.pop() {
                Some(t) => Steal::Success(t),
                None => Steal::Empty,
            };
        }
        let mut v = self.0.lock().unwrap();
        if v.is_empty() {
            Steal::Empty
        } else {
            Steal::Success(v.remove(0))
        }
    }
}
impl<T> std::fmt::Debug for Worker<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("Worker")
    }
}
impl<T> std::fmt::Debug for Stealer<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("Stealer")
    }
}
