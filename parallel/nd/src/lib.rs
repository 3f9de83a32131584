//! stands for the crate no_deadlocks, which is not installed: its locks have the interface of those of the standard library
pub use std::sync::{Condvar, LockResult, Mutex, MutexGuard, PoisonError, RwLock, RwLockReadGuard, RwLockWriteGuard, TryLockError, TryLockResult, WaitTimeoutResult};
pub mod prelude {
    pub use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
}
