//! Lazy and OnceCell for one thread.
pub mod sync {
    use std::cell::{Cell, UnsafeCell};
    use std::ops::{Deref, DerefMut};
    pub struct OnceCell<T>(UnsafeCell<Option<T>>);
    unsafe impl<T: Send + Sync> Sync for OnceCell<T> {}
    impl<T> Default for OnceCell<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<T> OnceCell<T> {
        pub const fn new() -> Self {
            OnceCell(UnsafeCell::new(None))
        }
        pub fn get(&self) -> Option<&T> {
            unsafe { (*self.0.get()).as_ref() }
        }
        pub fn set(&self, v: T) -> Result<(), T> {
            if self.get().is_some() {
                return Err(v);
            }
            unsafe { *self.0.get() = Some(v) };
            Ok(())
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            if self.get().is_none() {
                let v = f();
                if self.set(v).is_err() {
                    panic!("reentrant init");
                }
            }
            self.get().unwrap()
        }
    }
    pub struct Lazy<T, F = fn() -> T> {
        cell: OnceCell<T>,
        init: Cell<Option<F>>,
    }
    unsafe impl<T, F: Send> Sync for Lazy<T, F> where OnceCell<T>: Sync {}
    impl<T, F> Lazy<T, F> {
        pub const fn new(f: F) -> Self {
            Lazy { cell: OnceCell::new(), init: Cell::new(Some(f)) }
        }
    }
    impl<T, F: FnOnce() -> T> Lazy<T, F> {
        pub fn force(this: &Lazy<T, F>) -> &T {
            this.cell.get_or_init(|| match this.init.take() {
                Some(f) => f(),
                None => panic!("Lazy instance has previously been poisoned"),
            })
        }
    }
    impl<T, F: FnOnce() -> T> Deref for Lazy<T, F> {
        type Target = T;
        fn deref(&self) -> &T {
            Lazy::force(self)
        }
    }
    impl<T, F: FnOnce() -> T> DerefMut for Lazy<T, F> {
        fn deref_mut(&mut self) -> &mut T {
            Lazy::force(self);
            unsafe { (*self.cell.0.get()).as_mut().unwrap() }
        }
    }
}
pub use sync as unsync;
