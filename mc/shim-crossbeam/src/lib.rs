//! The part of crossbeam-utils that is used: scoped threads.
pub mod thread {
    use std::any::Any;
    use std::marker::PhantomData;
    use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
    use std::sync::{Arc, Mutex};
    use xi_shim::thread::{spawn_unchecked, JoinHandle, Result};

    type Join = Box<dyn FnOnce() -> Option<Box<dyn Any + Send>> + Send>;
    pub struct Scope<'env> {
        joins: Arc<Mutex<Vec<Join>>>,
        _p: PhantomData<&'env mut &'env ()>,
    }
    pub struct ScopedJoinHandle<'scope, T> {
        h: Arc<Mutex<Option<JoinHandle<T>>>>,
        _p: PhantomData<&'scope ()>,
    }
    impl<T> ScopedJoinHandle<'_, T> {
        pub fn join(self) -> Result<T> {
            let h = self.h.lock().unwrap().take().expect("joined twice");
            h.join()
        }
    }
    impl<'env> Scope<'env> {
        pub fn spawn<'scope, F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
        where
            F: FnOnce(&Scope<'env>) -> T + Send + 'env,
            T: Send + 'env,
        {
            let inner = Scope { joins: self.joins.clone(), _p: PhantomData };
            let h = Arc::new(Mutex::new(Some(unsafe { spawn_unchecked("reader".into(), move || f(&inner)) })));
            let h2 = h.clone();
            let j: Box<dyn FnOnce() -> Option<Box<dyn Any + Send>> + Send + 'env> =
                Box::new(move || {
                    let h = h2.lock().unwrap().take();
                    h.and_then(|h| h.join().err())
                });
            self.joins.lock().unwrap().push(unsafe { std::mem::transmute(j) });
            xi_shim::sched::point();
            ScopedJoinHandle { h, _p: PhantomData }
        }
    }
    pub fn scope<'env, F, R>(f: F) -> Result<R>
    where
        F: FnOnce(&Scope<'env>) -> R,
    {
        let s = Scope { joins: Arc::default(), _p: PhantomData };
        let r = catch_unwind(AssertUnwindSafe(|| f(&s)));
        let mut bad: Vec<Box<dyn Any + Send>> = vec![];
        loop {
            let j = s.joins.lock().unwrap().pop();
            match j {
                Some(j) => bad.extend(j()),
                None => break,
            }
        }
        match r {
            Err(e) => resume_unwind(e),
            Ok(_) if !bad.is_empty() => Err(Box::new(bad)),
            Ok(r) => Ok(r),
        }
    }
}
