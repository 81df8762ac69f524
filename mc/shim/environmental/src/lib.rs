//! A trait object in thread-local scope.
#[macro_export]
macro_rules! environmental {
    ($n:ident : trait $t:ident) => {
        #[allow(non_camel_case_types)]
        struct $n;
        thread_local! { static ENV: std::cell::RefCell<Vec<*mut (dyn $t + 'static)>> = std::cell::RefCell::new(Vec::new()); }
        impl $n {
            pub fn using<R, F: FnOnce() -> R>(p: &mut (dyn $t + 'static), f: F) -> R {
                ENV.with(|e| e.borrow_mut().push(p as *mut _));
                struct Back;
                impl Drop for Back { fn drop(&mut self) { ENV.with(|e| { e.borrow_mut().pop(); }) } }
                let _b = Back;
                f()
            }
            pub fn with<R, F: FnOnce(&mut (dyn $t + 'static)) -> R>(f: F) -> Option<R> {
                let p = ENV.with(|e| e.borrow().last().copied())?;
                Some(f(unsafe { &mut *p }))
            }
        }
    };
}
