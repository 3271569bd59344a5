//! What the runtime modules see as `std`: everything real except threads,
//! locks, atomics, the clock and the last OS error.
pub use ::std::*;

pub mod time {
    pub use ::std::time::Duration;
    use crate::world::w;
    /// Nanoseconds on the simulated clock; overflows where the real one does.
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
    pub struct Instant(pub Duration);
    impl Instant {
        pub fn now() -> Instant {
            w().now += 50;
            Instant(Duration::from_nanos(w().now))
        }
        pub fn checked_add(&self, d: Duration) -> Option<Instant> {
            let r = self.0.checked_add(d)?;
            if r.as_secs() > i64::MAX as u64 { None } else { Some(Instant(r)) }
        }
        pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
            self.0.checked_sub(d).map(Instant)
        }
        pub fn elapsed(&self) -> Duration {
            Instant::now().0 - self.0
        }
        pub fn duration_since(&self, o: Instant) -> Duration {
            self.0.saturating_sub(o.0)
        }
        pub fn saturating_duration_since(&self, o: Instant) -> Duration {
            self.0.saturating_sub(o.0)
        }
        pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
            self.0.checked_sub(o.0)
        }
        pub fn ns(&self) -> u64 {
            self.0.as_nanos().min(u64::MAX as u128) as u64
        }
    }
    impl ::std::ops::Add<Duration> for Instant {
        type Output = Instant;
        fn add(self, d: Duration) -> Instant {
            self.checked_add(d).expect("overflow when adding duration to instant")
        }
    }
    impl ::std::ops::AddAssign<Duration> for Instant {
        fn add_assign(&mut self, d: Duration) {
            *self = *self + d;
        }
    }
    impl ::std::ops::Sub<Duration> for Instant {
        type Output = Instant;
        fn sub(self, d: Duration) -> Instant {
            self.checked_sub(d).expect("overflow when subtracting duration from instant")
        }
    }
    impl ::std::ops::Sub<Instant> for Instant {
        type Output = Duration;
        fn sub(self, o: Instant) -> Duration {
            self.duration_since(o)
        }
    }
}

pub mod io {
    pub use ::std::io::*;
    use crate::world::w;
    #[derive(Debug)]
    pub struct Error(::std::io::Error);
    impl Error {
        pub fn last_os_error() -> Error {
            Error(::std::io::Error::from_raw_os_error(*w().errno()))
        }
        pub fn raw_os_error(&self) -> Option<i32> {
            self.0.raw_os_error()
        }
        pub fn kind(&self) -> ::std::io::ErrorKind {
            self.0.kind()
        }
    }
    impl ::std::fmt::Display for Error {
        fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
            self.0.fmt(f)
        }
    }
}

pub mod process {
    pub use ::std::process::*;
    pub fn exit(code: i32) -> ! {
        crate::hooks::exited(code)
    }
}

pub mod env {
    pub use ::std::env::*;
    pub fn var_os(k: &str) -> Option<::std::ffi::OsString> {
        crate::hooks::env(k).map(|s| s.into())
    }
    pub fn var(k: &str) -> Result<String, ::std::env::VarError> {
        crate::hooks::env(k).map(|s| s.to_string()).ok_or(::std::env::VarError::NotPresent)
    }
}

pub mod thread {
    pub use ::std::thread::LocalKey;
    pub use ::std::thread::Result;
    use crate::world::w;
    use ::std::cell::UnsafeCell;
    use ::std::sync::Arc;
    pub struct JoinHandle<T> {
        i: usize,
        r: Arc<Slot<T>>,
    }
    struct Slot<T>(UnsafeCell<Option<T>>);
    unsafe impl<T> Send for Slot<T> {}
    unsafe impl<T> Sync for Slot<T> {}
    pub fn spawn<F, T>(f: F) -> JoinHandle<T>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let r = Arc::new(Slot(UnsafeCell::new(None)));
        let r2 = r.clone();
        let i = w().spawn_os(
            "thread",
            Box::new(move || {
                let v = f();
                unsafe { *r2.0.get() = Some(v) };
                // a thread that has returned is not gone at once
                w().yield_point();
                w().yield_point();
            }),
        );
        w().yield_point();
        JoinHandle { i, r }
    }
    impl<T> JoinHandle<T> {
        pub fn is_finished(&self) -> bool {
            w().yield_point();
            w().os_done(self.i)
        }
        pub fn join(self) -> Result<T> {
            let i = self.i;
            if w().cur == 0 {
                w().block_hard(&mut || w().os_done(i));
            } else {
                w().os_wait(move || w().os_done(i));
            }
            Ok(unsafe { (*self.r.0.get()).take().unwrap() })
        }
        pub fn thread(&self) -> Thread {
            Thread
        }
    }
    pub struct Thread;
    impl Thread {
        pub fn unpark(&self) {}
    }
    pub fn sleep(d: ::std::time::Duration) {
        w().yield_point();
        w().os_sleep(d.as_nanos() as u64);
    }
    pub fn yield_now() {
        w().yield_point();
    }
    #[derive(Default)]
    pub struct Builder;
    impl Builder {
        pub fn new() -> Builder {
            Builder
        }
        pub fn name(self, _: String) -> Builder {
            self
        }
        pub fn stack_size(self, _: usize) -> Builder {
            self
        }
        pub fn spawn<F, T>(self, f: F) -> ::std::io::Result<JoinHandle<T>>
        where
            F: FnOnce() -> T + Send + 'static,
            T: Send + 'static,
        {
            Ok(spawn(f))
        }
    }
}

/// Maps and sets whose sizes the harness can look at.
pub mod collections {
    pub use ::std::collections::*;
    use ::std::collections as c;
    use ::std::hash::Hash;

    static mut SIZES: Vec<Box<dyn Fn() -> usize>> = Vec::new();
    /// Entries in all hash maps and sets of the runtime modules.
    #[allow(static_mut_refs)]
    pub fn entries() -> usize {
        unsafe { SIZES.iter().map(|f| f()).sum() }
    }
    #[allow(static_mut_refs)]
    fn add(f: Box<dyn Fn() -> usize>) {
        unsafe { SIZES.push(f) }
    }
    type Bh = ::std::hash::BuildHasherDefault<::std::collections::hash_map::DefaultHasher>;
    pub struct HashMap<K, V>(*mut c::HashMap<K, V, Bh>);
    unsafe impl<K: Send, V: Send> Send for HashMap<K, V> {}
    impl<K: Eq + Hash + 'static, V: 'static> HashMap<K, V> {
        pub fn new() -> Self {
            let p = Box::into_raw(Box::new(c::HashMap::<K, V, Bh>::default()));
            add(Box::new(move || unsafe { (*p).len() }));
            HashMap(p)
        }
    }
    impl<K: Eq + Hash + 'static, V: 'static> Default for HashMap<K, V> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<K, V> ::std::ops::Deref for HashMap<K, V> {
        type Target = c::HashMap<K, V, Bh>;
        fn deref(&self) -> &Self::Target {
            unsafe { &*self.0 }
        }
    }
    impl<K, V> ::std::ops::DerefMut for HashMap<K, V> {
        fn deref_mut(&mut self) -> &mut Self::Target {
            unsafe { &mut *self.0 }
        }
    }
    pub struct HashSet<K>(*mut c::HashSet<K, Bh>);
    unsafe impl<K: Send> Send for HashSet<K> {}
    impl<K: Eq + Hash + 'static> HashSet<K> {
        pub fn new() -> Self {
            let p = Box::into_raw(Box::new(c::HashSet::<K, Bh>::default()));
            add(Box::new(move || unsafe { (*p).len() }));
            HashSet(p)
        }
    }
    impl<K: Eq + Hash + 'static> Default for HashSet<K> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<K> ::std::ops::Deref for HashSet<K> {
        type Target = c::HashSet<K, Bh>;
        fn deref(&self) -> &Self::Target {
            unsafe { &*self.0 }
        }
    }
    impl<K> ::std::ops::DerefMut for HashSet<K> {
        fn deref_mut(&mut self) -> &mut Self::Target {
            unsafe { &mut *self.0 }
        }
    }
}

pub mod sync {
    pub use ::std::sync::*;
    use crate::world::w;
    use ::std::cell::{Cell, UnsafeCell};

    #[derive(Debug)]
    pub struct Mutex<T> {
        held: Cell<usize>,
        v: UnsafeCell<T>,
    }
    unsafe impl<T: Send> Sync for Mutex<T> {}
    unsafe impl<T: Send> Send for Mutex<T> {}
    pub struct MutexGuard<'a, T>(&'a Mutex<T>);
    impl<T> Mutex<T> {
        pub const fn new(v: T) -> Self {
            Mutex { held: Cell::new(0), v: UnsafeCell::new(v) }
        }
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            w().yield_point();
            let me = w().cur + 1;
            if self.held.get() == me {
                w().abort("selflock", "an OS thread locks a mutex it already holds".into());
            }
            let p = &self.held as *const Cell<usize>;
            if w().cur == 0 {
                w().block_hard(&mut || unsafe { (*p).get() == 0 });
            } else if self.held.get() != 0 {
                w().os_wait(move || unsafe { (*p).get() == 0 });
            }
            self.held.set(me);
            Ok(MutexGuard(self))
        }
        pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, ()> {
            w().yield_point();
            if self.held.get() != 0 {
                return Err(());
            }
            self.held.set(w().cur + 1);
            Ok(MutexGuard(self))
        }
    }
    impl<T> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            self.0.held.set(0);
            w().yield_point();
        }
    }
    impl<T> ::std::ops::Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.v.get() }
        }
    }
    impl<T> ::std::ops::DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.0.v.get() }
        }
    }

    pub struct Once(Cell<bool>);
    unsafe impl Sync for Once {}
    impl Once {
        pub const fn new() -> Self {
            Once(Cell::new(false))
        }
        pub fn call_once(&self, f: impl FnOnce()) {
            if !self.0.replace(true) {
                f()
            }
        }
    }

    pub mod atomic {
        pub use ::std::sync::atomic::{Ordering, fence};
        use crate::world::w;
        use ::std::cell::UnsafeCell;
        macro_rules! int {
            ($($n:ident $t:ty),*) => {$(
                #[repr(transparent)]
                #[derive(Default)]
                pub struct $n(UnsafeCell<$t>);
                unsafe impl Sync for $n {}
                unsafe impl Send for $n {}
                impl ::std::fmt::Debug for $n {
                    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                        write!(f, "{}", unsafe { *self.0.get() })
                    }
                }
                #[allow(dead_code)]
                impl $n {
                    pub const fn new(v: $t) -> Self {
                        $n(UnsafeCell::new(v))
                    }
                    pub fn as_ptr(&self) -> *mut $t {
                        self.0.get()
                    }
                    /// Looks at the value without being part of the simulation.
                    pub fn peek(&self) -> $t {
                        unsafe { *self.0.get() }
                    }
                    fn rmw(&self, f: impl FnOnce($t) -> $t) -> $t {
                        w().yield_point();
                        w().touch(self.0.get() as usize, true);
                        unsafe {
                            let o = *self.0.get();
                            *self.0.get() = f(o);
                            o
                        }
                    }
                    pub fn load(&self, _: Ordering) -> $t {
                        w().yield_point();
                        w().touch(self.0.get() as usize, false);
                        unsafe { *self.0.get() }
                    }
                    pub fn store(&self, v: $t, _: Ordering) {
                        self.rmw(|_| v);
                    }
                    pub fn swap(&self, v: $t, _: Ordering) -> $t {
                        self.rmw(|_| v)
                    }
                    pub fn fetch_or(&self, v: $t, _: Ordering) -> $t {
                        self.rmw(|o| o | v)
                    }
                    pub fn fetch_and(&self, v: $t, _: Ordering) -> $t {
                        self.rmw(|o| o & v)
                    }
                    pub fn fetch_xor(&self, v: $t, _: Ordering) -> $t {
                        self.rmw(|o| o ^ v)
                    }
                    pub fn fetch_add(&self, v: $t, _: Ordering) -> $t {
                        self.rmw(|o| o.wrapping_add(v))
                    }
                    pub fn fetch_sub(&self, v: $t, _: Ordering) -> $t {
                        self.rmw(|o| o.wrapping_sub(v))
                    }
                    pub fn compare_exchange(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                        let o = self.rmw(|o| if o == a { b } else { o });
                        if o == a { Ok(o) } else { Err(o) }
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, x: Ordering, y: Ordering) -> Result<$t, $t> {
                        self.compare_exchange(a, b, x, y)
                    }
                    pub fn fetch_update(&self, _: Ordering, _: Ordering, mut f: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> {
                        let mut n = None;
                        let o = self.rmw(|o| { n = f(o); n.unwrap_or(o) });
                        if n.is_some() { Ok(o) } else { Err(o) }
                    }
                }
            )*};
        }
        int!(AtomicU32 u32, AtomicI32 i32, AtomicU64 u64, AtomicI64 i64, AtomicUsize usize, AtomicU8 u8);
        #[repr(transparent)]
        #[derive(Default, Debug)]
        pub struct AtomicBool(AtomicU8);
        impl AtomicBool {
            pub const fn new(v: bool) -> Self {
                AtomicBool(AtomicU8::new(v as u8))
            }
            pub fn load(&self, o: Ordering) -> bool {
                self.0.load(o) != 0
            }
            pub fn store(&self, v: bool, o: Ordering) {
                self.0.store(v as u8, o)
            }
            pub fn swap(&self, v: bool, o: Ordering) -> bool {
                self.0.swap(v as u8, o) != 0
            }
            pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
                self.0.fetch_or(v as u8, o) != 0
            }
            pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
                self.0.fetch_and(v as u8, o) != 0
            }
            pub fn compare_exchange(&self, a: bool, b: bool, x: Ordering, y: Ordering) -> Result<bool, bool> {
                self.0.compare_exchange(a as u8, b as u8, x, y).map(|v| v != 0).map_err(|v| v != 0)
            }
        }
    }
}
