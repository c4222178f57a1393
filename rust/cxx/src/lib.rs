//! Stand-in for the Rust side of the cxx bridge, which is not available
//! offline. The bridge module itself is expanded by tools/cxxgen.py.
use std::fmt;
use std::ops::Deref;
use std::pin::Pin;

/// What a failing C++ function threw.
#[derive(Debug)]
pub struct Exception {
    what: Box<str>,
}
impl Exception {
    #[doc(hidden)]
    pub fn new(s: String) -> Self {
        Exception { what: s.into_boxed_str() }
    }
    pub fn what(&self) -> &str {
        &self.what
    }
}
impl fmt::Display for Exception {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.what)
    }
}
impl std::error::Error for Exception {}

#[doc(hidden)]
pub trait Opaque {
    unsafe fn drop_raw(p: *mut Self);
}

/// Owner of a C++ object.
pub struct UniquePtr<T: Opaque> {
    p: *mut T,
}
impl<T: Opaque> UniquePtr<T> {
    pub fn null() -> Self {
        UniquePtr { p: std::ptr::null_mut() }
    }
    pub fn is_null(&self) -> bool {
        self.p.is_null()
    }
    pub fn as_ref(&self) -> Option<&T> {
        unsafe { self.p.as_ref() }
    }
    pub fn as_mut(&mut self) -> Option<Pin<&mut T>> {
        unsafe { self.p.as_mut().map(|r| Pin::new_unchecked(r)) }
    }
    pub fn pin_mut(&mut self) -> Pin<&mut T> {
        self.as_mut().expect("called pin_mut on a null UniquePtr")
    }
    pub fn into_raw(self) -> *mut T {
        let p = self.p;
        std::mem::forget(self);
        p
    }
    pub unsafe fn from_raw(p: *mut T) -> Self {
        UniquePtr { p }
    }
}
impl<T: Opaque> Deref for UniquePtr<T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.as_ref().expect("called deref on a null UniquePtr")
    }
}
impl<T: Opaque> Drop for UniquePtr<T> {
    fn drop(&mut self) {
        if !self.p.is_null() {
            unsafe { T::drop_raw(self.p) }
        }
    }
}

#[doc(hidden)]
pub mod wire {
    use super::{Opaque, UniquePtr};
    extern "C" {
        fn cxxstandin_out_new() -> *mut std::ffi::c_void;
        fn cxxstandin_out_data(o: *mut std::ffi::c_void, n: *mut usize) -> *const u8;
        fn cxxstandin_out_free(o: *mut std::ffi::c_void);
    }
    pub fn call(f: impl FnOnce(*mut std::ffi::c_void) -> i32) -> (i32, Vec<u8>) {
        unsafe {
            let o = cxxstandin_out_new();
            let rc = f(o);
            let mut n = 0usize;
            let p = cxxstandin_out_data(o, &mut n);
            let v = if n == 0 { Vec::new() } else { std::slice::from_raw_parts(p, n).to_vec() };
            cxxstandin_out_free(o);
            (rc, v)
        }
    }
    pub struct Reader<'a> {
        b: &'a [u8],
        i: usize,
    }
    impl<'a> Reader<'a> {
        pub fn new(p: *const u8, n: usize) -> Reader<'a> {
            Reader { b: if n == 0 { &[] } else { unsafe { std::slice::from_raw_parts(p, n) } }, i: 0 }
        }
        pub fn over(b: &'a [u8]) -> Reader<'a> {
            Reader { b, i: 0 }
        }
        fn take(&mut self, n: usize) -> &'a [u8] {
            let s = &self.b[self.i..self.i + n];
            self.i += n;
            s
        }
    }
    pub trait Put {
        fn put(&self, o: &mut Vec<u8>);
    }
    pub trait Get: Sized {
        fn get(i: &mut Reader) -> Self;
    }
    macro_rules! prim {
        ($($t:ty),*) => {$(
            impl Put for $t { fn put(&self, o: &mut Vec<u8>) { o.extend_from_slice(&self.to_ne_bytes()) } }
            impl Get for $t { fn get(i: &mut Reader) -> Self { <$t>::from_ne_bytes(i.take(std::mem::size_of::<$t>()).try_into().unwrap()) } }
        )*};
    }
    prim!(f64, f32, usize, isize, u64, i64, u32, i32, u16, i16, u8, i8);
    impl Put for bool {
        fn put(&self, o: &mut Vec<u8>) {
            o.push(*self as u8)
        }
    }
    impl Get for bool {
        fn get(i: &mut Reader) -> Self {
            i.take(1)[0] != 0
        }
    }
    impl Get for String {
        fn get(i: &mut Reader) -> Self {
            let n = usize::get(i);
            String::from_utf8_lossy(i.take(n)).into_owned()
        }
    }
    impl<T: Put> Put for Vec<T> {
        fn put(&self, o: &mut Vec<u8>) {
            self.len().put(o);
            for x in self {
                x.put(o)
            }
        }
    }
    impl<T: Get> Get for Vec<T> {
        fn get(i: &mut Reader) -> Self {
            let n = usize::get(i);
            (0..n).map(|_| T::get(i)).collect()
        }
    }
    impl<T: Put + ?Sized> Put for &T {
        fn put(&self, o: &mut Vec<u8>) {
            (**self).put(o)
        }
    }
    impl<T: Opaque> Get for UniquePtr<T> {
        fn get(i: &mut Reader) -> Self {
            unsafe { UniquePtr::from_raw(usize::get(i) as *mut T) }
        }
    }
}
