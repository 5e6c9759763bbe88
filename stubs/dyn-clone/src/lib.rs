//! Clone trait that is object-safe.
mod sealed {
    pub trait Sealed {}
    impl<T: Clone> Sealed for T {}
    impl Sealed for str {}
    impl<T: Clone> Sealed for [T] {}
}
pub trait DynClone: sealed::Sealed {
    #[doc(hidden)]
    fn __clone_box(&self, _: Private) -> *mut ();
}
#[doc(hidden)]
pub struct Private(());
impl<T: Clone> DynClone for T {
    fn __clone_box(&self, _: Private) -> *mut () {
        Box::<T>::into_raw(Box::new(self.clone())) as *mut ()
    }
}
pub fn clone_box<T: ?Sized + DynClone>(t: &T) -> Box<T> {
    let mut fat: *const T = t;
    unsafe {
        let data = &mut fat as *mut *const T as *mut *mut ();
        *data = <T as DynClone>::__clone_box(t, Private(()));
    }
    unsafe { Box::from_raw(fat as *mut T) }
}
