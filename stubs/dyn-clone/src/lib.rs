//! Stand-in for dyn-clone (same API, same technique).
#[doc(hidden)] pub mod __private { pub use std::boxed::Box; pub use std::clone::Clone; pub struct Private; }
use __private::Private;
pub trait DynClone { #[doc(hidden)] fn __clone_box(&self, _: Private) -> *mut (); }
impl<T: Clone> DynClone for T { fn __clone_box(&self, _: Private) -> *mut () { Box::<T>::into_raw(Box::new(self.clone())) as *mut () } }
pub fn clone<T: DynClone>(t: &T) -> T { unsafe { *Box::from_raw(<T as DynClone>::__clone_box(t, Private) as *mut T) } }
pub fn clone_box<T: ?Sized + DynClone>(t: &T) -> Box<T> {
    let mut fat: *const T = t;
    unsafe { let data = &mut fat as *mut *const T as *mut *mut (); *data = <T as DynClone>::__clone_box(t, Private); Box::from_raw(fat as *mut T) }
}
#[macro_export] macro_rules! clone_trait_object { ($t:path) => { impl<'clone> ::std::clone::Clone for ::std::boxed::Box<dyn $t + 'clone> { fn clone(&self) -> Self { $crate::clone_box(&**self) } } }; }
