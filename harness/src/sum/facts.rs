// The layouts of types of core's and of the library's own.
type SBox<T> = stabby_abi::alloc::boxed::Box<T, stabby_abi::alloc::allocators::LibcAlloc>;
fn facts(c: &mut Cx) {
    use stabby_abi::alloc::{allocators::*, boxed::*, single_or_vec::SingleOrVec, string::String as SString, sync::*, vec::Vec as SVec};
    use std::sync::atomic::*;
    macro_rules! facts {
        ($k: expr; $($t: ty),* $(,)?) => { $(fact::<$t>(c, $k);)* };
    }
    type Al = LibcAlloc;
    // No niches.
    facts!(ex!("p", 0, 1); std::marker::PhantomData<NonZeroU64>, std::marker::PhantomPinned, LibcAlloc, RustAlloc, [NonZeroU8; 0], stabby_abi::End);
    facts!(ex!("p", 1, 1); Option<NonZeroU8>, Option<NonZeroI8>, Option<stabby_abi::num::NonMaxU8>, Result<NonZeroU8, ()>, Result<(), NonZeroI8>);
    facts!(ex!("p", 2, 2); Option<NonZeroU16>, i16);
    facts!(ex!("p", 2, 1); Option<T2<NonZeroU8, u8>>, Result<T2<u8, NonZeroI8>, ()>);
    facts!(ex!("p", 8, 8); usize, isize, *const u8, *mut SString, Option<&'static u8>, Option<&'static mut u8>, Option<SBox<u8>>,
        Option<extern "C" fn(u8) -> u8>, Result<(), Arc<u8, Al>>, Result<Weak<u8, Al>, ()>, Option<std::ptr::NonNull<u8>>, ManuallyDrop<i64>);
    facts!(ex!("p", 16, 16); Option<NonZeroU128>, i128);
    facts!(ex!("p", 16, 8); Option<stabby_abi::str::Str<'static>>, Option<stabby_abi::slice::SliceMut<'static, u64>>, Result<stabby_abi::slice::Slice<'static, u8>, ()>);
    facts!(ex!("uc", ex!("p", 1, 1)); AtomicU8, AtomicI8);
    facts!(ex!("uc", ex!("p", 2, 2)); AtomicU16, AtomicI16);
    facts!(ex!("uc", ex!("p", 4, 4)); AtomicU32, AtomicI32);
    facts!(ex!("uc", ex!("p", 8, 8)); AtomicU64, AtomicI64, AtomicUsize, AtomicIsize, AtomicPtr<u8>, stabby_abi::alloc::sync::AtomicArc<u8, Al>);
    facts!(ex!("uc", ex!("rng", 2, 255)); AtomicBool, UnsafeCell<bool>);
    facts!(ex!("uc", ex!("nz", 8, 8)); UnsafeCell<&'static u8>, UnsafeCell<SBox<u8>>);
    // One.
    facts!(ex!("nz", 1, 1); NonZeroI8, stabby_abi::num::NonMaxU8, ManuallyDrop<NonZeroU8>, T2<NonZeroU8, ()>, T2<(), NonZeroI8>);
    facts!(ex!("nz", 2, 2); NonZeroI16, ManuallyDrop<NonZeroU16>);
    facts!(ex!("nz", 4, 4); NonZeroI32);
    facts!(ex!("nz", 16, 16); NonZeroI128);
    facts!(ex!("nz", 8, 8); NonZeroUsize, NonZeroIsize, NonZeroI64, &'static mut u8, std::pin::Pin<&'static u8>, std::pin::Pin<SBox<u8>>, SBox<u8>, SBox<()>,
        stabby_abi::alloc::boxed::Box<u8, RustAlloc>, Arc<u8, Al>, Arc<SString, RustAlloc>, Weak<u8, Al>, extern "C" fn(), extern "C" fn(u8, SString) -> u8,
        unsafe extern "C" fn(u8, u8), extern "C-unwind" fn(u8), unsafe extern "C-unwind" fn() -> u8, ManuallyDrop<&'static u8>);
    let n = || ex!("nz", 8, 8);
    let p = || ex!("p", 8, 8);
    facts!(ex!("st", ex!(n(), p())); stabby_abi::str::Str<'static>, stabby_abi::str::StrMut<'static>, stabby_abi::slice::Slice<'static, bool>,
        stabby_abi::slice::SliceMut<'static, SString>, T2<&'static u8, u64>);
    facts!(ex!("st", ex!(ex!("nz", 1, 1), ex!("p", 1, 1))); T2<NonZeroU8, u8>, T2<NonZeroI8, i8>, T2<T2<NonZeroU8, ()>, u8>);
    // Several.
    let o = || ex!("rng", 2, 254);
    facts!(o(); std::cmp::Ordering, ManuallyDrop<std::cmp::Ordering>);
    facts!(ex!("st", ex!(o(), ex!("nz", 1, 1))); T2<std::cmp::Ordering, NonZeroU8>);
    facts!(ex!("st", ex!(ex!("nz", 1, 1), o())); T2<NonZeroI8, std::cmp::Ordering>);
    facts!(ex!("st", ex!(ex!("nz", 1, 1), ex!("rng", 2, 255))); T2<NonZeroU8, bool>);
    facts!(ex!("st", ex!(ex!("nz", 1, 1), ex!("nz", 1, 1))); T2<NonZeroU8, NonZeroU8>);
    facts!(ex!("st", ex!(n(), n())); T2<&'static u8, SBox<u8>>);
    facts!(ex!("st", ex!(n(), n(), n())); SVec<u8, Al>, SVec<SString, RustAlloc>, SString);
    facts!(ex!("st", ex!(n(), n())); BoxedSlice<u8, Al>, BoxedStr<Al>, ArcSlice<u8, Al>, ArcStr<Al>, WeakSlice<u8, Al>, WeakStr<Al>);
    let _ = std::mem::size_of::<SingleOrVec<u8, Al>>();
}
