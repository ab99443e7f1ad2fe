//! What stabby says of the layout of abi_stable's types, and of the C types that stand for every type (its abi_stable and
//! experimental-ctypes features). See sum/common.rs.
#![allow(clippy::all, unused_macros, dead_code)]
#![recursion_limit = "512"]
include!("../sum/common.rs");
include!("../sum/facts.rs");
use abi_stable::{external_types::*, std_types::*, RMut, RRef};
/// Says how many niches the type really has: stabby may know fewer of them than there are, but must then say that there
/// are several.
fn fact2<T: IStable>(c: &mut Cx, said: J, is: J) {
    fact::<T>(c, said);
    if wants(c, "layout") {
        c.o.trace_meta(obj! {t: is}, vec![niches::<T>()], J::S(std::any::type_name::<T>().into()));
    }
}
fn main() {
    run(|c| {
        facts(c);
        each!(ty, c, [P12, P21, P1z2, Pz21, P14, P41, Pb1, P1b, P181, P1z81, PP, Pmix, PRes, POpt, PTag, A4, A8, A16, A2, Sz1, Sunit, T2<u8, NonZeroU32>, T2<bool, u16>,
            [u8; 3], [NonZeroU16; 2], [P12; 2], Mu<bool>, U12, Uz8, Uc<P12>, Tg8, Tg16, Tg32, Tg8b, F8, F32, SOption<u8>, SOption<P12>, SOption<SOption<u64>>,
            SResult<P12, u32>, SResult<NonZeroU32, u64>, SResult<SOption<u16>, P12>]);
        macro_rules! facts {
            ($k: expr; $($t: ty),* $(,)?) => { $(fact::<$t>(c, $k);)* };
            ($k: expr, $is: expr; $($t: ty),* $(,)?) => { $(fact2::<$t>(c, $k, $is);)* };
        }
        let n = || ex!("nz", 8, 8);
        let p = || ex!("p", 8, 8);
        facts!(n(); RRef<'static, u8>, RMut<'static, u64>);
        facts!(ex!("p", 8, 8); Option<RRef<'static, u8>>, Option<RMut<'static, RString>>);
        facts!(ex!("p", 16, 8); RSlice<'static, u8>, RSliceMut<'static, RString>, RStr<'static>);
        facts!(ex!("st", ex!(p(), n())); RArc<u8>, RArc<RString>, ROnce);
        facts!(ex!("st", ex!(ex!("p", 8, 8), ex!("p", 4, 4))); RDuration);
        facts!(ex!("p", 1, 1); Tuple1<u8>);
        facts!(ex!("nz", 1, 1); Tuple1<NonZeroU8>);
        facts!(ex!("st", ex!(ex!("p", 1, 1), ex!("p", 8, 8))); Tuple2<u8, u64>);
        facts!(ex!("st", ex!(ex!("nz", 4, 4), ex!("rng", 2, 255))); Tuple2<NonZeroU32, bool>);
        facts!(ex!("st", ex!(n(), p(), p(), p())), ex!("st", ex!(n(), p(), p(), n())); RVec<u8>, RVec<RString>, RString);
        facts!(ex!("st", ex!(n(), p())), ex!("st", ex!(n(), n())); RBox<u8>, RBox<RString>);
        facts!(ex!("st", ex!(n(), p(), p())), ex!("st", ex!(n(), n(), n())); RHashMap<u8, u64>, RBoxError, SendRBoxError, UnsyncRBoxError);
        facts!(ex!("st", ex!(p(), ex!("uc", ex!("p", 1, 1)), n())); RMutex<u8>, RRwLock<u8>);
        facts!(ex!("st", ex!(p(), ex!("uc", ex!("nz", 8, 8)), n())); RMutex<&'static u8>);
        facts!(ex!("opt", ex!("st", ex!(n(), p(), p(), p()))); SOption<RVec<u8>>, SOption<RString>);
        facts!(ex!("res", ex!("st", ex!(n(), p())), ex!("p", 8, 8)); SResult<RBox<u8>, u64>);
        facts!(ex!("res", ex!("p", 16, 8), ex!("st", ex!(n(), p(), p()))); SResult<RStr<'static>, RBoxError>);
    });
}
