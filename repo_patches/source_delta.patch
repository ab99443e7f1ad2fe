From 02941f7596bce3ac61b7ed977433ba8a0517d6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 01/63] verif: instrumented atomics behind cfg(stabby_verif)

---
 stabby-abi/src/alloc/boxed.rs                 |   2 +-
 stabby-abi/src/alloc/collections/arc_btree.rs |   6 +-
 stabby-abi/src/alloc/mod.rs                   |   9 +-
 stabby-abi/src/alloc/sync.rs                  |   3 +-
 stabby-abi/src/atomics.rs                     | 355 ++++++++++++++++++
 stabby-abi/src/checked_import.rs              |   6 +-
 stabby-abi/src/lib.rs                         |   6 +
 stabby/src/lib.rs                             |   1 +
 stabby/src/time.rs                            |   3 +
 9 files changed, 377 insertions(+), 14 deletions(-)
 create mode 100644 stabby-abi/src/atomics.rs

diff --git a/stabby-abi/src/alloc/boxed.rs b/stabby-abi/src/alloc/boxed.rs
index 0369bb1..db08d08 100644
--- a/stabby-abi/src/alloc/boxed.rs
+++ b/stabby-abi/src/alloc/boxed.rs
@@ -382,7 +382,7 @@ impl<T, Alloc: IAlloc> From<Vec<T, Alloc>> for BoxedSlice<T, Alloc> {
         if capacity != 0 {
             // SAFETY: the AllocSlice is initialized, storing to it is safe.
             unsafe {
-                slice.start.prefix_mut().capacity = core::sync::atomic::AtomicUsize::new(capacity);
+                slice.start.prefix_mut().capacity = crate::atomics::AtomicUsize::new(capacity);
             }
             Self {
                 slice: AllocSlice {
diff --git a/stabby-abi/src/alloc/collections/arc_btree.rs b/stabby-abi/src/alloc/collections/arc_btree.rs
index d74a0f6..8c23a89 100644
--- a/stabby-abi/src/alloc/collections/arc_btree.rs
+++ b/stabby-abi/src/alloc/collections/arc_btree.rs
@@ -1,7 +1,5 @@
-use core::{
-    borrow::Borrow, marker::PhantomData, mem::MaybeUninit, ops::Deref, ptr::NonNull,
-    sync::atomic::AtomicPtr,
-};
+use crate::atomics::AtomicPtr;
+use core::{borrow::Borrow, marker::PhantomData, mem::MaybeUninit, ops::Deref, ptr::NonNull};
 
 use crate::alloc::{sync::Arc, AllocPtr, DefaultAllocator, IAlloc};
 
diff --git a/stabby-abi/src/alloc/mod.rs b/stabby-abi/src/alloc/mod.rs
index 472c5ac..ed7f7f5 100644
--- a/stabby-abi/src/alloc/mod.rs
+++ b/stabby-abi/src/alloc/mod.rs
@@ -13,7 +13,8 @@
 //
 
 #![allow(deprecated)]
-use core::{marker::PhantomData, mem::MaybeUninit, ptr::NonNull, sync::atomic::AtomicUsize};
+use crate::atomics::AtomicUsize;
+use core::{marker::PhantomData, mem::MaybeUninit, ptr::NonNull};
 
 use self::vec::ptr_diff;
 
@@ -226,11 +227,11 @@ impl IAlloc for core::convert::Infallible {
 #[crate::stabby]
 pub struct AllocPrefix<Alloc> {
     /// The strong count for reference counted types.
-    pub strong: core::sync::atomic::AtomicUsize,
+    pub strong: crate::atomics::AtomicUsize,
     /// The weak count for reference counted types.
-    pub weak: core::sync::atomic::AtomicUsize,
+    pub weak: crate::atomics::AtomicUsize,
     /// A slot to store a vector's capacity when it's turned into a boxed/arced slice.
-    pub capacity: core::sync::atomic::AtomicUsize,
+    pub capacity: crate::atomics::AtomicUsize,
     /// The origin of the prefix
     pub origin: NonNull<()>,
     /// A slot for the allocator.
diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 9036d1a..851ec98 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -18,9 +18,10 @@ use core::{
     marker::PhantomData,
     mem::{ManuallyDrop, MaybeUninit},
     ptr::NonNull,
-    sync::atomic::{AtomicPtr, AtomicUsize, Ordering},
 };
 
+use crate::atomics::{AtomicPtr, AtomicUsize, Ordering};
+
 use crate::{unreachable_unchecked, vtable::HasDropVt, Dyn, IStable, IntoDyn};
 
 use super::{
diff --git a/stabby-abi/src/atomics.rs b/stabby-abi/src/atomics.rs
new file mode 100644
index 0000000..64fba8b
--- /dev/null
+++ b/stabby-abi/src/atomics.rs
@@ -0,0 +1,355 @@
+//
+// Copyright (c) 2023 ZettaScale Technology
+//
+// This program and the accompanying materials are made available under the
+// terms of the Eclipse Public License 2.0 which is available at
+// http://www.eclipse.org/legal/epl-2.0, or the Apache License, Version 2.0
+// which is available at https://www.apache.org/licenses/LICENSE-2.0.
+//
+// SPDX-License-Identifier: EPL-2.0 OR Apache-2.0
+//
+
+//! Verification hook, only compiled with `--cfg stabby_verif`.
+//!
+//! Drop-in replacements for the atomics `stabby` uses, which report each operation to an installable
+//! observer right before it is performed (where a scheduler may take over) and right after.
+
+use crate::{IStable, B0, B1};
+use core::sync::atomic as real;
+pub use core::sync::atomic::Ordering;
+
+/// The nature of an atomic operation.
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum Kind {
+    /// A plain atomic load.
+    Load,
+    /// A plain atomic store.
+    Store,
+    /// A read-modify-write operation that succeeded.
+    Rmw,
+    /// A compare-exchange that failed (equivalent to a load).
+    CasFail,
+    /// A fence.
+    Fence,
+}
+/// The description of an atomic operation.
+#[derive(Clone, Copy, Debug)]
+pub struct Op {
+    /// False when about to be performed, true once performed.
+    pub done: bool,
+    /// The address of the atomic.
+    pub addr: usize,
+    /// The kind of operation (for a compare-exchange about to be performed, [`Kind::Rmw`]).
+    pub kind: Kind,
+    /// The ordering that applies.
+    pub order: Ordering,
+    /// The value before the operation, once performed.
+    pub old: usize,
+    /// The value after the operation, once performed.
+    pub new: usize,
+}
+/// An observer.
+pub type Hook = fn(&Op);
+static HOOK: real::AtomicPtr<()> = real::AtomicPtr::new(core::ptr::null_mut());
+/// Installs an observer.
+pub fn set_hook(hook: Hook) {
+    HOOK.store(hook as *mut (), Ordering::SeqCst);
+}
+#[inline(never)]
+fn report(done: bool, addr: usize, kind: Kind, order: Ordering, old: usize, new: usize) {
+    let hook = HOOK.load(Ordering::SeqCst);
+    if !hook.is_null() {
+        // SAFETY: only `set_hook` writes there.
+        let hook: Hook = unsafe { core::mem::transmute(hook) };
+        hook(&Op {
+            done,
+            addr,
+            kind,
+            order,
+            old,
+            new,
+        })
+    }
+}
+/// A fence that gets reported.
+pub fn fence(order: Ordering) {
+    report(false, 0, Kind::Fence, order, 0, 0);
+    real::fence(order);
+    report(true, 0, Kind::Fence, order, 0, 0);
+}
+
+macro_rules! common {
+    ([$($generics: tt)*] $name: ty, $real: ty, $val: ty, |$v: ident| $to: expr) => {
+        impl<$($generics)*> $name {
+            /// See the eponymous standard method.
+            pub const fn new(value: $val) -> Self {
+                Self(<$real>::new(value))
+            }
+            fn addr(&self) -> usize {
+                self as *const Self as usize
+            }
+            fn rmw(&self, order: Ordering, new: impl Fn($val) -> $val, f: impl FnOnce(&$real) -> $val) -> $val {
+                report(false, self.addr(), Kind::Rmw, order, 0, 0);
+                let old = f(&self.0);
+                report(true, self.addr(), Kind::Rmw, order, Self::to_usize(old), Self::to_usize(new(old)));
+                old
+            }
+            /// See the eponymous standard method.
+            pub fn load(&self, order: Ordering) -> $val {
+                report(false, self.addr(), Kind::Load, order, 0, 0);
+                let old = self.0.load(order);
+                report(true, self.addr(), Kind::Load, order, Self::to_usize(old), Self::to_usize(old));
+                old
+            }
+            /// See the eponymous standard method.
+            pub fn store(&self, value: $val, order: Ordering) {
+                report(false, self.addr(), Kind::Store, order, 0, 0);
+                self.0.store(value, order);
+                report(true, self.addr(), Kind::Store, order, 0, Self::to_usize(value));
+            }
+            /// See the eponymous standard method.
+            pub fn swap(&self, value: $val, order: Ordering) -> $val {
+                self.rmw(order, |_| value, |v| v.swap(value, order))
+            }
+            /// See the eponymous standard method.
+            /// # Errors
+            /// See the eponymous standard method.
+            pub fn compare_exchange(&self, current: $val, new: $val, success: Ordering, failure: Ordering) -> Result<$val, $val> {
+                report(false, self.addr(), Kind::Rmw, success, 0, 0);
+                let r = self.0.compare_exchange(current, new, success, failure);
+                match r {
+                    Ok(old) => report(true, self.addr(), Kind::Rmw, success, Self::to_usize(old), Self::to_usize(new)),
+                    Err(old) => report(true, self.addr(), Kind::CasFail, failure, Self::to_usize(old), Self::to_usize(old)),
+                }
+                r
+            }
+            /// See the eponymous standard method.
+            /// # Errors
+            /// See the eponymous standard method.
+            pub fn compare_exchange_weak(&self, current: $val, new: $val, success: Ordering, failure: Ordering) -> Result<$val, $val> {
+                self.compare_exchange(current, new, success, failure)
+            }
+            /// See the eponymous standard method.
+            /// # Errors
+            /// See the eponymous standard method.
+            pub fn fetch_update(&self, set_order: Ordering, fetch_order: Ordering, mut f: impl FnMut($val) -> Option<$val>) -> Result<$val, $val> {
+                let mut prev = self.load(fetch_order);
+                while let Some(next) = f(prev) {
+                    match self.compare_exchange_weak(prev, next, set_order, fetch_order) {
+                        x @ Ok(_) => return x,
+                        Err(next_prev) => prev = next_prev,
+                    }
+                }
+                Err(prev)
+            }
+            /// See the eponymous standard method.
+            pub fn get_mut(&mut self) -> &mut $val {
+                self.0.get_mut()
+            }
+            /// See the eponymous standard method.
+            pub fn into_inner(self) -> $val {
+                self.0.into_inner()
+            }
+            const fn to_usize($v: $val) -> usize { $to }
+        }
+    };
+}
+macro_rules! integer {
+    ($name: ident, $val: ty) => {
+        /// An instrumented atomic.
+        #[repr(transparent)]
+        pub struct $name(real::$name);
+        impl core::fmt::Debug for $name {
+            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
+                self.0.fmt(f)
+            }
+        }
+        impl Default for $name {
+            fn default() -> Self {
+                Self::new(0)
+            }
+        }
+        common!([] $name, real::$name, $val, |v| v as usize);
+        impl $name {
+            /// See the eponymous standard method.
+            pub fn fetch_add(&self, value: $val, order: Ordering) -> $val {
+                self.rmw(order, |v| v.wrapping_add(value), |v| v.fetch_add(value, order))
+            }
+            /// See the eponymous standard method.
+            pub fn fetch_sub(&self, value: $val, order: Ordering) -> $val {
+                self.rmw(order, |v| v.wrapping_sub(value), |v| v.fetch_sub(value, order))
+            }
+            /// See the eponymous standard method.
+            pub fn fetch_or(&self, value: $val, order: Ordering) -> $val {
+                self.rmw(order, |v| v | value, |v| v.fetch_or(value, order))
+            }
+            /// See the eponymous standard method.
+            pub fn fetch_and(&self, value: $val, order: Ordering) -> $val {
+                self.rmw(order, |v| v & value, |v| v.fetch_and(value, order))
+            }
+            /// See the eponymous standard method.
+            pub fn fetch_xor(&self, value: $val, order: Ordering) -> $val {
+                self.rmw(order, |v| v ^ value, |v| v.fetch_xor(value, order))
+            }
+            /// See the eponymous standard method.
+            pub fn fetch_max(&self, value: $val, order: Ordering) -> $val {
+                self.rmw(order, |v| v.max(value), |v| v.fetch_max(value, order))
+            }
+            /// See the eponymous standard method.
+            pub fn fetch_min(&self, value: $val, order: Ordering) -> $val {
+                self.rmw(order, |v| v.min(value), |v| v.fetch_min(value, order))
+            }
+        }
+        // SAFETY: `repr(transparent)` over the real atomic.
+        unsafe impl IStable for $name {
+            type Align = <real::$name as IStable>::Align;
+            type Size = <real::$name as IStable>::Size;
+            type UnusedBits = <real::$name as IStable>::UnusedBits;
+            type ForbiddenValues = <real::$name as IStable>::ForbiddenValues;
+            type HasExactlyOneNiche = B0;
+            type ContainsIndirections = B0;
+            #[cfg(feature = "experimental-ctypes")]
+            type CType = <real::$name as IStable>::CType;
+            const REPORT: &'static crate::report::TypeReport = <real::$name as IStable>::REPORT;
+            const ID: u64 = <real::$name as IStable>::ID;
+        }
+    };
+}
+integer!(AtomicU8, u8);
+integer!(AtomicUsize, usize);
+integer!(AtomicI64, i64);
+
+/// An instrumented atomic.
+#[repr(transparent)]
+pub struct AtomicPtr<T>(real::AtomicPtr<T>);
+impl<T> core::fmt::Debug for AtomicPtr<T> {
+    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
+        self.0.fmt(f)
+    }
+}
+impl<T> AtomicPtr<T> {
+    /// See the eponymous standard method.
+    pub const fn new(value: *mut T) -> Self {
+        Self(real::AtomicPtr::new(value))
+    }
+    fn addr(&self) -> usize {
+        self as *const Self as usize
+    }
+    /// See the eponymous standard method.
+    pub fn load(&self, order: Ordering) -> *mut T {
+        report(false, self.addr(), Kind::Load, order, 0, 0);
+        let old = self.0.load(order);
+        report(
+            true,
+            self.addr(),
+            Kind::Load,
+            order,
+            old as usize,
+            old as usize,
+        );
+        old
+    }
+    /// See the eponymous standard method.
+    pub fn store(&self, value: *mut T, order: Ordering) {
+        report(false, self.addr(), Kind::Store, order, 0, 0);
+        self.0.store(value, order);
+        report(true, self.addr(), Kind::Store, order, 0, value as usize);
+    }
+    /// See the eponymous standard method.
+    pub fn swap(&self, value: *mut T, order: Ordering) -> *mut T {
+        report(false, self.addr(), Kind::Rmw, order, 0, 0);
+        let old = self.0.swap(value, order);
+        report(
+            true,
+            self.addr(),
+            Kind::Rmw,
+            order,
+            old as usize,
+            value as usize,
+        );
+        old
+    }
+    /// See the eponymous standard method.
+    /// # Errors
+    /// See the eponymous standard method.
+    pub fn compare_exchange(
+        &self,
+        current: *mut T,
+        new: *mut T,
+        success: Ordering,
+        failure: Ordering,
+    ) -> Result<*mut T, *mut T> {
+        report(false, self.addr(), Kind::Rmw, success, 0, 0);
+        let r = self.0.compare_exchange(current, new, success, failure);
+        match r {
+            Ok(old) => report(
+                true,
+                self.addr(),
+                Kind::Rmw,
+                success,
+                old as usize,
+                new as usize,
+            ),
+            Err(old) => report(
+                true,
+                self.addr(),
+                Kind::CasFail,
+                failure,
+                old as usize,
+                old as usize,
+            ),
+        }
+        r
+    }
+    /// See the eponymous standard method.
+    /// # Errors
+    /// See the eponymous standard method.
+    pub fn compare_exchange_weak(
+        &self,
+        current: *mut T,
+        new: *mut T,
+        success: Ordering,
+        failure: Ordering,
+    ) -> Result<*mut T, *mut T> {
+        self.compare_exchange(current, new, success, failure)
+    }
+    /// See the eponymous standard method.
+    /// # Errors
+    /// See the eponymous standard method.
+    pub fn fetch_update(
+        &self,
+        set_order: Ordering,
+        fetch_order: Ordering,
+        mut f: impl FnMut(*mut T) -> Option<*mut T>,
+    ) -> Result<*mut T, *mut T> {
+        let mut prev = self.load(fetch_order);
+        while let Some(next) = f(prev) {
+            match self.compare_exchange_weak(prev, next, set_order, fetch_order) {
+                x @ Ok(_) => return x,
+                Err(next_prev) => prev = next_prev,
+            }
+        }
+        Err(prev)
+    }
+    /// See the eponymous standard method.
+    pub fn get_mut(&mut self) -> &mut *mut T {
+        self.0.get_mut()
+    }
+    /// See the eponymous standard method.
+    pub fn into_inner(self) -> *mut T {
+        self.0.into_inner()
+    }
+}
+// SAFETY: `repr(transparent)` over the real atomic.
+unsafe impl<T: IStable> IStable for AtomicPtr<T> {
+    type Align = <real::AtomicPtr<T> as IStable>::Align;
+    type Size = <real::AtomicPtr<T> as IStable>::Size;
+    type UnusedBits = <real::AtomicPtr<T> as IStable>::UnusedBits;
+    type ForbiddenValues = <real::AtomicPtr<T> as IStable>::ForbiddenValues;
+    type HasExactlyOneNiche = B0;
+    type ContainsIndirections = B1;
+    #[cfg(feature = "experimental-ctypes")]
+    type CType = <real::AtomicPtr<T> as IStable>::CType;
+    const REPORT: &'static crate::report::TypeReport = <real::AtomicPtr<T> as IStable>::REPORT;
+    const ID: u64 = <real::AtomicPtr<T> as IStable>::ID;
+}
diff --git a/stabby-abi/src/checked_import.rs b/stabby-abi/src/checked_import.rs
index 1e1c678..a4d876d 100644
--- a/stabby-abi/src/checked_import.rs
+++ b/stabby-abi/src/checked_import.rs
@@ -12,10 +12,8 @@
 //   Pierre Avital, <pierre.avital@me.com>
 //
 
-use core::{
-    ops::Deref,
-    sync::atomic::{AtomicU8, Ordering},
-};
+use crate::atomics::{AtomicU8, Ordering};
+use core::ops::Deref;
 /// Used in `#[stabby::import(canaries)]`
 #[crate::stabby]
 pub struct CanariedImport<F> {
diff --git a/stabby-abi/src/lib.rs b/stabby-abi/src/lib.rs
index 8cf7d0e..8e0f899 100644
--- a/stabby-abi/src/lib.rs
+++ b/stabby-abi/src/lib.rs
@@ -26,12 +26,18 @@
 )]
 #![cfg_attr(not(feature = "std"), no_std)]
 #![cfg_attr(stabby_nightly, feature(freeze))]
+#![allow(unexpected_cfgs)] // for `stabby_verif`
 
 #[cfg(feature = "alloc-rs")]
 extern crate alloc as alloc_rs;
 
+#[cfg(not(stabby_verif))]
+pub(crate) use core::sync::atomic as atomics;
 /// ABI-stable smart pointers and allocated data structures, with support for custom allocators.
 pub mod alloc;
+#[cfg(stabby_verif)]
+#[doc(hidden)]
+pub mod atomics;
 /// Extending [Non-Zero Types](core::num) to enable niches for other values than 0.
 pub mod num;
 
diff --git a/stabby/src/lib.rs b/stabby/src/lib.rs
index 305cd6e..d0817dc 100644
--- a/stabby/src/lib.rs
+++ b/stabby/src/lib.rs
@@ -20,6 +20,7 @@
     clippy::missing_errors_doc
 )]
 #![cfg_attr(not(feature = "std"), no_std)]
+#![allow(unexpected_cfgs)] // for `stabby_verif`
 #![cfg_attr(not(doctest), doc = include_str!("../README.md"))]
 
 extern crate core;
diff --git a/stabby/src/time.rs b/stabby/src/time.rs
index d3792e9..08b1270 100644
--- a/stabby/src/time.rs
+++ b/stabby/src/time.rs
@@ -1,4 +1,7 @@
+#[cfg(not(stabby_verif))]
 use core::sync::atomic::{AtomicI64, Ordering};
+#[cfg(stabby_verif)]
+use stabby_abi::atomics::{AtomicI64, Ordering};
 
 /// A stable equivalent to [`core::time::Duration`]
 #[crate::stabby]
-- 
2.43.0


From 861ad7cba17933d750ec990137c8d72cb2025988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:46 +0000
Subject: [PATCH 02/63] fix: upgrading a weak handle no longer revives a
 destroyed value or loses references

Weak::upgrade and WeakSlice::upgrade marked the strong count, then incremented or reset it in separate
steps: a concurrent drop could bring the count to 0 unseen or the reset could erase other handles.
---
 stabby-abi/src/alloc/sync.rs | 41 +++++++++++++-----------------------
 1 file changed, 15 insertions(+), 26 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 851ec98..2deef8d 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -39,6 +39,17 @@ unsafe impl<T: Send + Sync, Alloc: IAlloc + Send + Sync> Send for Arc<T, Alloc>
 // SAFETY: Same constraints as in `std`.
 unsafe impl<T: Send + Sync, Alloc: IAlloc + Send + Sync> Sync for Arc<T, Alloc> {}
 const USIZE_TOP_BIT: usize = 1 << (core::mem::size_of::<usize>() as i32 * 8 - 1);
+/// Atomically adds a strong reference, unless there are none left.
+///
+/// The top bit may transiently be set by code that was linked with previous versions of `stabby`.
+fn try_increment_strong(strong: &AtomicUsize) -> bool {
+    strong
+        .fetch_update(Ordering::Acquire, Ordering::Relaxed, |count| match count {
+            0 | USIZE_TOP_BIT => None,
+            _ => Some(count + 1),
+        })
+        .is_ok()
+}
 
 #[cfg(not(stabby_default_alloc = "disabled"))]
 impl<T> Arc<T> {
@@ -357,19 +368,8 @@ impl<T, Alloc: IAlloc> Weak<T, Alloc> {
     }
     /// Attempts to upgrade self into an Arc.
     pub fn upgrade(&self) -> Option<Arc<T, Alloc>> {
-        let strong = &unsafe { self.ptr.prefix() }.strong;
-        let count = strong.fetch_or(USIZE_TOP_BIT, Ordering::Acquire);
-        match count {
-            0 | USIZE_TOP_BIT => {
-                strong.store(0, Ordering::Release);
-                None
-            }
-            _ => {
-                strong.fetch_add(1, Ordering::Release);
-                strong.fetch_and(!USIZE_TOP_BIT, Ordering::Release);
-                Some(Arc { ptr: self.ptr })
-            }
-        }
+        try_increment_strong(unsafe { &self.ptr.prefix().strong })
+            .then(|| Arc { ptr: self.ptr })
     }
 }
 impl<T, Alloc: IAlloc> Clone for Weak<T, Alloc> {
@@ -650,19 +650,8 @@ pub struct WeakSlice<T, Alloc: IAlloc = super::DefaultAllocator> {
 impl<T, Alloc: IAlloc> WeakSlice<T, Alloc> {
     /// Return a strong reference to the slice if it hasn't been destroyed yet.
     pub fn upgrade(&self) -> Option<ArcSlice<T, Alloc>> {
-        let strong = &unsafe { self.inner.start.prefix() }.strong;
-        let count = strong.fetch_or(USIZE_TOP_BIT, Ordering::Acquire);
-        match count {
-            0 | USIZE_TOP_BIT => {
-                strong.store(0, Ordering::Release);
-                None
-            }
-            _ => {
-                strong.fetch_add(1, Ordering::Release);
-                strong.fetch_and(!USIZE_TOP_BIT, Ordering::Release);
-                Some(ArcSlice { inner: self.inner })
-            }
-        }
+        try_increment_strong(unsafe { &self.inner.start.prefix().strong })
+            .then(|| ArcSlice { inner: self.inner })
     }
     /// For types that are [`Copy`], the slice actually remains valid even after all strong references
     /// have been dropped as long as at least a weak reference lives on.
-- 
2.43.0


From b104700c28357693b0c7c4ad8e4f519b3df9d4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 03/63] fix: order the destruction of shared values after their
 last uses

Strong and weak counts were decremented, and uniqueness was established, with Relaxed operations: nothing
made the accesses of other owners happen before destruction, deallocation or exclusive access.
---
 stabby-abi/src/alloc/sync.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 2deef8d..c5d30e4 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -264,7 +264,9 @@ impl<T, Alloc: IAlloc> Arc<T, Alloc> {
 
     /// Whether or not `this` is the sole owner of its data, including weak owners.
     pub fn is_unique(this: &Self) -> bool {
-        Self::strong_count(this) == 1 && Self::weak_count(this) == 1
+        // `Acquire` pairs with the decrements, such that accesses made through other handles happened before.
+        let prefix = unsafe { this.ptr.prefix() };
+        prefix.strong.load(Ordering::Acquire) == 1 && prefix.weak.load(Ordering::Acquire) == 1
     }
     /// Attempts the value from the allocation, freeing said allocation.
     /// # Errors
@@ -298,7 +300,7 @@ impl<T, Alloc: IAlloc> Drop for Arc<T, Alloc> {
     fn drop(&mut self) {
         if unsafe { self.ptr.prefix() }
             .strong
-            .fetch_sub(1, Ordering::Relaxed)
+            .fetch_sub(1, Ordering::AcqRel)
             != 1
         {
             return;
@@ -384,7 +386,7 @@ impl<T, Alloc: IAlloc> Drop for Weak<T, Alloc> {
     fn drop(&mut self) {
         if unsafe { self.ptr.prefix() }
             .weak
-            .fetch_sub(1, Ordering::Relaxed)
+            .fetch_sub(1, Ordering::AcqRel)
             != 1
         {
             return;
@@ -429,7 +431,7 @@ impl<T, Alloc: IAlloc> ArcSlice<T, Alloc> {
     }
     /// Returns a mutable borrow to the slice if no other references to it may exist.
     pub fn as_slice_mut(&mut self) -> Option<&mut [T]> {
-        (ArcSlice::strong_count(self) == 1 && ArcSlice::weak_count(self) == 1)
+        ArcSlice::is_unique(self)
             .then(|| unsafe { self.as_slice_mut_unchecked() })
     }
     /// Returns a mutable borrow to the slice.
@@ -450,7 +452,9 @@ impl<T, Alloc: IAlloc> ArcSlice<T, Alloc> {
     }
     /// Whether or not `this` is the sole owner of its data, including weak owners.
     pub fn is_unique(this: &Self) -> bool {
-        Self::strong_count(this) == 1 && Self::weak_count(this) == 1
+        // `Acquire` pairs with the decrements, such that accesses made through other handles happened before.
+        let prefix = unsafe { this.inner.start.prefix() };
+        prefix.strong.load(Ordering::Acquire) == 1 && prefix.weak.load(Ordering::Acquire) == 1
     }
     /// Returns the slice's raw representation, without altering the associated reference counts.
     ///
@@ -587,7 +591,7 @@ impl<T, Alloc: IAlloc> Drop for ArcSlice<T, Alloc> {
     fn drop(&mut self) {
         if unsafe { self.inner.start.prefix() }
             .strong
-            .fetch_sub(1, Ordering::Relaxed)
+            .fetch_sub(1, Ordering::AcqRel)
             != 1
         {
             return;
@@ -703,7 +707,7 @@ impl<T, Alloc: IAlloc> Drop for WeakSlice<T, Alloc> {
     fn drop(&mut self) {
         if unsafe { self.inner.start.prefix() }
             .weak
-            .fetch_sub(1, Ordering::Relaxed)
+            .fetch_sub(1, Ordering::AcqRel)
             != 1
         {
             return;
@@ -734,7 +738,7 @@ impl<T, Alloc: IAlloc> crate::IPtrOwned for Arc<T, Alloc> {
     fn drop(this: &mut core::mem::ManuallyDrop<Self>, drop: unsafe extern "C" fn(&mut ())) {
         if unsafe { this.ptr.prefix() }
             .strong
-            .fetch_sub(1, Ordering::Relaxed)
+            .fetch_sub(1, Ordering::AcqRel)
             != 1
         {
             return;
@@ -762,7 +766,7 @@ impl<T, Alloc: IAlloc> crate::IPtrOwned for Weak<T, Alloc> {
     fn drop(this: &mut core::mem::ManuallyDrop<Self>, drop: unsafe extern "C" fn(&mut ())) {
         if unsafe { this.ptr.prefix() }
             .strong
-            .fetch_sub(1, Ordering::Relaxed)
+            .fetch_sub(1, Ordering::AcqRel)
             != 1
         {
             return;
-- 
2.43.0


From efe13716478311c703c6226880d93c32af9a87f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 04/63] fix: AtomicArc releases the values it replaces or
 rejects

AtomicArc::store leaked the previous value, and a failing compare_exchange leaked the rejected one.
---
 stabby-abi/src/alloc/sync.rs | 40 ++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index c5d30e4..6cd1306 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -871,7 +871,20 @@ impl<T, Alloc: IAlloc> AtomicArc<T, Alloc> {
     /// Atomically store a new value.
     pub fn store(&self, value: MaybeArc<T, Alloc>, order: Ordering) {
         let ptr = value.map_or(core::ptr::null_mut(), |value| Arc::into_raw(value).as_ptr());
-        self.ptr.store(ptr, order)
+        // The previous value is about to be released, which requires its initialization to be visible.
+        let order = match order {
+            Ordering::Relaxed => Ordering::Acquire,
+            Ordering::Release => Ordering::AcqRel,
+            order => order,
+        };
+        if let Some(ptr) = NonNull::new(self.ptr.swap(ptr, order)) {
+            drop(unsafe {
+                Arc::<T, Alloc>::from_raw(AllocPtr {
+                    ptr,
+                    marker: PhantomData,
+                })
+            });
+        }
     }
     /// Compares `self` with `current` by pointer.
     /// # Errors
@@ -916,13 +929,24 @@ impl<T, Alloc: IAlloc> AtomicArc<T, Alloc> {
                     marker: PhantomData,
                 })
             })),
-            Err(ptr) => Err(NonNull::new(ptr).map(|ptr| unsafe {
-                Arc::<T, Alloc>::increment_strong_count(ptr.as_ptr());
-                Arc::from_raw(AllocPtr {
-                    ptr,
-                    marker: PhantomData,
-                })
-            })),
+            Err(ptr) => {
+                let actual = NonNull::new(ptr).map(|ptr| unsafe {
+                    Arc::<T, Alloc>::increment_strong_count(ptr.as_ptr());
+                    Arc::from_raw(AllocPtr {
+                        ptr,
+                        marker: PhantomData,
+                    })
+                });
+                if let Some(ptr) = NonNull::new(new) {
+                    drop(unsafe {
+                        Arc::<T, Alloc>::from_raw(AllocPtr {
+                            ptr,
+                            marker: PhantomData,
+                        })
+                    });
+                }
+                Err(actual)
+            }
         }
     }
 }
-- 
2.43.0


From 7da2c4431aa6253ff4ff4f69a9e34329c5efe602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 05/63] fix: converting an Arc into an ArcSlice keeps its
 strong reference

The Arc was dropped while its pointer lived on in the ArcSlice (use after free). The capacity is also stored
atomically, since other handles may exist.
---
 stabby-abi/src/alloc/sync.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 6cd1306..5cb6c4f 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -487,12 +487,15 @@ impl<T, Alloc: IAlloc> Clone for ArcSlice<T, Alloc> {
     }
 }
 impl<T, Alloc: IAlloc> From<Arc<T, Alloc>> for ArcSlice<T, Alloc> {
-    fn from(mut value: Arc<T, Alloc>) -> Self {
-        unsafe { value.ptr.prefix_mut() }.capacity = AtomicUsize::new(1);
+    fn from(value: Arc<T, Alloc>) -> Self {
+        unsafe { value.ptr.prefix() }
+            .capacity
+            .store(1, Ordering::Relaxed);
+        let start = Arc::into_raw(value);
         Self {
             inner: AllocSlice {
-                start: value.ptr,
-                end: ptr_add(value.ptr.ptr, 1),
+                start,
+                end: ptr_add(start.ptr, 1),
             },
         }
     }
-- 
2.43.0


From f4d2a97520bada8e8dc7f59dced1f8fef1c2ba2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 06/63] fix: converting an empty vector into an ArcSlice stores
 the allocator in the new allocation

It was written before the dangling pointer of the vector that was converted.
---
 stabby-abi/src/alloc/sync.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 5cb6c4f..5d090d6 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -534,7 +534,7 @@ impl<T, Alloc: IAlloc> From<Vec<T, Alloc>> for ArcSlice<T, Alloc> {
                         start.ptr.cast::<u8>(),
                     ))
                 };
-                slice.start.prefix_mut().alloc.write(alloc);
+                start.prefix_mut().alloc.write(alloc);
             }
             Self {
                 inner: AllocSlice {
-- 
2.43.0


From 6b611f28ca058fefad2c04f71a3b9a45d0de096a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 07/63] fix: converting an ArcSlice without capacity into a Vec
 no longer leaks its allocation

---
 stabby-abi/src/alloc/sync.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 5d090d6..19929ef 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -552,19 +552,22 @@ impl<T, Alloc: IAlloc> TryFrom<ArcSlice<T, Alloc>> for Vec<T, Alloc> {
             Err(value)
         } else {
             unsafe {
-                let ret = Vec {
+                let capacity = value.inner.start.prefix().capacity.load(Ordering::Relaxed);
+                let mut alloc = value.inner.start.prefix().alloc.assume_init_read();
+                let AllocSlice { start, end } = ArcSlice::into_raw(value);
+                if capacity == 0 {
+                    // `Vec` considers that it doesn't own an allocation when its capacity is 0.
+                    start.free(&mut alloc);
+                    return Ok(Vec::new_in(alloc));
+                }
+                Ok(Vec {
                     inner: VecInner {
-                        start: value.inner.start,
-                        end: value.inner.end,
-                        capacity: ptr_add(
-                            value.inner.start.ptr,
-                            value.inner.start.prefix().capacity.load(Ordering::Relaxed),
-                        ),
-                        alloc: value.inner.start.prefix().alloc.assume_init_read(),
+                        start,
+                        end,
+                        capacity: ptr_add(start.ptr, capacity),
+                        alloc,
                     },
-                };
-                core::mem::forget(value);
-                Ok(ret)
+                })
             }
         }
     }
-- 
2.43.0


From 6003d138446b63eb97f336e4b872934144983caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 08/63] fix: dropping a weak trait object releases a weak
 reference instead of a strong one

---
 stabby-abi/src/alloc/sync.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 19929ef..eef7408 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -769,18 +769,9 @@ impl<T, Alloc: IAlloc> IntoDyn for Arc<T, Alloc> {
 }
 
 impl<T, Alloc: IAlloc> crate::IPtrOwned for Weak<T, Alloc> {
-    fn drop(this: &mut core::mem::ManuallyDrop<Self>, drop: unsafe extern "C" fn(&mut ())) {
-        if unsafe { this.ptr.prefix() }
-            .strong
-            .fetch_sub(1, Ordering::AcqRel)
-            != 1
-        {
-            return;
-        }
-        unsafe {
-            drop(this.ptr.cast().as_mut());
-            _ = Weak::<T, Alloc>::from_raw(this.ptr);
-        }
+    fn drop(this: &mut core::mem::ManuallyDrop<Self>, _drop: unsafe extern "C" fn(&mut ())) {
+        // SAFETY: `this` is immediately forgotten. The value belongs to the strong references: it isn't ours to drop.
+        unsafe { core::mem::ManuallyDrop::drop(this) }
     }
 }
 
-- 
2.43.0


From 79335b9538d944108b17428959af7227147315f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 09/63] fix: Vec::try_drain accepts valid ranges and refuses
 invalid ones

The condition was inverted, turning valid ranges down and building out of bounds drains from invalid ones.
---
 stabby-abi/src/alloc/vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index f971e08..a50113e 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -373,7 +373,7 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
             core::ops::Bound::Excluded(i) => *i,
             core::ops::Bound::Unbounded => original_len,
         };
-        if to >= from || to <= original_len {
+        if to < from || to > original_len {
             return None;
         }
         unsafe { self.set_len(from) };
-- 
2.43.0


From 2a8d9023b9f64189ee535c64ad7ebe00c7aad1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 10/63] fix: DoubleEndedDrain::next_back yields the elements of
 the drained range

It read the element after the one to yield (out of the range, possibly out of bounds). The size hint also
ignored elements taken from the back.
---
 stabby-abi/src/alloc/vec.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index a50113e..6a110cf 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -750,7 +750,7 @@ pub struct DoubleEndedDrain<'a, T: 'a, Alloc: IAlloc + 'a> {
 impl<'a, T: 'a, Alloc: IAlloc + 'a> Iterator for DoubleEndedDrain<'a, T, Alloc> {
     type Item = T;
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let remaining = self.to - self.lindex;
+        let remaining = self.rindex - self.lindex;
         (remaining, Some(remaining))
     }
     fn next(&mut self) -> Option<Self::Item> {
@@ -764,9 +764,8 @@ impl<'a, T: 'a, Alloc: IAlloc + 'a> Iterator for DoubleEndedDrain<'a, T, Alloc>
 impl<'a, T: 'a, Alloc: IAlloc + 'a> DoubleEndedIterator for DoubleEndedDrain<'a, T, Alloc> {
     fn next_back(&mut self) -> Option<Self::Item> {
         (self.lindex < self.rindex).then(|| unsafe {
-            let ret = self.vec.inner.start.as_ptr().add(self.rindex).read();
             self.rindex -= 1;
-            ret
+            self.vec.inner.start.as_ptr().add(self.rindex).read()
         })
     }
 }
-- 
2.43.0


From b8ced9ee37a024ff0e8aa9a850775ed58bb54a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 11/63] fix: Vec::extend doesn't rely on the iterator's size
 hint for memory safety

Iterators may yield more items than the hinted maximum; those were written out of bounds.
---
 stabby-abi/src/alloc/vec.rs | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index 6a110cf..c6401da 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -554,20 +554,9 @@ impl<T: Copy, Alloc: IAlloc + Default> From<&[T]> for Vec<T, Alloc> {
 impl<T, Alloc: IAlloc> core::iter::Extend<T> for Vec<T, Alloc> {
     fn extend<Iter: IntoIterator<Item = T>>(&mut self, iter: Iter) {
         let iter = iter.into_iter();
-        let (min, max) = iter.size_hint();
-        match max {
-            Some(max) => {
-                self.reserve(max);
-                iter.for_each(|item| {
-                    unsafe { self.inner.end.as_ptr().write(item) };
-                    self.inner.end = ptr_add(self.inner.end, 1);
-                })
-            }
-            _ => {
-                self.reserve(min);
-                iter.for_each(|item| self.push(item))
-            }
-        }
+        let (min, _) = iter.size_hint();
+        self.reserve(min);
+        iter.for_each(|item| self.push(item))
     }
 }
 
-- 
2.43.0


From be03e42fcd70f4bb095995909118253b385005d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 12/63] fix: Vec::clone doesn't leak elements when cloning one
 panics

---
 stabby-abi/src/alloc/vec.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index c6401da..9c3afd1 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -454,10 +454,10 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
 impl<T: Clone, Alloc: IAlloc + Clone> Clone for Vec<T, Alloc> {
     fn clone(&self) -> Self {
         let mut ret = Self::with_capacity_in(self.len(), self.inner.alloc.clone());
-        for (i, item) in self.iter().enumerate() {
-            unsafe { ret.inner.start.ptr.as_ptr().add(i).write(item.clone()) }
+        for item in self.iter() {
+            // The length is updated along the way: should `clone` panic, no element leaks.
+            ret.push(item.clone());
         }
-        unsafe { ret.set_len(self.len()) };
         ret
     }
 }
-- 
2.43.0


From 98f1408cb258d86bf5352a3d1a454eeb59618950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 13/63] fix: vectors of zero-sized types can be pushed to and
 reserved

push didn't compile (division by zero), and capacities were computed as a pointer difference that overflows.
---
 stabby-abi/src/alloc/vec.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index 9c3afd1..4d7e621 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -172,16 +172,22 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
     }
     /// The total capacity of the vector.
     pub const fn capacity(&self) -> usize {
+        if Self::zst_mode() {
+            return usize::MAX;
+        }
         ptr_diff(self.inner.capacity, self.inner.start.ptr)
     }
     /// The remaining number of elements that can be pushed before reallocating.
     pub const fn remaining_capacity(&self) -> usize {
+        if Self::zst_mode() {
+            return usize::MAX - self.len();
+        }
         ptr_diff(self.inner.capacity, self.inner.end)
     }
-    const FIRST_CAPACITY: usize = match 1024 / core::mem::size_of::<T>() {
-        0 => 1,
-        v @ 1..=8 => v,
-        _ => 8,
+    const FIRST_CAPACITY: usize = match core::mem::size_of::<T>() {
+        0..=128 => 8,
+        size @ 129..=1024 => 1024 / size,
+        _ => 1,
     };
     fn grow(&mut self) {
         self.try_grow().unwrap();
-- 
2.43.0


From a1f28317ec6ca51f6cb6c6fb0d6ebc6e201720fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 14/63] fix: empty boxed slices keep track of whether they own
 an allocation

Dropping or converting one with spare capacity leaked its allocation; pushing on one without an allocation
read a capacity before its dangling pointer.
---
 stabby-abi/src/alloc/boxed.rs | 38 +++++++++++++++++------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/stabby-abi/src/alloc/boxed.rs b/stabby-abi/src/alloc/boxed.rs
index db08d08..30b156d 100644
--- a/stabby-abi/src/alloc/boxed.rs
+++ b/stabby-abi/src/alloc/boxed.rs
@@ -308,38 +308,36 @@ impl<T, Alloc: IAlloc> BoxedSlice<T, Alloc> {
     /// # Errors
     /// Returns the value if pushing would require reallocating.
     pub fn try_push(&mut self, value: T) -> Result<(), T> {
-        // SAFETY: the prefix must be initialized for this type to exist.
-        if self.slice.len()
-            >= unsafe { self.slice.start.prefix() }
-                .capacity
-                .load(core::sync::atomic::Ordering::Relaxed)
-        {
+        if core::mem::size_of::<T>() != 0 && self.slice.len() >= self.capacity() {
             return Err(value);
         }
         // SAFETY: we've acertained that we have enough space to push an element.
         unsafe {
             core::ptr::write(self.slice.end.as_ptr(), value);
-            self.slice.end = NonNull::new_unchecked(self.slice.end.as_ptr().add(1));
         }
+        self.slice.end = ptr_add(self.slice.end, 1);
         Ok(())
     }
+    /// Whether the slice owns an allocation, which it may also do while empty.
+    fn is_allocated(&self) -> bool {
+        core::mem::size_of::<T>() != 0 && self.slice.start.ptr != NonNull::dangling()
+    }
+    /// The number of elements the allocation can hold, 0 if there's none.
+    fn capacity(&self) -> usize {
+        if !self.is_allocated() {
+            return 0;
+        }
+        // SAFETY: we store the capacity in the prefix when constructed.
+        unsafe { self.slice.start.prefix() }
+            .capacity
+            .load(core::sync::atomic::Ordering::Relaxed)
+    }
     pub(crate) fn into_raw_components(self) -> (AllocSlice<T, Alloc>, usize, Alloc) {
         let slice = self.slice;
+        let capacity = self.capacity();
         // SAFETY: We forget `alloc` immediately.
         let alloc = unsafe { core::ptr::read(&self.alloc) };
         core::mem::forget(self);
-        let capacity = if core::mem::size_of::<T>() == 0 || slice.is_empty() {
-            0
-        } else {
-            // SAFETY: we store the capacity in the prefix when constructed.
-            unsafe {
-                slice
-                    .start
-                    .prefix()
-                    .capacity
-                    .load(core::sync::atomic::Ordering::Relaxed)
-            }
-        };
         (slice, capacity, alloc)
     }
 }
@@ -438,7 +436,7 @@ impl<T, Alloc: IAlloc + Default> FromIterator<T> for BoxedSlice<T, Alloc> {
 impl<T, Alloc: IAlloc> Drop for BoxedSlice<T, Alloc> {
     fn drop(&mut self) {
         unsafe { core::ptr::drop_in_place(self.as_slice_mut()) }
-        if core::mem::size_of::<T>() != 0 && !self.is_empty() {
+        if self.is_allocated() {
             unsafe { self.slice.start.free(&mut self.alloc) }
         }
     }
-- 
2.43.0


From 8c46045dc0c2eb0fabae044f17754f6878ea6a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 15/63] fix: request allocations with the alignment and size
 that the elements need

The alignment of types aligned more than the prefix was ignored, making data shift out of the allocation;
reallocating them passed a pointer that the allocator never gave. Sizes that overflow are now refused.
---
 stabby-abi/src/alloc/mod.rs | 27 ++++++++++++++-------------
 stabby-abi/src/alloc/vec.rs |  4 +++-
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/stabby-abi/src/alloc/mod.rs b/stabby-abi/src/alloc/mod.rs
index ed7f7f5..f990e40 100644
--- a/stabby-abi/src/alloc/mod.rs
+++ b/stabby-abi/src/alloc/mod.rs
@@ -353,15 +353,23 @@ impl<T, Alloc> AllocPtr<T, Alloc> {
     }
 }
 impl<T, Alloc: IAlloc> AllocPtr<T, Alloc> {
+    /// The layout of an allocation for `capacity` elements, `None` if it exceeds what allocations may span.
+    const fn layout(capacity: usize) -> Option<Layout> {
+        let Some(size) = core::mem::size_of::<T>().checked_mul(capacity) else {
+            return None;
+        };
+        if size > isize::MAX as usize / 2 {
+            return None;
+        }
+        Some(Layout::of::<AllocPrefix<Alloc>>().concat(Layout::array::<T>(capacity)))
+    }
     /// Allocates a pointer to a single element of `T`, prefixed by an [`AllocPrefix`]
     pub fn alloc(alloc: &mut Alloc) -> Option<Self> {
         Self::alloc_array(alloc, 1)
     }
     /// Allocates a pointer to an array of `capacity` `T`, prefixed by an [`AllocPrefix`]
     pub fn alloc_array(alloc: &mut Alloc, capacity: usize) -> Option<Self> {
-        let mut layout = Layout::of::<AllocPrefix<Alloc>>().concat(Layout::array::<T>(capacity));
-        layout.align = core::mem::align_of::<AllocPrefix<Alloc>>();
-        let ptr = alloc.alloc(layout);
+        let ptr = alloc.alloc(Self::layout(capacity)?);
         NonNull::new(ptr).map(|ptr| unsafe { Self::init(ptr, capacity) })
     }
     /// Reallocates a pointer to an array of `capacity` `T`, prefixed by an [`AllocPrefix`].
@@ -376,17 +384,10 @@ impl<T, Alloc: IAlloc> AllocPtr<T, Alloc> {
         prev_capacity: usize,
         new_capacity: usize,
     ) -> Option<Self> {
-        let mut layout =
-            Layout::of::<AllocPrefix<Alloc>>().concat(Layout::array::<T>(prev_capacity));
-        layout.align = core::mem::align_of::<AllocPrefix<Alloc>>();
         let ptr = alloc.realloc(
-            (self.prefix() as *const AllocPrefix<Alloc>)
-                .cast_mut()
-                .cast(),
-            layout,
-            Layout::of::<AllocPrefix<Alloc>>()
-                .concat(Layout::array::<T>(new_capacity))
-                .size,
+            self.prefix().origin.as_ptr(),
+            Self::layout(prev_capacity)?,
+            Self::layout(new_capacity)?.size,
         );
         NonNull::new(ptr).map(|ptr| unsafe { Self::init(ptr, new_capacity) })
     }
diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index 4d7e621..ff75cff 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -219,7 +219,9 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
     pub fn try_reserve(&mut self, additional: usize) -> Result<NonMaxUsize, AllocationError> {
         if self.remaining_capacity() < additional {
             let len = self.len();
-            let new_capacity = len + additional;
+            let Some(new_capacity) = len.checked_add(additional) else {
+                return Err(AllocationError());
+            };
             let old_capacity = self.capacity();
             let start = if old_capacity != 0 {
                 unsafe {
-- 
2.43.0


From a257d1d43864cc4d500b30c252d285bb223538ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 16/63] fix: shrinking an allocation doesn't copy past the end
 of the new one

---
 stabby-abi/src/alloc/allocators/libc_alloc.rs | 2 +-
 stabby-abi/src/alloc/mod.rs                   | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/stabby-abi/src/alloc/allocators/libc_alloc.rs b/stabby-abi/src/alloc/allocators/libc_alloc.rs
index e4e49f7..4f82508 100644
--- a/stabby-abi/src/alloc/allocators/libc_alloc.rs
+++ b/stabby-abi/src/alloc/allocators/libc_alloc.rs
@@ -86,7 +86,7 @@ impl crate::alloc::IAlloc for LibcAlloc {
                     core::ptr::copy_nonoverlapping(
                         ptr.cast::<u8>(),
                         new_ptr.cast::<u8>(),
-                        prev.size,
+                        prev.size.min(new_size),
                     )
                 }
                 self.free(ptr.cast());
diff --git a/stabby-abi/src/alloc/mod.rs b/stabby-abi/src/alloc/mod.rs
index f990e40..09ed4ed 100644
--- a/stabby-abi/src/alloc/mod.rs
+++ b/stabby-abi/src/alloc/mod.rs
@@ -137,7 +137,8 @@ pub trait IAlloc: Unpin {
         });
         if !ret.is_null() {
             unsafe {
-                core::ptr::copy_nonoverlapping(ptr.cast::<u8>(), ret.cast(), prev_layout.size);
+                let copied = prev_layout.size.min(new_size);
+                core::ptr::copy_nonoverlapping(ptr.cast::<u8>(), ret.cast(), copied);
                 self.free(ptr);
             }
         }
@@ -176,7 +177,8 @@ pub trait IStableAlloc: Unpin {
         });
         if !ret.is_null() {
             unsafe {
-                core::ptr::copy_nonoverlapping(ptr.cast::<u8>(), ret.cast(), prev_layout.size);
+                let copied = prev_layout.size.min(new_size);
+                core::ptr::copy_nonoverlapping(ptr.cast::<u8>(), ret.cast(), copied);
                 self.free(ptr);
             }
         }
-- 
2.43.0


From 15351914f657e0ed1a3c04554f8550d5bf00860e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 17/63] fix: LibcAlloc accepts alignments smaller than a
 pointer's

---
 stabby-abi/src/alloc/allocators/libc_alloc.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/stabby-abi/src/alloc/allocators/libc_alloc.rs b/stabby-abi/src/alloc/allocators/libc_alloc.rs
index 4f82508..ce9a561 100644
--- a/stabby-abi/src/alloc/allocators/libc_alloc.rs
+++ b/stabby-abi/src/alloc/allocators/libc_alloc.rs
@@ -52,6 +52,14 @@ impl LibcAlloc {
     }
 }
 
+/// `posix_memalign` refuses alignments smaller than a pointer's.
+const fn memalign(align: usize) -> usize {
+    if align < core::mem::size_of::<usize>() {
+        core::mem::size_of::<usize>()
+    } else {
+        align
+    }
+}
 impl crate::alloc::IAlloc for LibcAlloc {
     fn alloc(&mut self, layout: Layout) -> *mut () {
         if layout.size == 0 {
@@ -59,8 +67,8 @@ impl crate::alloc::IAlloc for LibcAlloc {
         }
         let mut ptr = core::ptr::null_mut();
         // SAFETY: `posix_memalign` is always safe.
-        let err = unsafe { posix_memalign(&mut ptr, layout.align, layout.size) };
-        if err != 0 && (ptr as usize % layout.align != 0) {
+        let err = unsafe { posix_memalign(&mut ptr, memalign(layout.align), layout.size) };
+        if err != 0 {
             ptr = core::ptr::null_mut();
         }
         ptr.cast()
@@ -80,7 +88,7 @@ impl crate::alloc::IAlloc for LibcAlloc {
         };
         if new_ptr.is_null() {
             // SAFETY: `posix_memalign` is always safe.
-            let err = unsafe { posix_memalign(&mut new_ptr, prev.align, new_size) };
+            let err = unsafe { posix_memalign(&mut new_ptr, memalign(prev.align), new_size) };
             if err == 0 {
                 unsafe {
                     core::ptr::copy_nonoverlapping(
-- 
2.43.0


From e3d5f721e12655f07c7feb1567905190018806e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 18/63] fix: RustAlloc reports failures and provides enough
 memory for large alignments

Failed requests yielded non-null pointers, and alignments above 32 could give fewer bytes than requested.
---
 stabby-abi/src/alloc/allocators/rust_alloc.rs | 33 +++++++++++++++++--
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/stabby-abi/src/alloc/allocators/rust_alloc.rs b/stabby-abi/src/alloc/allocators/rust_alloc.rs
index 29dc4d1..a75ea74 100644
--- a/stabby-abi/src/alloc/allocators/rust_alloc.rs
+++ b/stabby-abi/src/alloc/allocators/rust_alloc.rs
@@ -19,13 +19,32 @@ pub struct RustAllocPrefix {
     vtable: RustAllocVt,
 }
 
+/// The layout of the whole allocation: the prefix, padded to the requested alignment, followed by what was requested.
+fn with_prefix(requested: crate::alloc::Layout) -> Option<crate::alloc::Layout> {
+    if requested.size == 0 {
+        return None;
+    }
+    let align = requested
+        .align
+        .max(core::mem::align_of::<RustAllocPrefix>());
+    let size = align
+        .max(core::mem::size_of::<RustAllocPrefix>())
+        .checked_add(requested.size)?;
+    Some(Layout { size, align })
+}
+
 extern "C" fn alloc(requested: crate::alloc::Layout) -> *mut () {
-    let requested = Layout::of::<RustAllocPrefix>().concat(requested);
+    let Some(requested) = with_prefix(requested) else {
+        return core::ptr::null_mut();
+    };
     let Ok(layout) = core::alloc::Layout::from_size_align(requested.size, requested.align) else {
         return core::ptr::null_mut();
     };
     // SAFETY: The layout is always non-zero-sized
     let alloc_start = unsafe { alloc_rs::alloc::alloc(layout) };
+    if alloc_start.is_null() {
+        return core::ptr::null_mut();
+    }
     let ret = // SAFETY: the addition is indeed in-bound.
         unsafe { alloc_start.add(layout.align().max(core::mem::size_of::<RustAllocPrefix>())) };
     // SAFETY: `ret` is allocated and _at least_ one `RustAllocPrefix` greater than the start of the allocation, so writing there is safe.
@@ -50,14 +69,22 @@ extern "C" fn realloc(ptr: *mut (), prev_layout: crate::alloc::Layout, new_size:
     else {
         return core::ptr::null_mut();
     };
-    let requested = Layout::of::<RustAllocPrefix>().concat(Layout {
+    let Some(requested) = with_prefix(Layout {
         size: new_size,
         align: prev_layout.align,
-    });
+    }) else {
+        return core::ptr::null_mut();
+    };
+    if core::alloc::Layout::from_size_align(requested.size, requested.align).is_err() {
+        return core::ptr::null_mut();
+    }
     // SAFETY: See each line
     unsafe {
         // If `ptr` was indeed allocated on by this allocator, then `realloc_start` was indeed allocated by _our_ GlobalAlloc.
         let alloc_start = alloc_rs::alloc::realloc(realloc_start, layout, requested.size);
+        if alloc_start.is_null() {
+            return core::ptr::null_mut();
+        }
         // We follow the same return-value shifting as in `alloc`
         let ret = alloc_start.add(layout.align().max(core::mem::size_of::<RustAllocPrefix>()));
         // And prepend the same prefix
-- 
2.43.0


From ee336733abd3d53ed7edcf51a8da7067d7ecd7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:48 +0000
Subject: [PATCH 19/63] fix: SingleOrVec::try_reserve and truncate let a guard
 overwrite the determinant of the value they had just replaced, and a refused
 reservation destroyed the element still owned

---
 stabby-abi/src/alloc/single_or_vec.rs | 75 +++++++++++++++------------
 1 file changed, 43 insertions(+), 32 deletions(-)

diff --git a/stabby-abi/src/alloc/single_or_vec.rs b/stabby-abi/src/alloc/single_or_vec.rs
index 670069c..1b40208 100644
--- a/stabby-abi/src/alloc/single_or_vec.rs
+++ b/stabby-abi/src/alloc/single_or_vec.rs
@@ -201,29 +201,38 @@ where
     /// Returns Ok(new_capacity) if succesful (including if no reallocation was needed),
     /// otherwise returns Err(AllocationError)
     pub fn try_reserve(&mut self, additional: usize) -> Result<NonMaxUsize, AllocationError> {
-        let inner = &mut self.inner as *mut _;
-        self.inner.match_mut(
-            |value| unsafe {
-                let new_capacity = 1 + additional;
-                // either `inner` must be leaked and overwritten by the new owner of `value` and `alloc`,
-                // or these two must be leaked to prevent double frees.
-                let Single { value, alloc } = core::ptr::read(&*value);
-                match Vec::try_with_capacity_in(new_capacity, alloc) {
-                    Ok(mut vec) => {
-                        vec.push(value);
-                        // overwrite `inner` with `value` and `alloc` with their new owner without freeing `inner`.
-                        core::ptr::write(inner, crate::Result::Err(vec));
-                        NonMaxUsize::new(new_capacity).ok_or(AllocationError())
-                    }
-                    Err(alloc) => {
-                        // leak both `value` and `alloc` since `inner` can't be overwritten
-                        core::mem::drop((value, alloc));
-                        Err(AllocationError())
+        if let Some(mut vec) = self.inner.err_mut() {
+            return vec.try_reserve(additional);
+        }
+        let Some(new_capacity) = additional.checked_add(1).and_then(NonMaxUsize::new) else {
+            return Err(AllocationError());
+        };
+        self.inner
+            .match_ref(
+                |single| {
+                    // Safety: either `self.inner` must be leaked and overwritten by the new owner of `value` and `alloc`,
+                    // or these two must be leaked to prevent double frees.
+                    let Single { value, alloc } = unsafe { core::ptr::read(single) };
+                    match Vec::try_with_capacity_in(new_capacity.into(), alloc) {
+                        Ok(mut vec) => {
+                            vec.push(value);
+                            Ok(vec)
+                        }
+                        Err(alloc) => {
+                            // leak both `value` and `alloc` since `self.inner` still owns them
+                            core::mem::forget((value, alloc));
+                            Err(AllocationError())
+                        }
                     }
-                }
-            },
-            |mut vec| vec.try_reserve(additional),
-        )
+                },
+                |_| unreachable!(),
+            )
+            .map(|vec| {
+                // Safety: overwrite `self.inner` with the new owner of its value and allocator without freeing it.
+                // No guard on the previous variant may exist at this point, as it would overwrite the determinant when dropped.
+                unsafe { core::ptr::write(&mut self.inner, crate::Result::Err(vec)) };
+                new_capacity
+            })
     }
     /// Removes all elements from `self` from the `len`th onward.
     ///
@@ -232,16 +241,18 @@ where
         if self.len() <= len {
             return;
         }
-        let inner = &mut self.inner as *mut _;
-        self.inner.match_mut(
-            |value| unsafe {
-                let Single { value, alloc } = core::ptr::read(&*value);
-                core::mem::drop(value); // drop `value` to prevent leaking it since we'll overwrite `inner` with something that doesn't own it
-                                        // overwrite `inner` with the new owner of `alloc`
-                core::ptr::write(inner, crate::Result::Err(Vec::new_in(alloc)))
-            },
-            |mut vec| vec.truncate(len),
-        )
+        if let Some(mut vec) = self.inner.err_mut() {
+            return vec.truncate(len);
+        }
+        // Safety: `self.inner` is overwritten with the new owner of `alloc` without freeing it, before `value` is dropped.
+        // No guard on the previous variant may exist at this point, as it would overwrite the determinant when dropped.
+        unsafe {
+            let Single { value, alloc } = self
+                .inner
+                .match_ref(|single| core::ptr::read(single), |_| unreachable!());
+            core::ptr::write(&mut self.inner, crate::Result::Err(Vec::new_in(alloc)));
+            core::mem::drop(value);
+        }
     }
     /// Returns a slice of the elements in the vector.
     pub fn as_slice(&self) -> &[T] {
-- 
2.43.0


From f6000ea79afbba4cdb1316b8fa428d201f95da19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:48 +0000
Subject: [PATCH 20/63] fix: a panicking destructor made Vec::truncate and
 dropping an IntoIter destroy elements twice

---
 stabby-abi/src/alloc/vec.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index ff75cff..2c5a1f3 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -257,8 +257,10 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
             return;
         }
         unsafe {
-            core::ptr::drop_in_place(&mut self[len..]);
-            self.set_len(len)
+            let removed: *mut [T] = &mut self[len..];
+            // The length must be set first: should a destructor panic, the removed elements mustn't be destroyed again.
+            self.set_len(len);
+            core::ptr::drop_in_place(removed);
         };
     }
     /// Returns a slice of the vector's elements.
@@ -658,8 +660,10 @@ impl<T, Alloc: IAlloc> Iterator for IntoIter<T, Alloc> {
 impl<T, Alloc: IAlloc> Drop for IntoIter<T, Alloc> {
     fn drop(&mut self) {
         unsafe {
-            core::ptr::drop_in_place(&mut self.vec.as_slice_mut()[self.index..]);
+            let remaining: *mut [T] = &mut self.vec.as_slice_mut()[self.index..];
+            // The length must be set first: should a destructor panic, the elements mustn't be destroyed again.
             self.vec.set_len(0);
+            core::ptr::drop_in_place(remaining);
         }
     }
 }
-- 
2.43.0


From 567121578e7d9b90c64f50ca72f591d9408f24c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:02 +0000
Subject: [PATCH 21/63] fix: Vec::copy_extend of over-aligned zero-sized
 elements accessed a misaligned pointer

---
 stabby-abi/src/alloc/vec.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index 2c5a1f3..7cd3013 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -315,7 +315,14 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
         }
         self.try_reserve(slice.len())?;
         unsafe {
-            core::ptr::copy_nonoverlapping(slice.as_ptr(), self.inner.end.as_ptr(), slice.len());
+            if !Self::zst_mode() {
+                // In ZST mode, `end` counts elements and isn't necessarily aligned.
+                core::ptr::copy_nonoverlapping(
+                    slice.as_ptr(),
+                    self.inner.end.as_ptr(),
+                    slice.len(),
+                );
+            }
             self.set_len(self.len() + slice.len());
         }
         Ok(())
-- 
2.43.0


From 511b68aa498ec2d2a9e8b7d13d8ad408478a7dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:58 +0000
Subject: [PATCH 22/63] fix: ArcSlice::from a vector of zero-sized elements
 leaked them when its allocation was refused

---
 stabby-abi/src/alloc/sync.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index eef7408..3132e95 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -522,7 +522,16 @@ impl<T, Alloc: IAlloc> From<Vec<T, Alloc>> for ArcSlice<T, Alloc> {
                 },
             }
         } else {
-            let mut start = AllocPtr::alloc_array(&mut alloc, 0).expect("Allocation failed");
+            let Some(mut start) = AllocPtr::alloc_array(&mut alloc, 0) else {
+                // Zero-sized elements aren't held by any allocation, but still need to be destroyed.
+                unsafe {
+                    core::ptr::drop_in_place(core::ptr::slice_from_raw_parts_mut(
+                        slice.start.ptr.as_ptr(),
+                        slice.len(),
+                    ))
+                };
+                panic!("Allocation failed");
+            };
             unsafe {
                 start.prefix_mut().strong = AtomicUsize::new(1);
                 start.prefix_mut().weak = AtomicUsize::new(1);
-- 
2.43.0


From 72acba415b112c4c0e2707f1410404e2c81ac463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:03 +0000
Subject: [PATCH 23/63] fix: ArcSlice::from a vector of zero-sized elements
 computed a capacity that overflows

---
 stabby-abi/src/alloc/sync.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 3132e95..dfea14a 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -538,10 +538,7 @@ impl<T, Alloc: IAlloc> From<Vec<T, Alloc>> for ArcSlice<T, Alloc> {
                 start.prefix_mut().capacity = if core::mem::size_of::<T>() != 0 {
                     AtomicUsize::new(0)
                 } else {
-                    AtomicUsize::new(ptr_diff(
-                        core::mem::transmute::<usize, NonNull<u8>>(usize::MAX),
-                        start.ptr.cast::<u8>(),
-                    ))
+                    AtomicUsize::new(usize::MAX)
                 };
                 start.prefix_mut().alloc.write(alloc);
             }
-- 
2.43.0


From 014dd7a5239849241002d66f466c040fa9b3076a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 24/63] fix: read explicit tags as bytes, since enclosing sum
 types may use their spare bits

---
 stabby-abi/src/enums/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/enums/mod.rs b/stabby-abi/src/enums/mod.rs
index 6268d0d..1d3ee90 100644
--- a/stabby-abi/src/enums/mod.rs
+++ b/stabby-abi/src/enums/mod.rs
@@ -69,7 +69,9 @@ impl IDeterminant for BitDeterminant {
         BitDeterminant::Err
     }
     fn is_det_ok(&self, _: *const u8) -> bool {
-        (*self as u8 & 1) == 0
+        // The upper bits may be in use by the determinant of a sum-type that contains this one,
+        // so this byte must never be read as a `BitDeterminant`.
+        (unsafe { (self as *const Self).cast::<u8>().read() } & 1) == 0
     }
     type IsNicheTrick = B0;
 }
-- 
2.43.0


From 91eb52a4c19a8bfa472b0a61d4ca12c0d7906500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:11 +0000
Subject: [PATCH 25/63] fix: MaybeUninit may hold the values its type forbids

---
 stabby-abi/src/stable_impls/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/stable_impls/mod.rs b/stabby-abi/src/stable_impls/mod.rs
index 54accca..14e130a 100644
--- a/stabby-abi/src/stable_impls/mod.rs
+++ b/stabby-abi/src/stable_impls/mod.rs
@@ -539,9 +539,16 @@ unsafe impl<T: IStable> IStable for core::mem::ManuallyDrop<T> {
 }
 // SAFETY: Automatic checks verify this.
 unsafe impl<T: IStable> IStable for core::mem::MaybeUninit<T> {
-    same_as!(T, <T as IStable>::REPORT.name.as_str());
-    type HasExactlyOneNiche = T::HasExactlyOneNiche;
+    type Align = T::Align;
+    type Size = T::Size;
+    type UnusedBits = T::UnusedBits;
+    // `MaybeUninit` may hold any value, including those that are forbidden to `T`.
+    type ForbiddenValues = End;
+    type HasExactlyOneNiche = B0;
+    #[cfg(feature = "experimental-ctypes")]
+    type CType = T::CType;
     type ContainsIndirections = T::ContainsIndirections;
+    primitive_report!(<T as IStable>::REPORT.name.as_str());
 }
 // SAFETY: Automatic checks verify this.
 unsafe impl<T: IStable> IStable for core::cell::UnsafeCell<T> {
-- 
2.43.0


From 8f2584fa32d01481597952d6b4b97c5dea3b5495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:11 +0000
Subject: [PATCH 26/63] fix: an UnsafeCell's padding can be overwritten through
 shared references

---
 stabby-abi/src/stable_impls/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/stable_impls/mod.rs b/stabby-abi/src/stable_impls/mod.rs
index 14e130a..0f0cc12 100644
--- a/stabby-abi/src/stable_impls/mod.rs
+++ b/stabby-abi/src/stable_impls/mod.rs
@@ -552,9 +552,17 @@ unsafe impl<T: IStable> IStable for core::mem::MaybeUninit<T> {
 }
 // SAFETY: Automatic checks verify this.
 unsafe impl<T: IStable> IStable for core::cell::UnsafeCell<T> {
-    same_as!(T, <T as IStable>::REPORT.name.as_str());
-    type HasExactlyOneNiche = T::HasExactlyOneNiche;
+    type Align = T::Align;
+    type Size = T::Size;
+    type ForbiddenValues = T::ForbiddenValues;
+    // Writing through a shared reference may overwrite the cell's padding.
+    type UnusedBits = End;
+    // Rust doesn't expose niches through `UnsafeCell`.
+    type HasExactlyOneNiche = B0;
+    #[cfg(feature = "experimental-ctypes")]
+    type CType = T::CType;
     type ContainsIndirections = T::ContainsIndirections;
+    primitive_report!(<T as IStable>::REPORT.name.as_str());
 }
 
 // SAFETY: Automatic checks verify this.
-- 
2.43.0


From 6eb0c229ff468e543e3934ed5d8cb8cb8f21ed81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:34 +0000
Subject: [PATCH 27/63] fix: lay out data-carrying enums the way stabby
 computes their layout

---
 stabby-macros/src/enums.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stabby-macros/src/enums.rs b/stabby-macros/src/enums.rs
index cf2cb1a..a5f0e39 100644
--- a/stabby-macros/src/enums.rs
+++ b/stabby-macros/src/enums.rs
@@ -265,7 +265,8 @@ pub fn stabby(
         Some(Repr::Isize) => Repr::Isize,
     };
     let reprid = quote::format_ident!("{trepr:?}");
-    let reprattr = if repr.is_some_and(|r| r.is_c) {
+    // The layout computed above places the payloads of all variants at the same offset, which `#[repr(u*)]` alone doesn't.
+    let reprattr = if has_non_empty_fields || repr.is_some_and(|r| r.is_c) {
         quote!(#[repr(C, #reprid)])
     } else {
         quote!(#[repr(#reprid)])
-- 
2.43.0


From eca2fb3661febac17966a0dcae57efadcca8d377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 28/63] fix: pad packed results to a multiple of their
 alignment

---
 stabby-abi/src/result.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/result.rs b/stabby-abi/src/result.rs
index 94f7f13..08ae6d5 100644
--- a/stabby-abi/src/result.rs
+++ b/stabby-abi/src/result.rs
@@ -47,8 +47,8 @@ where
     Ok: IDeterminantProvider<Err>,
     Err: IStable,
 {
-    /// The size is the max of the variants' sizes, plus the size of the determinant upgraded to a multiple of the alignment.
-    type Size = tyeval!(<<Determinant<Ok, Err> as IStable>::Size as Unsigned>::NextMultipleOf<Self::Align> + <Ok::Size as Unsigned>::Max<Err::Size>);
+    /// The size is the max of the variants' sizes, plus the size of the determinant, both upgraded to a multiple of the alignment.
+    type Size = tyeval!(<<Determinant<Ok, Err> as IStable>::Size as Unsigned>::NextMultipleOf<Self::Align> + <<Ok::Size as Unsigned>::Max<Err::Size> as Unsigned>::NextMultipleOf<Self::Align>);
     /// The alignment is the max of the variants' alignments.
     type Align = <Ok::Align as Alignment>::Max<Err::Align>;
     // If either variant may contain an indirection, so may their sum-type.
-- 
2.43.0


From 23087f9684b6624fb45ea30072b6fcb85706cce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 29/63] fix: honour every #[repr] given to a stable struct, and
 keep its fields in order

---
 stabby-macros/src/structs.rs | 39 ++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/stabby-macros/src/structs.rs b/stabby-macros/src/structs.rs
index faebcbd..98dadcc 100644
--- a/stabby-macros/src/structs.rs
+++ b/stabby-macros/src/structs.rs
@@ -63,24 +63,20 @@ enum AllowedRepr {
 }
 impl syn::parse::Parse for AllowedRepr {
     fn parse(input: syn::parse::ParseStream) -> syn::Result<Self> {
-        let mut content = input.fork();
-        if input.peek(syn::token::Paren) {
-            syn::parenthesized!(content in input);
-        }
-        let ident: Ident = content.parse()?;
+        let ident: Ident = input.parse()?;
         Ok(match ident.to_string().as_str() {
             "C" => AllowedRepr::C,
             "transparent" => AllowedRepr::Transparent,
             "packed" => return Err(input.error("stabby does not support packed structs, though you may implement IStable manually if you're very comfident")),
             "align" => {
-                let input = content;
+                let content;
                 syn::parenthesized!(content in input);
                 let lit: syn::LitInt = content.parse()?;
                 AllowedRepr::Align(lit.base10_parse()?)
             }
             _ => {
                 return Err(input.error(
-                    "Only #[repr(C)] and #[repr(transparent)] are allowed for stabby structs",
+                    "Only #[repr(C)], #[repr(transparent)] and #[repr(align(N))] are allowed for stabby structs",
                 ))
             }
         })
@@ -122,15 +118,24 @@ pub fn stabby(
     let clauses = where_clause.as_ref().map(|w| &w.predicates);
     let mut layout = None;
     let mut report = crate::Report::r#struct(ident.to_string(), version, module);
-    let repr = attrs.iter().find_map(|attr| {
-        if attr.path.is_ident("repr") {
-            syn::parse2::<AllowedRepr>(attr.tokens.clone()).ok()
-        } else {
-            None
+    let mut ordered = false;
+    let mut alignment = None;
+    for attr in attrs.iter().filter(|attr| attr.path.is_ident("repr")) {
+        let reprs = attr
+            .parse_args_with(
+                syn::punctuated::Punctuated::<AllowedRepr, syn::Token!(,)>::parse_terminated,
+            )
+            .unwrap();
+        for repr in reprs {
+            match repr {
+                AllowedRepr::C | AllowedRepr::Transparent => ordered = true,
+                AllowedRepr::Align(n) => alignment = alignment.max(Some(n)),
+            }
         }
-    });
-    let repr_attr = repr.is_none().then(|| quote! {#[repr(C)]});
-    optimize &= !matches!(repr, Some(AllowedRepr::Align(_)));
+    }
+    // `stabby` computes layouts assuming fields in order, which `#[repr(align(N))]` alone doesn't guarantee.
+    let repr_attr = (!ordered).then(|| quote! {#[repr(C)]});
+    optimize &= alignment.is_none();
     let struct_code = match &fields {
         syn::Fields::Named(fields) => {
             let fields = &fields.named;
@@ -177,7 +182,7 @@ pub fn stabby(
     let layout = layout.map_or_else(
         || quote!(()),
         |layout| {
-            if let Some(AllowedRepr::Align(mut n)) = repr {
+            if let Some(mut n) = alignment {
                 let mut align = quote!(#st::U1);
                 while n > 1 {
                     n /= 2;
@@ -213,7 +218,7 @@ pub fn stabby(
     });
     let report_bounds = report.bounds();
     let ctype = cfg!(feature = "experimental-ctypes").then(|| {
-        if matches!(repr, Some(AllowedRepr::Align(_))) {
+        if alignment.is_some() {
             return quote! {type CType = Self;};
         }
         let ctype = report.crepr();
-- 
2.43.0


From 664d3565269bddf1a589a4af8e7000f842bcd855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 30/63] fix: refuse unions whose layout was mis-evaluated

---
 stabby-macros/src/unions.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/stabby-macros/src/unions.rs b/stabby-macros/src/unions.rs
index 776cb3c..cf411aa 100644
--- a/stabby-macros/src/unions.rs
+++ b/stabby-macros/src/unions.rs
@@ -78,12 +78,24 @@ pub fn stabby(
     let ctype = cfg!(feature = "experimental-ctypes").then(|| {
         quote! {type CType = <#layout as #st::IStable>::CType;}
     });
+    let size_bug = format!(
+        "{ident}'s size was mis-evaluated by stabby, this is definitely a bug and may cause UB, please file an issue"
+    );
+    let align_bug = format!(
+        "{ident}'s align was mis-evaluated by stabby, this is definitely a bug and may cause UB, please file an issue"
+    );
+    let assertion = generics
+        .params
+        .is_empty()
+        .then(|| quote!(const _: () = {<#ident as #st::IStable>::ID;};));
     quote! {
         #(#attrs)*
         #[repr(C)]
         #vis union #ident #generics
             #fields
 
+        #assertion
+
         #[automatically_derived]
         // SAFETY: This is generated by `stabby`, and checks have been added to detect potential issues.
         unsafe impl #generics #st::IStable for #ident <#unbound_generics> where #report_bounds #layout: #st::IStable {
@@ -95,7 +107,15 @@ pub fn stabby(
             type ContainsIndirections =  <#layout as #st::IStable>::ContainsIndirections;
             #ctype
             const REPORT: &'static #st::report::TypeReport = & #report;
-            const ID: u64 = #st::report::gen_id(Self::REPORT);
+            const ID: u64 = {
+                if core::mem::size_of::<Self>() != <<Self as #st::IStable>::Size as #st::Unsigned>::USIZE {
+                    panic!(#size_bug)
+                }
+                if core::mem::align_of::<Self>() != <<Self as #st::IStable>::Align as #st::Unsigned>::USIZE {
+                    panic!(#align_bug)
+                }
+                #st::report::gen_id(Self::REPORT)
+            };
         }
     }
 }
-- 
2.43.0


From e889b7bb7bfd9e11482991c6cfa2006b91b4af54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 31/63] fix: recognise forbidden values that span bytes

---
 stabby-abi/src/istable.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/istable.rs b/stabby-abi/src/istable.rs
index d996611..9879bfd 100644
--- a/stabby-abi/src/istable.rs
+++ b/stabby-abi/src/istable.rs
@@ -285,6 +285,14 @@ pub trait IForbiddenValues {
     /// # Safety
     /// Calling this on uninitialized memory is UB.
     unsafe fn is_invalid(ptr: *const u8) -> bool;
+    /// Returns `true` if all of the remaining bytes of a multi-byte forbidden value are found at `ptr`.
+    ///
+    /// # Safety
+    /// Calling this on uninitialized memory is UB.
+    #[doc(hidden)]
+    unsafe fn rest_is_invalid(ptr: *const u8) -> bool {
+        Self::is_invalid(ptr)
+    }
 }
 /// A single multi-byte forbidden value.
 pub trait ISingleForbiddenValue {
@@ -305,6 +313,9 @@ impl IForbiddenValues for End {
     unsafe fn is_invalid(_: *const u8) -> bool {
         false
     }
+    unsafe fn rest_is_invalid(_: *const u8) -> bool {
+        true
+    }
 }
 impl ISingleForbiddenValue for Saturator {
     type Push<O: Unsigned, T> = Saturator;
@@ -337,7 +348,7 @@ impl<Offset: Unsigned, T: Unsigned, Rest: IForbiddenValues> IForbiddenValues
         >;
     type SelectOne = Array<Offset, T, Rest::SelectOne>;
     unsafe fn is_invalid(ptr: *const u8) -> bool {
-        ptr.add(Offset::USIZE).read() == T::U8 && Rest::is_invalid(ptr)
+        ptr.add(Offset::USIZE).read() == T::U8 && Rest::rest_is_invalid(ptr)
     }
 }
 impl<A: IForbiddenValues, B: IForbiddenValues> IForbiddenValues for Or<A, B> {
-- 
2.43.0


From 019b7faa463a5c708e2db47970c47f51c162adc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:12 +0000
Subject: [PATCH 32/63] fix: read an atomic tree's content with the ordering
 that makes it visible

---
 stabby-abi/src/alloc/collections/arc_btree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-abi/src/alloc/collections/arc_btree.rs b/stabby-abi/src/alloc/collections/arc_btree.rs
index 8c23a89..88d0497 100644
--- a/stabby-abi/src/alloc/collections/arc_btree.rs
+++ b/stabby-abi/src/alloc/collections/arc_btree.rs
@@ -66,7 +66,7 @@ where
     where
         T: PartialOrd<K>,
     {
-        let set = ArcBTreeSet::copy_from_ptr(self.0.load(core::sync::atomic::Ordering::Relaxed));
+        let set = ArcBTreeSet::copy_from_ptr(self.0.load(core::sync::atomic::Ordering::Acquire));
         f(set.get(value))
     }
 }
-- 
2.43.0


From edfeb944463118e61fe6e9961895455910cc4171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:16 +0000
Subject: [PATCH 33/63] fix: keep an edited tree's address from being reused
 before it is exchanged

---
 stabby-abi/src/alloc/collections/arc_btree.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/alloc/collections/arc_btree.rs b/stabby-abi/src/alloc/collections/arc_btree.rs
index 88d0497..73b21f5 100644
--- a/stabby-abi/src/alloc/collections/arc_btree.rs
+++ b/stabby-abi/src/alloc/collections/arc_btree.rs
@@ -38,7 +38,9 @@ where
     ) {
         let mut current = self.0.load(core::sync::atomic::Ordering::Acquire);
         loop {
-            let new = f(ArcBTreeSet::copy_from_ptr(current));
+            // Holding on to the current tree prevents its address from being reused by another tree until the exchange is done.
+            let held = ArcBTreeSet::copy_from_ptr(current);
+            let new = f(held.clone());
             let new_ptr = new.as_ptr();
             if core::ptr::eq(current, new_ptr) {
                 return;
-- 
2.43.0


From 99d9f77de0a412f493d23b59caf14474bcb8f5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:22 +0000
Subject: [PATCH 34/63] fix: check the split limit of atomic trees as well

---
 stabby-abi/src/alloc/collections/arc_btree.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stabby-abi/src/alloc/collections/arc_btree.rs b/stabby-abi/src/alloc/collections/arc_btree.rs
index 73b21f5..a1ab12b 100644
--- a/stabby-abi/src/alloc/collections/arc_btree.rs
+++ b/stabby-abi/src/alloc/collections/arc_btree.rs
@@ -269,6 +269,7 @@ where
     fn copy_from_ptr(
         ptr: *const ArcBTreeSetNodeInner<T, DefaultAllocator, REPLACE_ON_INSERT, SPLIT_LIMIT>,
     ) -> Self {
+        let () = Self::CHECK;
         match NonNull::new(ptr.cast_mut()) {
             None => Self {
                 root: None,
-- 
2.43.0


From 9c516c39aa6ebe4a47d455971bf83844491a47db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:27 +0000
Subject: [PATCH 35/63] fix: keep a tree's allocator when its first allocation
 fails

---
 stabby-abi/src/alloc/collections/arc_btree.rs | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/stabby-abi/src/alloc/collections/arc_btree.rs b/stabby-abi/src/alloc/collections/arc_btree.rs
index a1ab12b..6ce85d0 100644
--- a/stabby-abi/src/alloc/collections/arc_btree.rs
+++ b/stabby-abi/src/alloc/collections/arc_btree.rs
@@ -389,16 +389,21 @@ impl<T: Ord, Alloc: IAlloc, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: us
             None => {
                 // SAFETY: root == None <=> allocator is can be taken to construct a node.
                 let alloc = unsafe { self.alloc.assume_init_read() };
-                self.root = Some(ArcBTreeSetNode(Arc::new_in(
-                    ArcBTreeSetNodeInner::new(
-                        Some(ArcBTreeSetEntry {
-                            value,
-                            smaller: None,
-                        }),
-                        None,
-                    ),
-                    alloc,
-                )));
+                let node = ArcBTreeSetNodeInner::new(
+                    Some(ArcBTreeSetEntry {
+                        value,
+                        smaller: None,
+                    }),
+                    None,
+                );
+                match Arc::try_new_in(node, alloc) {
+                    Ok(node) => self.root = Some(ArcBTreeSetNode(node)),
+                    Err((_, alloc)) => {
+                        // There still is no root, so `self` must keep its allocator.
+                        self.alloc = core::mem::MaybeUninit::new(alloc);
+                        panic!("Allocation failed")
+                    }
+                }
                 None
             }
         }
-- 
2.43.0


From 75a6d678126834f0e4a69cf40841bf0acf8a7d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:36 +0000
Subject: [PATCH 36/63] fix: release the content of a dropped atomic tree

---
 stabby-abi/src/alloc/collections/arc_btree.rs | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/stabby-abi/src/alloc/collections/arc_btree.rs b/stabby-abi/src/alloc/collections/arc_btree.rs
index 6ce85d0..79d8af5 100644
--- a/stabby-abi/src/alloc/collections/arc_btree.rs
+++ b/stabby-abi/src/alloc/collections/arc_btree.rs
@@ -73,6 +73,26 @@ where
     }
 }
 
+impl<T: Ord, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: usize> Drop
+    for AtomicArcBTreeSet<T, REPLACE_ON_INSERT, SPLIT_LIMIT>
+where
+    DefaultAllocator: core::default::Default + IAlloc,
+{
+    fn drop(&mut self) {
+        if let Some(root) = NonNull::new(self.0.load(core::sync::atomic::Ordering::Acquire)) {
+            // SAFETY: The pointer came from `ArcBTreeSet::as_ptr`, and `self` owns its pointee.
+            drop(unsafe {
+                core::mem::transmute::<
+                    NonNull<
+                        ArcBTreeSetNodeInner<T, DefaultAllocator, REPLACE_ON_INSERT, SPLIT_LIMIT>,
+                    >,
+                    ArcBTreeSetNode<T, DefaultAllocator, REPLACE_ON_INSERT, SPLIT_LIMIT>,
+                >(root)
+            })
+        }
+    }
+}
+
 /// Used to turn [`ArcBTreeSet`] into [`ArcBTreeMap`]: an entry appears as its key to comparison operations.
 #[crate::stabby]
 #[derive(Debug, Clone)]
-- 
2.43.0


From 7da110932bb6006b75cc7e9390ad5afce27cf17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:34 +0000
Subject: [PATCH 37/63] fix: methods called through a borrowed trait object run
 on the borrowed data

References used as pointers of trait objects were cast along with their own
indirection: methods ran on the address of the reference.
---
 stabby-abi/src/fatptr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stabby-abi/src/fatptr.rs b/stabby-abi/src/fatptr.rs
index 69aa144..33d5539 100644
--- a/stabby-abi/src/fatptr.rs
+++ b/stabby-abi/src/fatptr.rs
@@ -52,17 +52,17 @@ pub trait IPtrClone: IPtrOwned {
 }
 impl<T> IPtr for &T {
     unsafe fn as_ref<U>(&self) -> &U {
-        core::mem::transmute(self)
+        &*(*self as *const T).cast()
     }
 }
 impl<T> IPtr for &mut T {
     unsafe fn as_ref<U>(&self) -> &U {
-        core::mem::transmute(self)
+        &*(*self as *const T).cast()
     }
 }
 impl<T> IPtrMut for &mut T {
     unsafe fn as_mut<U>(&mut self) -> &mut U {
-        core::mem::transmute(self)
+        &mut *(*self as *mut T).cast()
     }
 }
 impl<T> IPtrOwned for &mut T {
-- 
2.43.0


From b0883f70d7d4ebd75849e3fd340c1ef0f154d821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:08 +0000
Subject: [PATCH 38/63] fix: tell MaybeUninit<T> and UnsafeCell<T> from T in
 reflection reports

They had the report and identifier of T, which let a trait object made from
one be downcast to the other.
---
 stabby-abi/src/stable_impls/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/stable_impls/mod.rs b/stabby-abi/src/stable_impls/mod.rs
index 0f0cc12..bdf2cd0 100644
--- a/stabby-abi/src/stable_impls/mod.rs
+++ b/stabby-abi/src/stable_impls/mod.rs
@@ -548,7 +548,7 @@ unsafe impl<T: IStable> IStable for core::mem::MaybeUninit<T> {
     #[cfg(feature = "experimental-ctypes")]
     type CType = T::CType;
     type ContainsIndirections = T::ContainsIndirections;
-    primitive_report!(<T as IStable>::REPORT.name.as_str());
+    primitive_report!("core::mem::MaybeUninit", T);
 }
 // SAFETY: Automatic checks verify this.
 unsafe impl<T: IStable> IStable for core::cell::UnsafeCell<T> {
@@ -562,7 +562,7 @@ unsafe impl<T: IStable> IStable for core::cell::UnsafeCell<T> {
     #[cfg(feature = "experimental-ctypes")]
     type CType = T::CType;
     type ContainsIndirections = T::ContainsIndirections;
-    primitive_report!(<T as IStable>::REPORT.name.as_str());
+    primitive_report!("core::cell::UnsafeCell", T);
 }
 
 // SAFETY: Automatic checks verify this.
-- 
2.43.0


From d25c1e39dea534ea9195a18a5b5e22daca90a33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:20 +0000
Subject: [PATCH 39/63] fix: let signed restricted integers cover their whole
 range

---
 stabby-abi/src/num.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/stabby-abi/src/num.rs b/stabby-abi/src/num.rs
index 229d263..9b74189 100644
--- a/stabby-abi/src/num.rs
+++ b/stabby-abi/src/num.rs
@@ -364,13 +364,13 @@ macro_rules! makeumask {
         impl ::core::ops::Sub<$base> for $name {
             type Output = Self;
             fn sub(self, rhs: $base) -> Self {
-                Self(self.get() - rhs)
+                Self((self.get() - rhs) & Self::MASK)
             }
         }
         impl ::core::ops::Sub for $name {
             type Output = Self;
             fn sub(self, rhs: Self) -> Self {
-                Self(self.get() - rhs.get())
+                Self((self.get() - rhs.get()) & Self::MASK)
             }
         }
     };
@@ -394,11 +394,13 @@ macro_rules! makeimask {
                     - <$bits as $crate::typenum2::Unsigned>::U128 as i32))
                 | (1 << (<$bits as $crate::typenum2::Unsigned>::U128 as i32 - 1));
             /// The maximum value for this type.
-            pub const MAX: Self =
-                Self($base::MAX >> (<$bits as $crate::typenum2::Unsigned>::U128 as $base));
-            /// The maximum value for this type.
-            pub const MIN: Self =
-                Self(1 << (<$bits as $crate::typenum2::Unsigned>::U128 as i32 - 1));
+            pub const MAX: Self = Self(
+                $base::MAX
+                    >> (8 * ::core::mem::size_of::<$base>() as i32
+                        - <$bits as $crate::typenum2::Unsigned>::U128 as i32),
+            );
+            /// The minimum value for this type.
+            pub const MIN: Self = Self(!Self::MAX.0);
             /// Construct a new value if it can fit.
             pub const fn new(value: $base) -> Option<Self> {
                 match value <= Self::MAX.get() && value >= Self::MIN.get() {
@@ -409,7 +411,7 @@ macro_rules! makeimask {
             const fn sign_extend(value: $base) -> $base {
                 const SHIFT: i32 = (8 * ::core::mem::size_of::<$base>() as i32
                     - <$bits as $crate::typenum2::Unsigned>::U128 as i32);
-                value | ((value & Self::MIN.0) << SHIFT) >> (SHIFT - 1)
+                (value << SHIFT) >> SHIFT
             }
             /// Get the inner value.
             pub const fn get(&self) -> $base {
@@ -459,7 +461,7 @@ macro_rules! makeimask {
         impl ::core::ops::BitAnd<$base> for $name {
             type Output = Self;
             fn bitand(self, rhs: $base) -> Self {
-                Self(self.0 & rhs)
+                Self(Self::sign_extend(self.0 & rhs))
             }
         }
         impl ::core::ops::BitAnd for $name {
-- 
2.43.0


From dd8b1b849a8a288c7c3c219c5064dea5a2f36cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:55 +0000
Subject: [PATCH 40/63] fix: carry excess nanoseconds and refuse overflow in
 Duration

---
 stabby/src/time.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/stabby/src/time.rs b/stabby/src/time.rs
index 08b1270..c6eafbd 100644
--- a/stabby/src/time.rs
+++ b/stabby/src/time.rs
@@ -14,10 +14,18 @@ pub struct Duration {
 }
 impl Duration {
     /// Construct a new [`Duration`].
+    ///
+    /// If `subsec_nanos` is a second or more, the whole seconds in it carry over into `secs`.
+    ///
+    /// # Panics
+    /// if that carry overflows `secs`.
     pub const fn new(secs: u64, subsec_nanos: u32) -> Self {
-        Self {
-            secs,
-            nanos: subsec_nanos,
+        match secs.checked_add((subsec_nanos / 1_000_000_000) as u64) {
+            Some(secs) => Self {
+                secs,
+                nanos: subsec_nanos % 1_000_000_000,
+            },
+            None => panic!("overflow in Duration::new"),
         }
     }
     /// Construct a new [`Duration`].
@@ -74,9 +82,13 @@ impl Duration {
 }
 impl core::ops::AddAssign for Duration {
     fn add_assign(&mut self, rhs: Self) {
-        let nanos = self.nanos + rhs.nanos;
-        self.secs += rhs.secs + (nanos / 1_000_000_000) as u64;
-        self.nanos = nanos % 1_000_000_000;
+        let nanos = self.nanos as u64 + rhs.nanos as u64;
+        self.secs = self
+            .secs
+            .checked_add(rhs.secs)
+            .and_then(|secs| secs.checked_add(nanos / 1_000_000_000))
+            .expect("overflow when adding durations");
+        self.nanos = (nanos % 1_000_000_000) as u32;
     }
 }
 impl core::ops::Add for Duration {
-- 
2.43.0


From 8ebbcd2265dca583600b3cf90cda0f6b9cc2e5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:55 +0000
Subject: [PATCH 41/63] fix: round Duration::from_secs_f64 like the standard
 one

---
 stabby/src/time.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/stabby/src/time.rs b/stabby/src/time.rs
index c6eafbd..c8025a1 100644
--- a/stabby/src/time.rs
+++ b/stabby/src/time.rs
@@ -46,14 +46,10 @@ impl Duration {
     /// Construct a new [`Duration`].
     ///
     /// # Panics
-    /// if `secs` is negative.
+    /// if `secs` is negative, not finite, or more than a [`Duration`] can hold.
     #[cfg(feature = "std")]
     pub fn from_secs_f64(secs: f64) -> Self {
-        assert!(secs >= 0.);
-        Self {
-            secs: secs.floor() as u64,
-            nanos: ((secs % 1.) * 1_000_000_000.) as u32,
-        }
+        core::time::Duration::from_secs_f64(secs).into()
     }
     /// Returns the number of seconds in the duration.
     pub const fn as_secs(&self) -> u64 {
-- 
2.43.0


From dfbb22a9c1116d896d614d9b80b7962b1cf9fbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:55 +0000
Subject: [PATCH 42/63] fix: make AtomicDuration::MAX a duration it can hold

---
 stabby/src/time.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stabby/src/time.rs b/stabby/src/time.rs
index c8025a1..51004e5 100644
--- a/stabby/src/time.rs
+++ b/stabby/src/time.rs
@@ -150,7 +150,10 @@ impl AtomicDuration {
     /// This type's time resolution.
     pub const RESOLUTION: Duration = Self::i64_to_duration(1).0;
     /// This type's maximum value.
-    pub const MAX: Duration = Self::i64_to_duration(i64::MAX).0;
+    pub const MAX: Duration = Duration {
+        secs: (i64::MAX >> SHIFT) as u64,
+        nanos: 999_999_000,
+    };
     /// Atomically loads the stored value, converting it to a duration-sign tuple.
     ///
     /// The [`Ordering`] is used in a single `load` operation.
-- 
2.43.0


From de20179dfecb5cb80baf0398e8aefc7978de1590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:50 +0000
Subject: [PATCH 43/63] fix: convert Duration to seconds like the standard one

---
 stabby/src/time.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby/src/time.rs b/stabby/src/time.rs
index 51004e5..ccf2dc2 100644
--- a/stabby/src/time.rs
+++ b/stabby/src/time.rs
@@ -61,7 +61,7 @@ impl Duration {
     }
     /// Returns the number of seconds in the duration, including sub-seconds.
     pub fn as_secs_f64(&self) -> f64 {
-        self.as_nanos() as f64 / 1_000_000_000.
+        core::time::Duration::from(*self).as_secs_f64()
     }
     /// Returns the number of nanoseconds after the last second of the duration.
     pub const fn subsec_nanos(&self) -> u32 {
-- 
2.43.0


From ca748bd42a7745a7136a800ceebfa163afbeeb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:41 +0000
Subject: [PATCH 44/63] fix: clone wakers with the allocator they were made for

---
 stabby-abi/src/future.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/stabby-abi/src/future.rs b/stabby-abi/src/future.rs
index b975f3d..f4e7593 100644
--- a/stabby-abi/src/future.rs
+++ b/stabby-abi/src/future.rs
@@ -127,21 +127,25 @@ mod stable_waker {
     impl<Alloc: IAlloc + Default> StableWaker<'_, Alloc> {
         /// Turns this into a waker whose clone implementation is to clone the underlying waker into a stable Arc.
         pub fn with_waker<F: FnOnce(&Waker) -> U, U>(&self, f: F) -> U {
-            const VTABLE: RawWakerVTable =
-                RawWakerVTable::new(clone, wake_by_ref, wake_by_ref, drop);
-            unsafe fn clone(this: *const ()) -> RawWaker {
-                let this = unsafe { &*(this as *const StableWaker) };
-                (this.clone)(this.waker).into_raw_waker()
-            }
-            unsafe fn wake_by_ref(this: *const ()) {
-                let this = unsafe { &*(this as *const StableWaker) };
-                (this.wake_by_ref.as_ref_unchecked())(this.waker.as_ref_unchecked())
-            }
-            const unsafe fn drop(_: *const ()) {}
-            let waker = RawWaker::new(self as *const Self as *const _, &VTABLE);
+            let waker = RawWaker::new(self as *const Self as *const _, &Self::BORROWED_VTABLE);
             let waker = unsafe { Waker::from_raw(waker) };
             f(&waker)
         }
+        const BORROWED_VTABLE: RawWakerVTable = RawWakerVTable::new(
+            Self::raw_clone,
+            Self::raw_wake_by_ref,
+            Self::raw_wake_by_ref,
+            Self::raw_drop,
+        );
+        unsafe fn raw_clone(this: *const ()) -> RawWaker {
+            let this = unsafe { &*(this as *const Self) };
+            (this.clone)(this.waker).into_raw_waker()
+        }
+        unsafe fn raw_wake_by_ref(this: *const ()) {
+            let this = unsafe { &*(this as *const Self) };
+            (this.wake_by_ref.as_ref_unchecked())(this.waker.as_ref_unchecked())
+        }
+        const unsafe fn raw_drop(_: *const ()) {}
         unsafe extern "C" fn waker_drop(waker: &mut ManuallyDrop<Waker>) {
             ManuallyDrop::drop(waker)
         }
-- 
2.43.0


From f51b340b449e081840890402b2911187f85ef36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:38 +0000
Subject: [PATCH 45/63] fix: let a resolved MaybeResolved give its value out
 once

match_mut's guards write the matched payload back when they are dropped, so
replacing the enum while one is alive corrupted it: the value given out was
garbage, and it or the future were destroyed again.
---
 stabby-abi/src/future.rs | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/stabby-abi/src/future.rs b/stabby-abi/src/future.rs
index f4e7593..47651a4 100644
--- a/stabby-abi/src/future.rs
+++ b/stabby-abi/src/future.rs
@@ -350,26 +350,23 @@ where
         cx: &mut Context<'_>,
     ) -> core::task::Poll<Self::Output> {
         let this = self.get_mut();
-        let inner = this as *mut _;
-        this.match_mut(
-            |value| {
-                let value = unsafe {
-                    let value = core::ptr::read(value);
-                    core::ptr::write(inner, MaybeResolved::Empty());
-                    value
-                };
+        let polled = this.match_mut(
+            |_| None,
+            || None,
+            |mut future| Some(core::pin::Pin::new(&mut *future).poll(cx)),
+        );
+        // The value or the future is only removed once it's no longer borrowed: ending the borrow would write it back.
+        match polled {
+            Some(core::task::Poll::Ready(value)) => {
+                *this = MaybeResolved::Empty();
                 core::task::Poll::Ready(value)
-            },
-            || core::task::Poll::Pending,
-            |future| match core::future::Future::poll(core::pin::Pin::new(future), cx) {
-                core::task::Poll::Ready(value) => {
-                    unsafe {
-                        core::ptr::replace(inner, MaybeResolved::Empty());
-                    }
-                    core::task::Poll::Ready(value)
-                }
-                core::task::Poll::Pending => core::task::Poll::Pending,
-            },
-        )
+            }
+            Some(core::task::Poll::Pending) => core::task::Poll::Pending,
+            None => core::mem::replace(this, MaybeResolved::Empty()).match_owned(
+                |value| core::task::Poll::Ready(value),
+                || core::task::Poll::Pending,
+                |_| core::task::Poll::Pending,
+            ),
+        }
     }
 }
-- 
2.43.0


From 200bb598145325aa03d26f6065c613b9adf8083e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:04 +0000
Subject: [PATCH 46/63] fix: accept the canaries whose names have an underscore

---
 stabby-macros/src/functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-macros/src/functions.rs b/stabby-macros/src/functions.rs
index 4e12d77..c713f4b 100644
--- a/stabby-macros/src/functions.rs
+++ b/stabby-macros/src/functions.rs
@@ -188,7 +188,7 @@ impl FromStr for CanarySpec {
         }
         let known = Self::ARRAY.iter().map(|s| s.0).collect::<Vec<_>>();
         if s.chars()
-            .any(|c| !(c.is_alphabetic() || c == ' ' || c == ','))
+            .any(|c| !(c.is_alphabetic() || c == ' ' || c == ',' || c == '_'))
         {
             return Err(format!("Invalid canary-spec: `{s}` must be a comma-separated list of canary identifiers ({known:?})"));
         }
-- 
2.43.0


From 1552d7fef8789d07265a8bb492f1c3842875702d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:12 +0000
Subject: [PATCH 47/63] fix: see what another thread's check of an import has
 written

---
 stabby-abi/src/checked_import.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-abi/src/checked_import.rs b/stabby-abi/src/checked_import.rs
index a4d876d..64bdfb3 100644
--- a/stabby-abi/src/checked_import.rs
+++ b/stabby-abi/src/checked_import.rs
@@ -107,7 +107,7 @@ impl<F> CheckedImport<F> {
     /// Returns a [`ReportMismatch`] if the local and loaded reports differ.
     pub fn as_ref(&self) -> Result<&F, ReportMismatch> {
         loop {
-            match self.checked.load(Ordering::Relaxed) {
+            match self.checked.load(Ordering::Acquire) {
                 UNCHECKED => match unsafe { (self.checker)(self.local_report) } {
                     Some(result) => {
                         if self
-- 
2.43.0


From f68989fbf2d2423c6b39127b35999a1ee5c6fc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:01 +0000
Subject: [PATCH 48/63] fix: tell types apart that have the first fields of one
 another

---
 stabby-abi/src/report.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stabby-abi/src/report.rs b/stabby-abi/src/report.rs
index 433d235..d7db2fb 100644
--- a/stabby-abi/src/report.rs
+++ b/stabby-abi/src/report.rs
@@ -69,6 +69,7 @@ impl TypeReport {
             && self.module == other.module
             && self.version == other.version
             && self.tyty == other.tyty
+            && self.fields().count() == other.fields().count()
             && self
                 .fields()
                 .zip(other.fields())
-- 
2.43.0


From 0bf02b07f38ca8945f3d2c256394b49b176460b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:01 +0000
Subject: [PATCH 49/63] fix: describe what a ManuallyDrop has in it

---
 stabby-abi/src/stable_impls/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-abi/src/stable_impls/mod.rs b/stabby-abi/src/stable_impls/mod.rs
index bdf2cd0..faf8bc7 100644
--- a/stabby-abi/src/stable_impls/mod.rs
+++ b/stabby-abi/src/stable_impls/mod.rs
@@ -533,7 +533,7 @@ unsafe impl IStable for core::num::NonZeroIsize {
 
 // SAFETY: Automatic checks verify this.
 unsafe impl<T: IStable> IStable for core::mem::ManuallyDrop<T> {
-    same_as!(T, <T as IStable>::REPORT.name.as_str());
+    same_as!(T, "core::mem::ManuallyDrop", T);
     type HasExactlyOneNiche = T::HasExactlyOneNiche;
     type ContainsIndirections = T::ContainsIndirections;
 }
-- 
2.43.0


From e500bab84ac4b7e7325444e8428d6aa4409143ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:51 +0000
Subject: [PATCH 50/63] fix: keep a mutable iterator from wrapping around when
 skipping far ahead

nth added without checking: after a first element, nth(usize::MAX) overflowed,
and without overflow checks handed the first element out again.
---
 stabby-abi/src/alloc/single_or_vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-abi/src/alloc/single_or_vec.rs b/stabby-abi/src/alloc/single_or_vec.rs
index 1b40208..372cc7b 100644
--- a/stabby-abi/src/alloc/single_or_vec.rs
+++ b/stabby-abi/src/alloc/single_or_vec.rs
@@ -519,7 +519,7 @@ where
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.start += n;
+        self.start = self.start.saturating_add(n);
         self.next()
     }
 }
-- 
2.43.0


From b6ddfb2d04fcdf209e88a91da45310502d886284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:39 +0000
Subject: [PATCH 51/63] fix: read strings that can't be borrowed from their
 source

String (and BoxedStr and ArcStr through it) only deserialized from strings that
the deserializer could lend: JSON's with escapes, which String itself writes, and
all those read from a reader were refused.
---
 stabby-abi/src/alloc/string.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/alloc/string.rs b/stabby-abi/src/alloc/string.rs
index 6ab2b5b..dbbf4ce 100644
--- a/stabby-abi/src/alloc/string.rs
+++ b/stabby-abi/src/alloc/string.rs
@@ -371,7 +371,7 @@ mod std_impl {
 mod serde_impl {
     use super::*;
     use crate::alloc::IAlloc;
-    use serde::{Deserialize, Serialize};
+    use serde::{de::Visitor, Deserialize, Serialize};
     impl<Alloc: IAlloc> Serialize for String<Alloc> {
         fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
         where
@@ -386,7 +386,21 @@ mod serde_impl {
         where
             D: serde::Deserializer<'a>,
         {
-            crate::str::Str::deserialize(deserializer).map(Into::into)
+            deserializer.deserialize_string(StringVisitor(core::marker::PhantomData))
+        }
+    }
+    struct StringVisitor<Alloc>(core::marker::PhantomData<Alloc>);
+    impl<Alloc: IAlloc + Default> Visitor<'_> for StringVisitor<Alloc> {
+        type Value = String<Alloc>;
+        // Also called for borrowed and owned strings.
+        fn visit_str<E>(self, v: &str) -> Result<Self::Value, E>
+        where
+            E: serde::de::Error,
+        {
+            Ok(v.into())
+        }
+        fn expecting(&self, formatter: &mut core::fmt::Formatter) -> core::fmt::Result {
+            formatter.write_str("A string")
         }
     }
 }
-- 
2.43.0


From 9e695ef18575a1e36e6664e910f24d7aed5eaa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:39 +0000
Subject: [PATCH 52/63] fix: don't allocate whatever a deserializer says a
 sequence's length is

Vec reserved as many elements as the hint said, which panics or exhausts memory
on a corrupt length.
---
 stabby-abi/src/alloc/vec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index 7cd3013..055f4cc 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -874,7 +874,10 @@ mod serde_impl {
         where
             A: serde::de::SeqAccess<'a>,
         {
-            let mut this = Vec::with_capacity_in(seq.size_hint().unwrap_or(0), Alloc::default());
+            // The hint comes from the input: it mustn't be trusted with more than a megabyte.
+            let max = 1024 * 1024 / core::mem::size_of::<T>().max(1);
+            let capacity = seq.size_hint().unwrap_or(0).min(max);
+            let mut this = Vec::with_capacity_in(capacity, Alloc::default());
             while let Some(v) = seq.next_element()? {
                 this.push(v);
             }
-- 
2.43.0


From 87c1e0348fbbb3ccb7bcaf82ddbc61b94452bc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:18 +0000
Subject: [PATCH 53/63] fix: keep mutable slices invariant in their elements'
 type

---
 stabby-abi/src/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-abi/src/slice.rs b/stabby-abi/src/slice.rs
index bf5325a..0d2e4b5 100644
--- a/stabby-abi/src/slice.rs
+++ b/stabby-abi/src/slice.rs
@@ -120,7 +120,7 @@ pub struct SliceMut<'a, T: 'a> {
     /// The length of the slice.
     pub len: usize,
     /// Ensures the slice has correct lifetime and variance.
-    pub marker: core::marker::PhantomData<&'a mut ()>,
+    pub marker: core::marker::PhantomData<&'a mut T>,
 }
 // SAFETY: SliceMut is analogous to a mutable reference
 unsafe impl<'a, T: 'a> Send for SliceMut<'a, T> where &'a mut T: Send {}
-- 
2.43.0


From bbf2641685d8e4159b7ea44873e29826ff714710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:20 +0000
Subject: [PATCH 54/63] fix: don't let results be sent or shared between
 threads when their payloads can't

---
 stabby-abi/src/result.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/stabby-abi/src/result.rs b/stabby-abi/src/result.rs
index 08ae6d5..16f4972 100644
--- a/stabby-abi/src/result.rs
+++ b/stabby-abi/src/result.rs
@@ -34,6 +34,20 @@ where
 {
     storage: Storage<<Self as IStable>::Size, <Self as IStable>::Align>,
 }
+// SAFETY: `Result` is analogous to `core::result::Result`: it may be sent if what it contains may.
+unsafe impl<Ok: Send, Err: Send> Send for Result<Ok, Err>
+where
+    Ok: IDeterminantProvider<Err>,
+    Err: IStable,
+{
+}
+// SAFETY: `Result` is analogous to `core::result::Result`: it may be shared if what it contains may.
+unsafe impl<Ok: Sync, Err: Sync> Sync for Result<Ok, Err>
+where
+    Ok: IDeterminantProvider<Err>,
+    Err: IStable,
+{
+}
 impl<Ok: Unpin, Err: Unpin> Unpin for Result<Ok, Err>
 where
     Ok: IDeterminantProvider<Err>,
-- 
2.43.0


From 7833706fe404faf1e9a027a9e331484786d94978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:20 +0000
Subject: [PATCH 55/63] fix: don't let atomic trees share what can't be shared
 between threads

---
 stabby-abi/src/alloc/collections/arc_btree.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/stabby-abi/src/alloc/collections/arc_btree.rs b/stabby-abi/src/alloc/collections/arc_btree.rs
index 79d8af5..77d74b2 100644
--- a/stabby-abi/src/alloc/collections/arc_btree.rs
+++ b/stabby-abi/src/alloc/collections/arc_btree.rs
@@ -9,6 +9,20 @@ pub struct AtomicArcBTreeSet<T: Ord, const REPLACE_ON_INSERT: bool, const SPLIT_
 )
 where
     DefaultAllocator: core::default::Default + IAlloc;
+// SAFETY: Threads that have access to the set share its elements, the last of them destroys them.
+unsafe impl<T: Ord + Send + Sync, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: usize> Send
+    for AtomicArcBTreeSet<T, REPLACE_ON_INSERT, SPLIT_LIMIT>
+where
+    DefaultAllocator: core::default::Default + IAlloc,
+{
+}
+// SAFETY: Threads that have access to the set share its elements, the last of them destroys them.
+unsafe impl<T: Ord + Send + Sync, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: usize> Sync
+    for AtomicArcBTreeSet<T, REPLACE_ON_INSERT, SPLIT_LIMIT>
+where
+    DefaultAllocator: core::default::Default + IAlloc,
+{
+}
 impl<T: Ord + Clone, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: usize> Default
     for AtomicArcBTreeSet<T, REPLACE_ON_INSERT, SPLIT_LIMIT>
 where
-- 
2.43.0


From a21a9a326bd73be1ab6da05d1a904a404409a1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:20 +0000
Subject: [PATCH 56/63] fix: tell objects that may be sent from those that may
 be shared

---
 stabby-abi/src/vtable/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-abi/src/vtable/mod.rs b/stabby-abi/src/vtable/mod.rs
index 21dcc60..e9bbb91 100644
--- a/stabby-abi/src/vtable/mod.rs
+++ b/stabby-abi/src/vtable/mod.rs
@@ -336,7 +336,7 @@ impl<T: HasDropVt> HasDropVt for VtSync<T> {
 pub trait HasSendVt {}
 impl<T> HasSendVt for VtSend<T> {}
 impl<T: HasSendVt> HasSendVt for VtSync<T> {}
-impl<Head, Tail: HasSyncVt> HasSendVt for VTable<Head, Tail> {}
+impl<Head, Tail: HasSendVt> HasSendVt for VTable<Head, Tail> {}
 /// Whether or not a vtable includes [`VtSync`]
 pub trait HasSyncVt {}
 impl<T> HasSyncVt for VtSync<T> {}
-- 
2.43.0


From b071e7dac605d810171535756b1575d84f53e6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:20 +0000
Subject: [PATCH 57/63] fix: only send references to objects that may be shared

---
 stabby-abi/src/fatptr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-abi/src/fatptr.rs b/stabby-abi/src/fatptr.rs
index 33d5539..39b62b1 100644
--- a/stabby-abi/src/fatptr.rs
+++ b/stabby-abi/src/fatptr.rs
@@ -372,7 +372,7 @@ impl<'a, T, Vt: Copy + IConstConstructor<'a, T>> From<&'a T> for DynRef<'a, Vt>
 }
 
 // SAFETY: This is analogous to a reference, and Vt proves the rest
-unsafe impl<Vt: HasSendVt> Send for DynRef<'_, Vt> {}
+unsafe impl<Vt: HasSyncVt> Send for DynRef<'_, Vt> {}
 // SAFETY: This is analogous to a reference, and Vt proves the rest
 unsafe impl<Vt: HasSyncVt> Sync for DynRef<'_, Vt> {}
 
-- 
2.43.0


From adad35b00b8b5d73a91cce9a94730d867260ea57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:14 +0000
Subject: [PATCH 58/63] fix: require of objects behind shared pointers that
 they can be shared to be sent

---
 stabby-abi/src/alloc/boxed.rs |  4 ++++
 stabby-abi/src/alloc/sync.rs  | 14 +++++++++++++-
 stabby-abi/src/fatptr.rs      | 21 +++++++++++++++++----
 3 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/stabby-abi/src/alloc/boxed.rs b/stabby-abi/src/alloc/boxed.rs
index 30b156d..080dbfd 100644
--- a/stabby-abi/src/alloc/boxed.rs
+++ b/stabby-abi/src/alloc/boxed.rs
@@ -233,6 +233,10 @@ impl<T, Alloc: IAlloc> crate::IPtrMut for Box<T, Alloc> {
         self.ptr.cast().as_mut()
     }
 }
+// SAFETY: `Box<T>` is `Send` if `T` is.
+unsafe impl<T, Alloc: IAlloc, Vt: crate::vtable::HasSendVt> crate::IPtrSend<Vt> for Box<T, Alloc> {}
+// SAFETY: `Box<T>` is `Sync` if `T` is.
+unsafe impl<T, Alloc: IAlloc, Vt: crate::vtable::HasSyncVt> crate::IPtrSync<Vt> for Box<T, Alloc> {}
 impl<T, Alloc: IAlloc> crate::IPtrOwned for Box<T, Alloc> {
     fn drop(this: &mut core::mem::ManuallyDrop<Self>, drop: unsafe extern "C" fn(&mut ())) {
         let rthis = &mut ***this;
diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index dfea14a..b5f6069 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -22,7 +22,11 @@ use core::{
 
 use crate::atomics::{AtomicPtr, AtomicUsize, Ordering};
 
-use crate::{unreachable_unchecked, vtable::HasDropVt, Dyn, IStable, IntoDyn};
+use crate::{
+    unreachable_unchecked,
+    vtable::{HasDropVt, HasSendVt, HasSyncVt},
+    Dyn, IStable, IntoDyn,
+};
 
 use super::{
     vec::{ptr_add, ptr_diff, Vec, VecInner},
@@ -746,6 +750,10 @@ impl<T, Alloc: IAlloc> crate::IPtrTryAsMut for Arc<T, Alloc> {
         Self::get_mut(self).map(|r| unsafe { core::mem::transmute::<&mut T, &mut U>(r) })
     }
 }
+// SAFETY: `Arc<T>` is `Send` if `T` is `Send` and `Sync`.
+unsafe impl<T, Alloc: IAlloc, Vt: HasSendVt + HasSyncVt> crate::IPtrSend<Vt> for Arc<T, Alloc> {}
+// SAFETY: `Arc<T>` is `Sync` if `T` is `Send` and `Sync`.
+unsafe impl<T, Alloc: IAlloc, Vt: HasSendVt + HasSyncVt> crate::IPtrSync<Vt> for Arc<T, Alloc> {}
 impl<T, Alloc: IAlloc> crate::IPtrOwned for Arc<T, Alloc> {
     fn drop(this: &mut core::mem::ManuallyDrop<Self>, drop: unsafe extern "C" fn(&mut ())) {
         if unsafe { this.ptr.prefix() }
@@ -774,6 +782,10 @@ impl<T, Alloc: IAlloc> IntoDyn for Arc<T, Alloc> {
     }
 }
 
+// SAFETY: `Weak<T>` is `Send` if `T` is `Send` and `Sync`.
+unsafe impl<T, Alloc: IAlloc, Vt: HasSendVt + HasSyncVt> crate::IPtrSend<Vt> for Weak<T, Alloc> {}
+// SAFETY: `Weak<T>` is `Sync` if `T` is `Send` and `Sync`.
+unsafe impl<T, Alloc: IAlloc, Vt: HasSendVt + HasSyncVt> crate::IPtrSync<Vt> for Weak<T, Alloc> {}
 impl<T, Alloc: IAlloc> crate::IPtrOwned for Weak<T, Alloc> {
     fn drop(this: &mut core::mem::ManuallyDrop<Self>, _drop: unsafe extern "C" fn(&mut ())) {
         // SAFETY: `this` is immediately forgotten. The value belongs to the strong references: it isn't ours to drop.
diff --git a/stabby-abi/src/fatptr.rs b/stabby-abi/src/fatptr.rs
index 39b62b1..d18b871 100644
--- a/stabby-abi/src/fatptr.rs
+++ b/stabby-abi/src/fatptr.rs
@@ -50,6 +50,19 @@ pub trait IPtrClone: IPtrOwned {
     /// Clone the pointer.
     fn clone(this: &Self) -> Self;
 }
+/// A pointer that may be sent to other threads if its pointee's vtable is `Vt`.
+/// # Safety
+/// `Vt` must prove what the pointer requires of its pointee to be `Send`.
+pub unsafe trait IPtrSend<Vt> {}
+/// A pointer that may be shared with other threads if its pointee's vtable is `Vt`.
+/// # Safety
+/// `Vt` must prove what the pointer requires of its pointee to be `Sync`.
+pub unsafe trait IPtrSync<Vt> {}
+// SAFETY: `&mut T` is `Send` if `T` is.
+unsafe impl<T, Vt: HasSendVt> IPtrSend<Vt> for &mut T {}
+// SAFETY: `&mut T` is `Sync` if `T` is.
+unsafe impl<T, Vt: HasSyncVt> IPtrSync<Vt> for &mut T {}
+
 impl<T> IPtr for &T {
     unsafe fn as_ref<U>(&self) -> &U {
         &*(*self as *const T).cast()
@@ -376,7 +389,7 @@ unsafe impl<Vt: HasSyncVt> Send for DynRef<'_, Vt> {}
 // SAFETY: This is analogous to a reference, and Vt proves the rest
 unsafe impl<Vt: HasSyncVt> Sync for DynRef<'_, Vt> {}
 
-// SAFETY: The pointer must be `Send` and the pointee must me `Send` and `Sync`.
-unsafe impl<P: IPtrOwned + Send, Vt: HasSendVt + HasDropVt> Send for Dyn<'_, P, Vt> {}
-// SAFETY: The pointer must be `Sync` and the pointee must me `Send` and `Sync`.
-unsafe impl<P: IPtrOwned + Sync, Vt: HasSyncVt + HasDropVt> Sync for Dyn<'_, P, Vt> {}
+// SAFETY: The pointer must be `Send`, and it tells what the pointee must be.
+unsafe impl<P: IPtrOwned + IPtrSend<Vt> + Send, Vt: HasDropVt> Send for Dyn<'_, P, Vt> {}
+// SAFETY: The pointer must be `Sync`, and it tells what the pointee must be.
+unsafe impl<P: IPtrOwned + IPtrSync<Vt> + Sync, Vt: HasDropVt> Sync for Dyn<'_, P, Vt> {}
-- 
2.43.0


From ee1b4b46ce92e470ec62ffdae9899ba1fecb78da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:15 +0000
Subject: [PATCH 59/63] fix: only share boxes whose allocator may be shared

---
 stabby-abi/src/alloc/boxed.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/alloc/boxed.rs b/stabby-abi/src/alloc/boxed.rs
index 080dbfd..d89837d 100644
--- a/stabby-abi/src/alloc/boxed.rs
+++ b/stabby-abi/src/alloc/boxed.rs
@@ -29,11 +29,11 @@ pub struct Box<T, Alloc: IAlloc = super::DefaultAllocator> {
 // SAFETY: Same constraints as `std::boxed::Box`
 unsafe impl<T: Send, Alloc: IAlloc + Send> Send for Box<T, Alloc> {}
 // SAFETY: Same constraints as `std::boxed::Box`
-unsafe impl<T: Sync, Alloc: IAlloc> Sync for Box<T, Alloc> {}
+unsafe impl<T: Sync, Alloc: IAlloc + Sync> Sync for Box<T, Alloc> {}
 // SAFETY: Same constraints as `std::boxed::Box`
 unsafe impl<T: Send, Alloc: IAlloc + Send> Send for BoxedSlice<T, Alloc> {}
 // SAFETY: Same constraints as `std::boxed::Box`
-unsafe impl<T: Sync, Alloc: IAlloc> Sync for BoxedSlice<T, Alloc> {}
+unsafe impl<T: Sync, Alloc: IAlloc + Sync> Sync for BoxedSlice<T, Alloc> {}
 
 #[cfg(not(stabby_default_alloc = "disabled"))]
 impl<T> Box<T> {
-- 
2.43.0


From e33f3f59efda5605ecff3cacb2fa2e369f55eaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:18 +0000
Subject: [PATCH 60/63] fix: move the arguments of async functions into their
 futures

They were captured by reference where the body doesn't consume them, so
async functions that only read their arguments didn't compile.
---
 stabby-macros/src/functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-macros/src/functions.rs b/stabby-macros/src/functions.rs
index c713f4b..311e8fa 100644
--- a/stabby-macros/src/functions.rs
+++ b/stabby-macros/src/functions.rs
@@ -146,7 +146,7 @@ pub fn stabby(attrs: Attrs, fn_spec: syn::ItemFn) -> proc_macro2::TokenStream {
         }
         let vt: TokenStream = crate::vtable(future.into()).into();
         let output = quote!( -> #st::Dyn<#lt, Box<()>, #vt>);
-        (output, quote!(Box::new(async {#block}).into()))
+        (output, quote!(Box::new(async move {#block}).into()))
     } else {
         (quote!(#output), quote!(#block))
     };
-- 
2.43.0


From 7b9e5ac9522815cd207d27d2589c8b590f20a30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:12 +0000
Subject: [PATCH 61/63] fix: don't let the bounds of drained ranges overflow

`try_drain(..=usize::MAX)` panicked, or (as did `drain`) took the range
for an empty one without overflow checks; excluding `usize::MAX` from
the start drained everything.
---
 stabby-abi/src/alloc/vec.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index 055f4cc..4bcdc5c 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -349,11 +349,11 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
         let original_len = self.len();
         let from = match range.start_bound() {
             core::ops::Bound::Included(i) => *i,
-            core::ops::Bound::Excluded(i) => *i + 1,
+            core::ops::Bound::Excluded(i) => i.checked_add(1).expect("Range start out of bounds"),
             core::ops::Bound::Unbounded => 0,
         };
         let to = match range.end_bound() {
-            core::ops::Bound::Included(i) => *i + 1,
+            core::ops::Bound::Included(i) => i.checked_add(1).expect("Range end out of bounds"),
             core::ops::Bound::Excluded(i) => *i,
             core::ops::Bound::Unbounded => original_len,
         };
@@ -382,11 +382,11 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
         let original_len = self.len();
         let from = match range.start_bound() {
             core::ops::Bound::Included(i) => *i,
-            core::ops::Bound::Excluded(i) => *i + 1,
+            core::ops::Bound::Excluded(i) => i.checked_add(1)?,
             core::ops::Bound::Unbounded => 0,
         };
         let to = match range.end_bound() {
-            core::ops::Bound::Included(i) => *i + 1,
+            core::ops::Bound::Included(i) => i.checked_add(1)?,
             core::ops::Bound::Excluded(i) => *i,
             core::ops::Bound::Unbounded => original_len,
         };
-- 
2.43.0


From 384ee3904c4f905e35411b5ee8551de2f9609219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:10 +0000
Subject: [PATCH 62/63] fix: count the niches of core's Ordering and of tagged
 enums

---
 stabby-abi/src/stable_impls/mod.rs | 2 +-
 stabby-macros/src/enums.rs         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/stable_impls/mod.rs b/stabby-abi/src/stable_impls/mod.rs
index faf8bc7..2e25964 100644
--- a/stabby-abi/src/stable_impls/mod.rs
+++ b/stabby-abi/src/stable_impls/mod.rs
@@ -1002,7 +1002,7 @@ unsafe impl IStable for core::cmp::Ordering {
     type Size = U1;
     type ForbiddenValues = crate::istable::ForbiddenRange<U2, U254, U0>;
     type UnusedBits = End;
-    type HasExactlyOneNiche = B0;
+    type HasExactlyOneNiche = Saturator;
     type ContainsIndirections = B0;
     #[cfg(feature = "experimental-ctypes")]
     type CType = u8;
diff --git a/stabby-macros/src/enums.rs b/stabby-macros/src/enums.rs
index a5f0e39..aa085f5 100644
--- a/stabby-macros/src/enums.rs
+++ b/stabby-macros/src/enums.rs
@@ -312,7 +312,7 @@ pub fn stabby(
             type UnusedBits =<#layout as #st::IStable>::UnusedBits;
             type Size = <#layout as #st::IStable>::Size;
             type Align = <#layout as #st::IStable>::Align;
-            type HasExactlyOneNiche = #st::B0;
+            type HasExactlyOneNiche = #st::istable::Saturator;
             type ContainsIndirections = <#layout as #st::IStable>::ContainsIndirections;
             #ctype
             const REPORT: &'static #st::report::TypeReport = & #report;
-- 
2.43.0


From 099b3e1ff848f781544ec06a1b89acd039bd7bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:17 +0000
Subject: [PATCH 63/63] fix: count the niches of abi_stable's types, and let
 the abi_stable feature build without experimental-ctypes

---
 stabby-abi/src/stable_impls/abi_stable.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/stabby-abi/src/stable_impls/abi_stable.rs b/stabby-abi/src/stable_impls/abi_stable.rs
index 0726a2b..bd3ae3f 100644
--- a/stabby-abi/src/stable_impls/abi_stable.rs
+++ b/stabby-abi/src/stable_impls/abi_stable.rs
@@ -1,6 +1,6 @@
 use core::ptr::NonNull;
 
-use crate::{typenum2::*, End, IStable, Tuple};
+use crate::{istable::Saturator, typenum2::*, End, IStable, Tuple};
 
 // SAFETY: Compile-time checks are in place.
 unsafe impl<'a, T: IStable> IStable for abi_stable::RRef<'a, T> {
@@ -24,8 +24,9 @@ unsafe impl<T: IStable> IStable for abi_stable::std_types::RVec<T> {
     type Align = <core::ptr::NonNull<T> as IStable>::Align;
     type ForbiddenValues = <core::ptr::NonNull<T> as IStable>::ForbiddenValues;
     type UnusedBits = End;
-    type HasExactlyOneNiche = B1;
+    type HasExactlyOneNiche = Saturator;
     type ContainsIndirections = B1;
+    #[cfg(feature = "experimental-ctypes")]
     type CType = [*const T; 4];
     primitive_report!("abi_stable::std_types::RVec", T);
 }
@@ -47,6 +48,7 @@ unsafe impl<'a, T: IStable> IStable for abi_stable::std_types::RSlice<'a, T> {
     type UnusedBits = End;
     type HasExactlyOneNiche = B0;
     type ContainsIndirections = B1;
+    #[cfg(feature = "experimental-ctypes")]
     type CType = [*const T; 2];
     primitive_report!("abi_stable::std_types::RSlice", T);
 }
@@ -68,6 +70,7 @@ unsafe impl<'a, T: IStable> IStable for abi_stable::std_types::RSliceMut<'a, T>
     type UnusedBits = End;
     type HasExactlyOneNiche = B0;
     type ContainsIndirections = B1;
+    #[cfg(feature = "experimental-ctypes")]
     type CType = [*const T; 2];
     primitive_report!("abi_stable::std_types::RSliceMut", T);
 }
@@ -82,8 +85,9 @@ where
     type Align = <core::ptr::NonNull<()> as IStable>::Align;
     type ForbiddenValues = <core::ptr::NonNull<()> as IStable>::ForbiddenValues;
     type UnusedBits = End;
-    type HasExactlyOneNiche = B1;
+    type HasExactlyOneNiche = Saturator;
     type ContainsIndirections = B1;
+    #[cfg(feature = "experimental-ctypes")]
     type CType = [*const (); 3];
     primitive_report!("abi_stable::std_types::RHashMap", Tuple<K, V>);
 }
@@ -103,8 +107,9 @@ unsafe impl<T: IStable> IStable for abi_stable::std_types::RBox<T> {
     type Align = <core::ptr::NonNull<T> as IStable>::Align;
     type ForbiddenValues = <core::ptr::NonNull<T> as IStable>::ForbiddenValues;
     type UnusedBits = End;
-    type HasExactlyOneNiche = B1;
+    type HasExactlyOneNiche = Saturator;
     type ContainsIndirections = B1;
+    #[cfg(feature = "experimental-ctypes")]
     type CType = [*const T; 2];
     primitive_report!("abi_stable::std_types::RBox", T);
 }
@@ -116,8 +121,9 @@ unsafe impl IStable for abi_stable::std_types::RBoxError {
     type Align = <core::ptr::NonNull<()> as IStable>::Align;
     type ForbiddenValues = <core::ptr::NonNull<()> as IStable>::ForbiddenValues;
     type UnusedBits = End;
-    type HasExactlyOneNiche = B1;
+    type HasExactlyOneNiche = Saturator;
     type ContainsIndirections = B1;
+    #[cfg(feature = "experimental-ctypes")]
     type CType = [*const (); 3];
     primitive_report!("abi_stable::std_types::RBoxError");
 }
-- 
2.43.0

