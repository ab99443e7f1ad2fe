// Written by tools/gencalls.py
#![allow(unused)]
use super::*;
use stabby::closure::*;
pub fn kinds() -> Vec<Kind> {
    let mut l: Vec<Kind> = Vec::new();
    l.push(Kind { name: "BoxFn of 0", kind: "fn", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move || -> Tok {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![]); let n = cap.next(); let r: Tok = <Tok as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn Fn() -> Tok + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(BoxFn0(d))), after)
    } });
    l.push(Kind { name: "ArcFn of 0", kind: "fn", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move || -> u8 {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![]); let n = cap.next(); let r: u8 = <u8 as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SArc<dyn Fn() -> u8 + Send + Sync + 'static>) = SArc::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(ArcFn0(d))), after)
    } });
    l.push(Kind { name: "RefFn of 0", kind: "fn", lent: 1, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move || -> Pair {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![]); let n = cap.next(); let r: Pair = <Pair as Val>::mk(n); cap.log(n, see, r.see()); r };
        let p = Box::into_raw(Box::new(f));
        let d: dynptr!(&'static dyn Fn() -> Pair) = unsafe { &*p }.into();
        let after: After = Some(Box::new(move || unsafe { drop(Box::from_raw(p)) }));
        (own, Vec::new(), Thing::Callee(Box::new(RefFn0(d))), after)
    } });
    l.push(Kind { name: "BoxMut of 0", kind: "mut", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move || -> OT {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![]); let n = cap.next_mut(); let r: OT = <OT as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnMut() -> OT + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(BoxMut0(d))), after)
    } });
    l.push(Kind { name: "SendMut of 0", kind: "mut", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move || -> bool {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![]); let n = cap.next_mut(); let r: bool = <bool as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnMut() -> bool + Send + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(SendMut0(d))), after)
    } });
    l.push(Kind { name: "RefMut of 0", kind: "mut", lent: 1, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move || -> Tok {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![]); let n = cap.next_mut(); let r: Tok = <Tok as Val>::mk(n); cap.log(n, see, r.see()); r };
        let p = Box::into_raw(Box::new(f));
        let d: dynptr!(&'static mut dyn FnMut() -> Tok) = unsafe { &mut *p }.into();
        let after: After = Some(Box::new(move || unsafe { drop(Box::from_raw(p)) }));
        (own, Vec::new(), Thing::Callee(Box::new(RefMut0(d))), after)
    } });
    l.push(Kind { name: "BoxOnce of 0", kind: "once", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move || -> u8 { let cap = cap; let see: Vec<(i64, i64)> = galloc::untracked(|| vec![]); let n = cap.next(); let r: u8 = <u8 as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnOnce() -> u8 + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(BoxOnce0(d))), after)
    } });
    l.push(Kind { name: "SyncOnce of 0", kind: "once", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move || -> Pair { let cap = cap; let see: Vec<(i64, i64)> = galloc::untracked(|| vec![]); let n = cap.next(); let r: Pair = <Pair as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnOnce() -> Pair + Sync + Send + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(SyncOnce0(d))), after)
    } });
    l.push(Kind { name: "BoxFn of 1", kind: "fn", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok| -> u8 {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see()]); let n = cap.next(); let r: u8 = <u8 as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn Fn(Tok) -> u8 + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(BoxFn1(d))), after)
    } });
    l.push(Kind { name: "ArcFn of 1", kind: "fn", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok| -> Pair {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see()]); let n = cap.next(); let r: Pair = <Pair as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SArc<dyn Fn(Tok) -> Pair + Send + Sync + 'static>) = SArc::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(ArcFn1(d))), after)
    } });
    l.push(Kind { name: "RefFn of 1", kind: "fn", lent: 1, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok| -> OT {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see()]); let n = cap.next(); let r: OT = <OT as Val>::mk(n); cap.log(n, see, r.see()); r };
        let p = Box::into_raw(Box::new(f));
        let d: dynptr!(&'static dyn Fn(Tok) -> OT) = unsafe { &*p }.into();
        let after: After = Some(Box::new(move || unsafe { drop(Box::from_raw(p)) }));
        (own, Vec::new(), Thing::Callee(Box::new(RefFn1(d))), after)
    } });
    l.push(Kind { name: "BoxMut of 1", kind: "mut", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok| -> bool {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see()]); let n = cap.next_mut(); let r: bool = <bool as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnMut(Tok) -> bool + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(BoxMut1(d))), after)
    } });
    l.push(Kind { name: "SendMut of 1", kind: "mut", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok| -> Tok {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see()]); let n = cap.next_mut(); let r: Tok = if n % 2 == 0 { a0 } else { drop(a0); <Tok as Val>::mk(n) }; cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnMut(Tok) -> Tok + Send + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(SendMut1(d))), after)
    } });
    l.push(Kind { name: "RefMut of 1", kind: "mut", lent: 1, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok| -> u8 {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see()]); let n = cap.next_mut(); let r: u8 = <u8 as Val>::mk(n); cap.log(n, see, r.see()); r };
        let p = Box::into_raw(Box::new(f));
        let d: dynptr!(&'static mut dyn FnMut(Tok) -> u8) = unsafe { &mut *p }.into();
        let after: After = Some(Box::new(move || unsafe { drop(Box::from_raw(p)) }));
        (own, Vec::new(), Thing::Callee(Box::new(RefMut1(d))), after)
    } });
    l.push(Kind { name: "BoxOnce of 1", kind: "once", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok| -> Pair { let cap = cap; let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see()]); let n = cap.next(); let r: Pair = <Pair as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnOnce(Tok) -> Pair + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(BoxOnce1(d))), after)
    } });
    l.push(Kind { name: "SyncOnce of 1", kind: "once", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok| -> OT { let cap = cap; let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see()]); let n = cap.next(); let r: OT = <OT as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnOnce(Tok) -> OT + Sync + Send + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(SyncOnce1(d))), after)
    } });
    l.push(Kind { name: "BoxFn of 2", kind: "fn", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8| -> Pair {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see()]); let n = cap.next(); let r: Pair = <Pair as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn Fn(Tok, u8) -> Pair + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(BoxFn2(d))), after)
    } });
    l.push(Kind { name: "ArcFn of 2", kind: "fn", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8| -> OT {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see()]); let n = cap.next(); let r: OT = <OT as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SArc<dyn Fn(Tok, u8) -> OT + Send + Sync + 'static>) = SArc::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(ArcFn2(d))), after)
    } });
    l.push(Kind { name: "RefFn of 2", kind: "fn", lent: 1, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8| -> bool {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see()]); let n = cap.next(); let r: bool = <bool as Val>::mk(n); cap.log(n, see, r.see()); r };
        let p = Box::into_raw(Box::new(f));
        let d: dynptr!(&'static dyn Fn(Tok, u8) -> bool) = unsafe { &*p }.into();
        let after: After = Some(Box::new(move || unsafe { drop(Box::from_raw(p)) }));
        (own, Vec::new(), Thing::Callee(Box::new(RefFn2(d))), after)
    } });
    l.push(Kind { name: "BoxMut of 2", kind: "mut", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8| -> Tok {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see()]); let n = cap.next_mut(); let r: Tok = if n % 2 == 0 { a0 } else { drop(a0); <Tok as Val>::mk(n) }; cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnMut(Tok, u8) -> Tok + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(BoxMut2(d))), after)
    } });
    l.push(Kind { name: "SendMut of 2", kind: "mut", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8| -> u8 {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see()]); let n = cap.next_mut(); let r: u8 = <u8 as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnMut(Tok, u8) -> u8 + Send + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(SendMut2(d))), after)
    } });
    l.push(Kind { name: "RefMut of 2", kind: "mut", lent: 1, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8| -> Pair {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see()]); let n = cap.next_mut(); let r: Pair = <Pair as Val>::mk(n); cap.log(n, see, r.see()); r };
        let p = Box::into_raw(Box::new(f));
        let d: dynptr!(&'static mut dyn FnMut(Tok, u8) -> Pair) = unsafe { &mut *p }.into();
        let after: After = Some(Box::new(move || unsafe { drop(Box::from_raw(p)) }));
        (own, Vec::new(), Thing::Callee(Box::new(RefMut2(d))), after)
    } });
    l.push(Kind { name: "BoxOnce of 2", kind: "once", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8| -> OT { let cap = cap; let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see()]); let n = cap.next(); let r: OT = <OT as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnOnce(Tok, u8) -> OT + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(BoxOnce2(d))), after)
    } });
    l.push(Kind { name: "SyncOnce of 2", kind: "once", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8| -> bool { let cap = cap; let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see()]); let n = cap.next(); let r: bool = <bool as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnOnce(Tok, u8) -> bool + Sync + Send + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(SyncOnce2(d))), after)
    } });
    l.push(Kind { name: "BoxFn of 3", kind: "fn", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64| -> OT {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see()]); let n = cap.next(); let r: OT = <OT as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn Fn(Tok, u8, &'static u64) -> OT + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(BoxFn3(d))), after)
    } });
    l.push(Kind { name: "ArcFn of 3", kind: "fn", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64| -> bool {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see()]); let n = cap.next(); let r: bool = <bool as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SArc<dyn Fn(Tok, u8, &'static u64) -> bool + Send + Sync + 'static>) = SArc::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(ArcFn3(d))), after)
    } });
    l.push(Kind { name: "RefFn of 3", kind: "fn", lent: 1, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64| -> Tok {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see()]); let n = cap.next(); let r: Tok = if n % 2 == 0 { a0 } else { drop(a0); <Tok as Val>::mk(n) }; cap.log(n, see, r.see()); r };
        let p = Box::into_raw(Box::new(f));
        let d: dynptr!(&'static dyn Fn(Tok, u8, &'static u64) -> Tok) = unsafe { &*p }.into();
        let after: After = Some(Box::new(move || unsafe { drop(Box::from_raw(p)) }));
        (own, Vec::new(), Thing::Callee(Box::new(RefFn3(d))), after)
    } });
    l.push(Kind { name: "BoxMut of 3", kind: "mut", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64| -> u8 {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see()]); let n = cap.next_mut(); let r: u8 = <u8 as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnMut(Tok, u8, &'static u64) -> u8 + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(BoxMut3(d))), after)
    } });
    l.push(Kind { name: "SendMut of 3", kind: "mut", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64| -> Pair {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see()]); let n = cap.next_mut(); let r: Pair = <Pair as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnMut(Tok, u8, &'static u64) -> Pair + Send + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(SendMut3(d))), after)
    } });
    l.push(Kind { name: "RefMut of 3", kind: "mut", lent: 1, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64| -> OT {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see()]); let n = cap.next_mut(); let r: OT = <OT as Val>::mk(n); cap.log(n, see, r.see()); r };
        let p = Box::into_raw(Box::new(f));
        let d: dynptr!(&'static mut dyn FnMut(Tok, u8, &'static u64) -> OT) = unsafe { &mut *p }.into();
        let after: After = Some(Box::new(move || unsafe { drop(Box::from_raw(p)) }));
        (own, Vec::new(), Thing::Callee(Box::new(RefMut3(d))), after)
    } });
    l.push(Kind { name: "BoxOnce of 3", kind: "once", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64| -> bool { let cap = cap; let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see()]); let n = cap.next(); let r: bool = <bool as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnOnce(Tok, u8, &'static u64) -> bool + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(BoxOnce3(d))), after)
    } });
    l.push(Kind { name: "SyncOnce of 3", kind: "once", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64| -> Tok { let cap = cap; let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see()]); let n = cap.next(); let r: Tok = if n % 2 == 0 { a0 } else { drop(a0); <Tok as Val>::mk(n) }; cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnOnce(Tok, u8, &'static u64) -> Tok + Sync + Send + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(SyncOnce3(d))), after)
    } });
    l.push(Kind { name: "BoxFn of 4", kind: "fn", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok| -> bool {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see()]); let n = cap.next(); let r: bool = <bool as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn Fn(Tok, u8, &'static u64, Tok) -> bool + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(BoxFn4(d))), after)
    } });
    l.push(Kind { name: "ArcFn of 4", kind: "fn", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok| -> Tok {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see()]); let n = cap.next(); let r: Tok = if n % 2 == 0 { a0 } else { drop(a0); <Tok as Val>::mk(n) }; cap.log(n, see, r.see()); r };
        let d: dynptr!(SArc<dyn Fn(Tok, u8, &'static u64, Tok) -> Tok + Send + Sync + 'static>) = SArc::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(ArcFn4(d))), after)
    } });
    l.push(Kind { name: "RefFn of 4", kind: "fn", lent: 1, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok| -> u8 {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see()]); let n = cap.next(); let r: u8 = <u8 as Val>::mk(n); cap.log(n, see, r.see()); r };
        let p = Box::into_raw(Box::new(f));
        let d: dynptr!(&'static dyn Fn(Tok, u8, &'static u64, Tok) -> u8) = unsafe { &*p }.into();
        let after: After = Some(Box::new(move || unsafe { drop(Box::from_raw(p)) }));
        (own, Vec::new(), Thing::Callee(Box::new(RefFn4(d))), after)
    } });
    l.push(Kind { name: "BoxMut of 4", kind: "mut", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok| -> Pair {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see()]); let n = cap.next_mut(); let r: Pair = <Pair as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnMut(Tok, u8, &'static u64, Tok) -> Pair + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(BoxMut4(d))), after)
    } });
    l.push(Kind { name: "SendMut of 4", kind: "mut", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok| -> OT {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see()]); let n = cap.next_mut(); let r: OT = <OT as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnMut(Tok, u8, &'static u64, Tok) -> OT + Send + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(SendMut4(d))), after)
    } });
    l.push(Kind { name: "RefMut of 4", kind: "mut", lent: 1, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok| -> bool {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see()]); let n = cap.next_mut(); let r: bool = <bool as Val>::mk(n); cap.log(n, see, r.see()); r };
        let p = Box::into_raw(Box::new(f));
        let d: dynptr!(&'static mut dyn FnMut(Tok, u8, &'static u64, Tok) -> bool) = unsafe { &mut *p }.into();
        let after: After = Some(Box::new(move || unsafe { drop(Box::from_raw(p)) }));
        (own, Vec::new(), Thing::Callee(Box::new(RefMut4(d))), after)
    } });
    l.push(Kind { name: "BoxOnce of 4", kind: "once", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok| -> Tok { let cap = cap; let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see()]); let n = cap.next(); let r: Tok = if n % 2 == 0 { a0 } else { drop(a0); <Tok as Val>::mk(n) }; cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnOnce(Tok, u8, &'static u64, Tok) -> Tok + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(BoxOnce4(d))), after)
    } });
    l.push(Kind { name: "SyncOnce of 4", kind: "once", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok| -> u8 { let cap = cap; let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see()]); let n = cap.next(); let r: u8 = <u8 as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnOnce(Tok, u8, &'static u64, Tok) -> u8 + Sync + Send + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(SyncOnce4(d))), after)
    } });
    l.push(Kind { name: "BoxFn of 5", kind: "fn", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool| -> Tok {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see()]); let n = cap.next(); let r: Tok = if n % 2 == 0 { a0 } else { drop(a0); <Tok as Val>::mk(n) }; cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn Fn(Tok, u8, &'static u64, Tok, bool) -> Tok + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(BoxFn5(d))), after)
    } });
    l.push(Kind { name: "ArcFn of 5", kind: "fn", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool| -> u8 {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see()]); let n = cap.next(); let r: u8 = <u8 as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SArc<dyn Fn(Tok, u8, &'static u64, Tok, bool) -> u8 + Send + Sync + 'static>) = SArc::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(ArcFn5(d))), after)
    } });
    l.push(Kind { name: "RefFn of 5", kind: "fn", lent: 1, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool| -> Pair {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see()]); let n = cap.next(); let r: Pair = <Pair as Val>::mk(n); cap.log(n, see, r.see()); r };
        let p = Box::into_raw(Box::new(f));
        let d: dynptr!(&'static dyn Fn(Tok, u8, &'static u64, Tok, bool) -> Pair) = unsafe { &*p }.into();
        let after: After = Some(Box::new(move || unsafe { drop(Box::from_raw(p)) }));
        (own, Vec::new(), Thing::Callee(Box::new(RefFn5(d))), after)
    } });
    l.push(Kind { name: "BoxMut of 5", kind: "mut", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool| -> OT {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see()]); let n = cap.next_mut(); let r: OT = <OT as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnMut(Tok, u8, &'static u64, Tok, bool) -> OT + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(BoxMut5(d))), after)
    } });
    l.push(Kind { name: "SendMut of 5", kind: "mut", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool| -> bool {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see()]); let n = cap.next_mut(); let r: bool = <bool as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnMut(Tok, u8, &'static u64, Tok, bool) -> bool + Send + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(SendMut5(d))), after)
    } });
    l.push(Kind { name: "RefMut of 5", kind: "mut", lent: 1, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool| -> Tok {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see()]); let n = cap.next_mut(); let r: Tok = if n % 2 == 0 { a0 } else { drop(a0); <Tok as Val>::mk(n) }; cap.log(n, see, r.see()); r };
        let p = Box::into_raw(Box::new(f));
        let d: dynptr!(&'static mut dyn FnMut(Tok, u8, &'static u64, Tok, bool) -> Tok) = unsafe { &mut *p }.into();
        let after: After = Some(Box::new(move || unsafe { drop(Box::from_raw(p)) }));
        (own, Vec::new(), Thing::Callee(Box::new(RefMut5(d))), after)
    } });
    l.push(Kind { name: "BoxOnce of 5", kind: "once", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool| -> u8 { let cap = cap; let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see()]); let n = cap.next(); let r: u8 = <u8 as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnOnce(Tok, u8, &'static u64, Tok, bool) -> u8 + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(BoxOnce5(d))), after)
    } });
    l.push(Kind { name: "SyncOnce of 5", kind: "once", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool| -> Pair { let cap = cap; let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see()]); let n = cap.next(); let r: Pair = <Pair as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnOnce(Tok, u8, &'static u64, Tok, bool) -> Pair + Sync + Send + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(SyncOnce5(d))), after)
    } });
    l.push(Kind { name: "BoxFn of 6", kind: "fn", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool, a5: Pair| -> u8 {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see(), a5.see()]); let n = cap.next(); let r: u8 = <u8 as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn Fn(Tok, u8, &'static u64, Tok, bool, Pair) -> u8 + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(BoxFn6(d))), after)
    } });
    l.push(Kind { name: "ArcFn of 6", kind: "fn", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool, a5: Pair| -> Pair {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see(), a5.see()]); let n = cap.next(); let r: Pair = <Pair as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SArc<dyn Fn(Tok, u8, &'static u64, Tok, bool, Pair) -> Pair + Send + Sync + 'static>) = SArc::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(ArcFn6(d))), after)
    } });
    l.push(Kind { name: "RefFn of 6", kind: "fn", lent: 1, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool, a5: Pair| -> OT {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see(), a5.see()]); let n = cap.next(); let r: OT = <OT as Val>::mk(n); cap.log(n, see, r.see()); r };
        let p = Box::into_raw(Box::new(f));
        let d: dynptr!(&'static dyn Fn(Tok, u8, &'static u64, Tok, bool, Pair) -> OT) = unsafe { &*p }.into();
        let after: After = Some(Box::new(move || unsafe { drop(Box::from_raw(p)) }));
        (own, Vec::new(), Thing::Callee(Box::new(RefFn6(d))), after)
    } });
    l.push(Kind { name: "BoxMut of 6", kind: "mut", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool, a5: Pair| -> bool {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see(), a5.see()]); let n = cap.next_mut(); let r: bool = <bool as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnMut(Tok, u8, &'static u64, Tok, bool, Pair) -> bool + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(BoxMut6(d))), after)
    } });
    l.push(Kind { name: "SendMut of 6", kind: "mut", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool, a5: Pair| -> Tok {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see(), a5.see()]); let n = cap.next_mut(); let r: Tok = if n % 2 == 0 { a0 } else { drop(a0); <Tok as Val>::mk(n) }; cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnMut(Tok, u8, &'static u64, Tok, bool, Pair) -> Tok + Send + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(SendMut6(d))), after)
    } });
    l.push(Kind { name: "RefMut of 6", kind: "mut", lent: 1, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool, a5: Pair| -> u8 {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see(), a5.see()]); let n = cap.next_mut(); let r: u8 = <u8 as Val>::mk(n); cap.log(n, see, r.see()); r };
        let p = Box::into_raw(Box::new(f));
        let d: dynptr!(&'static mut dyn FnMut(Tok, u8, &'static u64, Tok, bool, Pair) -> u8) = unsafe { &mut *p }.into();
        let after: After = Some(Box::new(move || unsafe { drop(Box::from_raw(p)) }));
        (own, Vec::new(), Thing::Callee(Box::new(RefMut6(d))), after)
    } });
    l.push(Kind { name: "BoxOnce of 6", kind: "once", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool, a5: Pair| -> Pair { let cap = cap; let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see(), a5.see()]); let n = cap.next(); let r: Pair = <Pair as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnOnce(Tok, u8, &'static u64, Tok, bool, Pair) -> Pair + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(BoxOnce6(d))), after)
    } });
    l.push(Kind { name: "SyncOnce of 6", kind: "once", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool, a5: Pair| -> OT { let cap = cap; let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see(), a5.see()]); let n = cap.next(); let r: OT = <OT as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnOnce(Tok, u8, &'static u64, Tok, bool, Pair) -> OT + Sync + Send + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(SyncOnce6(d))), after)
    } });
    l.push(Kind { name: "BoxFn of 7", kind: "fn", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool, a5: Pair, a6: u64| -> Pair {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see(), a5.see(), a6.see()]); let n = cap.next(); let r: Pair = <Pair as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn Fn(Tok, u8, &'static u64, Tok, bool, Pair, u64) -> Pair + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(BoxFn7(d))), after)
    } });
    l.push(Kind { name: "ArcFn of 7", kind: "fn", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool, a5: Pair, a6: u64| -> OT {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see(), a5.see(), a6.see()]); let n = cap.next(); let r: OT = <OT as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SArc<dyn Fn(Tok, u8, &'static u64, Tok, bool, Pair, u64) -> OT + Send + Sync + 'static>) = SArc::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(ArcFn7(d))), after)
    } });
    l.push(Kind { name: "RefFn of 7", kind: "fn", lent: 1, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool, a5: Pair, a6: u64| -> bool {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see(), a5.see(), a6.see()]); let n = cap.next(); let r: bool = <bool as Val>::mk(n); cap.log(n, see, r.see()); r };
        let p = Box::into_raw(Box::new(f));
        let d: dynptr!(&'static dyn Fn(Tok, u8, &'static u64, Tok, bool, Pair, u64) -> bool) = unsafe { &*p }.into();
        let after: After = Some(Box::new(move || unsafe { drop(Box::from_raw(p)) }));
        (own, Vec::new(), Thing::Callee(Box::new(RefFn7(d))), after)
    } });
    l.push(Kind { name: "BoxMut of 7", kind: "mut", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool, a5: Pair, a6: u64| -> Tok {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see(), a5.see(), a6.see()]); let n = cap.next_mut(); let r: Tok = if n % 2 == 0 { a0 } else { drop(a0); <Tok as Val>::mk(n) }; cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnMut(Tok, u8, &'static u64, Tok, bool, Pair, u64) -> Tok + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(BoxMut7(d))), after)
    } });
    l.push(Kind { name: "SendMut of 7", kind: "mut", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool, a5: Pair, a6: u64| -> u8 {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see(), a5.see(), a6.see()]); let n = cap.next_mut(); let r: u8 = <u8 as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnMut(Tok, u8, &'static u64, Tok, bool, Pair, u64) -> u8 + Send + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(SendMut7(d))), after)
    } });
    l.push(Kind { name: "RefMut of 7", kind: "mut", lent: 1, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool, a5: Pair, a6: u64| -> Pair {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see(), a5.see(), a6.see()]); let n = cap.next_mut(); let r: Pair = <Pair as Val>::mk(n); cap.log(n, see, r.see()); r };
        let p = Box::into_raw(Box::new(f));
        let d: dynptr!(&'static mut dyn FnMut(Tok, u8, &'static u64, Tok, bool, Pair, u64) -> Pair) = unsafe { &mut *p }.into();
        let after: After = Some(Box::new(move || unsafe { drop(Box::from_raw(p)) }));
        (own, Vec::new(), Thing::Callee(Box::new(RefMut7(d))), after)
    } });
    l.push(Kind { name: "BoxOnce of 7", kind: "once", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool, a5: Pair, a6: u64| -> OT { let cap = cap; let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see(), a5.see(), a6.see()]); let n = cap.next(); let r: OT = <OT as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnOnce(Tok, u8, &'static u64, Tok, bool, Pair, u64) -> OT + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(BoxOnce7(d))), after)
    } });
    l.push(Kind { name: "SyncOnce of 7", kind: "once", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool, a5: Pair, a6: u64| -> bool { let cap = cap; let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see(), a5.see(), a6.see()]); let n = cap.next(); let r: bool = <bool as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnOnce(Tok, u8, &'static u64, Tok, bool, Pair, u64) -> bool + Sync + Send + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(SyncOnce7(d))), after)
    } });
    l.push(Kind { name: "BoxFn of 8", kind: "fn", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool, a5: Pair, a6: u64, a7: NonZeroU16| -> OT {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see(), a5.see(), a6.see(), a7.see()]); let n = cap.next(); let r: OT = <OT as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn Fn(Tok, u8, &'static u64, Tok, bool, Pair, u64, NonZeroU16) -> OT + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(BoxFn8(d))), after)
    } });
    l.push(Kind { name: "ArcFn of 8", kind: "fn", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool, a5: Pair, a6: u64, a7: NonZeroU16| -> bool {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see(), a5.see(), a6.see(), a7.see()]); let n = cap.next(); let r: bool = <bool as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SArc<dyn Fn(Tok, u8, &'static u64, Tok, bool, Pair, u64, NonZeroU16) -> bool + Send + Sync + 'static>) = SArc::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(ArcFn8(d))), after)
    } });
    l.push(Kind { name: "RefFn of 8", kind: "fn", lent: 1, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool, a5: Pair, a6: u64, a7: NonZeroU16| -> Tok {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see(), a5.see(), a6.see(), a7.see()]); let n = cap.next(); let r: Tok = if n % 2 == 0 { a0 } else { drop(a0); <Tok as Val>::mk(n) }; cap.log(n, see, r.see()); r };
        let p = Box::into_raw(Box::new(f));
        let d: dynptr!(&'static dyn Fn(Tok, u8, &'static u64, Tok, bool, Pair, u64, NonZeroU16) -> Tok) = unsafe { &*p }.into();
        let after: After = Some(Box::new(move || unsafe { drop(Box::from_raw(p)) }));
        (own, Vec::new(), Thing::Callee(Box::new(RefFn8(d))), after)
    } });
    l.push(Kind { name: "BoxMut of 8", kind: "mut", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool, a5: Pair, a6: u64, a7: NonZeroU16| -> u8 {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see(), a5.see(), a6.see(), a7.see()]); let n = cap.next_mut(); let r: u8 = <u8 as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnMut(Tok, u8, &'static u64, Tok, bool, Pair, u64, NonZeroU16) -> u8 + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(BoxMut8(d))), after)
    } });
    l.push(Kind { name: "SendMut of 8", kind: "mut", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool, a5: Pair, a6: u64, a7: NonZeroU16| -> Pair {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see(), a5.see(), a6.see(), a7.see()]); let n = cap.next_mut(); let r: Pair = <Pair as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnMut(Tok, u8, &'static u64, Tok, bool, Pair, u64, NonZeroU16) -> Pair + Send + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(SendMut8(d))), after)
    } });
    l.push(Kind { name: "RefMut of 8", kind: "mut", lent: 1, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool, a5: Pair, a6: u64, a7: NonZeroU16| -> OT {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see(), a5.see(), a6.see(), a7.see()]); let n = cap.next_mut(); let r: OT = <OT as Val>::mk(n); cap.log(n, see, r.see()); r };
        let p = Box::into_raw(Box::new(f));
        let d: dynptr!(&'static mut dyn FnMut(Tok, u8, &'static u64, Tok, bool, Pair, u64, NonZeroU16) -> OT) = unsafe { &mut *p }.into();
        let after: After = Some(Box::new(move || unsafe { drop(Box::from_raw(p)) }));
        (own, Vec::new(), Thing::Callee(Box::new(RefMut8(d))), after)
    } });
    l.push(Kind { name: "BoxOnce of 8", kind: "once", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool, a5: Pair, a6: u64, a7: NonZeroU16| -> bool { let cap = cap; let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see(), a5.see(), a6.see(), a7.see()]); let n = cap.next(); let r: bool = <bool as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnOnce(Tok, u8, &'static u64, Tok, bool, Pair, u64, NonZeroU16) -> bool + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(BoxOnce8(d))), after)
    } });
    l.push(Kind { name: "SyncOnce of 8", kind: "once", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool, a5: Pair, a6: u64, a7: NonZeroU16| -> Tok { let cap = cap; let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see(), a5.see(), a6.see(), a7.see()]); let n = cap.next(); let r: Tok = if n % 2 == 0 { a0 } else { drop(a0); <Tok as Val>::mk(n) }; cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnOnce(Tok, u8, &'static u64, Tok, bool, Pair, u64, NonZeroU16) -> Tok + Sync + Send + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(SyncOnce8(d))), after)
    } });
    l.push(Kind { name: "BoxFn of 9", kind: "fn", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool, a5: Pair, a6: u64, a7: NonZeroU16, a8: OT| -> bool {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see(), a5.see(), a6.see(), a7.see(), a8.see()]); let n = cap.next(); let r: bool = <bool as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn Fn(Tok, u8, &'static u64, Tok, bool, Pair, u64, NonZeroU16, OT) -> bool + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(BoxFn9(d))), after)
    } });
    l.push(Kind { name: "ArcFn of 9", kind: "fn", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool, a5: Pair, a6: u64, a7: NonZeroU16, a8: OT| -> Tok {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see(), a5.see(), a6.see(), a7.see(), a8.see()]); let n = cap.next(); let r: Tok = if n % 2 == 0 { a0 } else { drop(a0); <Tok as Val>::mk(n) }; cap.log(n, see, r.see()); r };
        let d: dynptr!(SArc<dyn Fn(Tok, u8, &'static u64, Tok, bool, Pair, u64, NonZeroU16, OT) -> Tok + Send + Sync + 'static>) = SArc::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(ArcFn9(d))), after)
    } });
    l.push(Kind { name: "RefFn of 9", kind: "fn", lent: 1, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool, a5: Pair, a6: u64, a7: NonZeroU16, a8: OT| -> u8 {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see(), a5.see(), a6.see(), a7.see(), a8.see()]); let n = cap.next(); let r: u8 = <u8 as Val>::mk(n); cap.log(n, see, r.see()); r };
        let p = Box::into_raw(Box::new(f));
        let d: dynptr!(&'static dyn Fn(Tok, u8, &'static u64, Tok, bool, Pair, u64, NonZeroU16, OT) -> u8) = unsafe { &*p }.into();
        let after: After = Some(Box::new(move || unsafe { drop(Box::from_raw(p)) }));
        (own, Vec::new(), Thing::Callee(Box::new(RefFn9(d))), after)
    } });
    l.push(Kind { name: "BoxMut of 9", kind: "mut", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool, a5: Pair, a6: u64, a7: NonZeroU16, a8: OT| -> Pair {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see(), a5.see(), a6.see(), a7.see(), a8.see()]); let n = cap.next_mut(); let r: Pair = <Pair as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnMut(Tok, u8, &'static u64, Tok, bool, Pair, u64, NonZeroU16, OT) -> Pair + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(BoxMut9(d))), after)
    } });
    l.push(Kind { name: "SendMut of 9", kind: "mut", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool, a5: Pair, a6: u64, a7: NonZeroU16, a8: OT| -> OT {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see(), a5.see(), a6.see(), a7.see(), a8.see()]); let n = cap.next_mut(); let r: OT = <OT as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnMut(Tok, u8, &'static u64, Tok, bool, Pair, u64, NonZeroU16, OT) -> OT + Send + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(SendMut9(d))), after)
    } });
    l.push(Kind { name: "RefMut of 9", kind: "mut", lent: 1, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool, a5: Pair, a6: u64, a7: NonZeroU16, a8: OT| -> bool {  let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see(), a5.see(), a6.see(), a7.see(), a8.see()]); let n = cap.next_mut(); let r: bool = <bool as Val>::mk(n); cap.log(n, see, r.see()); r };
        let p = Box::into_raw(Box::new(f));
        let d: dynptr!(&'static mut dyn FnMut(Tok, u8, &'static u64, Tok, bool, Pair, u64, NonZeroU16, OT) -> bool) = unsafe { &mut *p }.into();
        let after: After = Some(Box::new(move || unsafe { drop(Box::from_raw(p)) }));
        (own, Vec::new(), Thing::Callee(Box::new(RefMut9(d))), after)
    } });
    l.push(Kind { name: "BoxOnce of 9", kind: "once", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool, a5: Pair, a6: u64, a7: NonZeroU16, a8: OT| -> Tok { let cap = cap; let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see(), a5.see(), a6.see(), a7.see(), a8.see()]); let n = cap.next(); let r: Tok = if n % 2 == 0 { a0 } else { drop(a0); <Tok as Val>::mk(n) }; cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnOnce(Tok, u8, &'static u64, Tok, bool, Pair, u64, NonZeroU16, OT) -> Tok + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(BoxOnce9(d))), after)
    } });
    l.push(Kind { name: "SyncOnce of 9", kind: "once", lent: 0, make: |_| {
        let mut cap = Cap::new(); let own = cap.own();
        let f = move |a0: Tok, a1: u8, a2: &'static u64, a3: Tok, a4: bool, a5: Pair, a6: u64, a7: NonZeroU16, a8: OT| -> u8 { let cap = cap; let see: Vec<(i64, i64)> = galloc::untracked(|| vec![a0.see(), a1.see(), a2.see(), a3.see(), a4.see(), a5.see(), a6.see(), a7.see(), a8.see()]); let n = cap.next(); let r: u8 = <u8 as Val>::mk(n); cap.log(n, see, r.see()); r };
        let d: dynptr!(SBox<dyn FnOnce(Tok, u8, &'static u64, Tok, bool, Pair, u64, NonZeroU16, OT) -> u8 + Sync + Send + 'static>) = SBox::new(f).into();
        let after: After = None;
        (own, Vec::new(), Thing::Callee(Box::new(SyncOnce9(d))), after)
    } });
    l
}
struct BoxFn0(dynptr!(SBox<dyn Fn() -> Tok + 'static>));
impl Callee for BoxFn0 {
    fn call(&mut self, x: i64, via: bool) -> Called {  let args = galloc::untracked(|| J::L(vec![])); let r = if via { let d = self.0.as_ref(); d.call() } else { self.0.call() }; called(args, r) }
}
struct ArcFn0(dynptr!(SArc<dyn Fn() -> u8 + Send + Sync + 'static>));
impl Callee for ArcFn0 {
    fn call(&mut self, x: i64, via: bool) -> Called {  let args = galloc::untracked(|| J::L(vec![])); let r = if via { let d = self.0.as_ref(); d.call() } else { self.0.call() }; called(args, r) }
    fn dup(&self) -> Option<Box<dyn Callee>> { Some(Box::new(ArcFn0(self.0.clone()))) }
}
struct RefFn0(dynptr!(&'static dyn Fn() -> Pair));
impl Callee for RefFn0 {
    fn call(&mut self, x: i64, via: bool) -> Called {  let args = galloc::untracked(|| J::L(vec![])); let r = if via { let d = self.0; d.call() } else { self.0.call() }; called(args, r) }
}
struct BoxMut0(dynptr!(SBox<dyn FnMut() -> OT + 'static>));
impl Callee for BoxMut0 {
    fn call(&mut self, x: i64, via: bool) -> Called {  let args = galloc::untracked(|| J::L(vec![])); let r = if via { let mut d = self.0.as_mut(); d.call_mut() } else { self.0.call_mut() }; called(args, r) }
}
struct SendMut0(dynptr!(SBox<dyn FnMut() -> bool + Send + 'static>));
impl Callee for SendMut0 {
    fn call(&mut self, x: i64, via: bool) -> Called {  let args = galloc::untracked(|| J::L(vec![])); let r = if via { let mut d = self.0.as_mut(); d.call_mut() } else { self.0.call_mut() }; called(args, r) }
}
struct RefMut0(dynptr!(&'static mut dyn FnMut() -> Tok));
impl Callee for RefMut0 {
    fn call(&mut self, x: i64, via: bool) -> Called {  let args = galloc::untracked(|| J::L(vec![])); let r = if via { let mut d = self.0.as_mut(); d.call_mut() } else { self.0.call_mut() }; called(args, r) }
}
struct BoxOnce0(dynptr!(SBox<dyn FnOnce() -> u8 + 'static>));
impl Callee for BoxOnce0 {
    fn call(&mut self, _: i64, _: bool) -> Called { unreachable!() }
    fn once(self: Box<Self>, x: i64) -> Called {  let args = galloc::untracked(|| J::L(vec![])); let r = (*self).0.call_once(); called(args, r) }
}
struct SyncOnce0(dynptr!(SBox<dyn FnOnce() -> Pair + Sync + Send + 'static>));
impl Callee for SyncOnce0 {
    fn call(&mut self, _: i64, _: bool) -> Called { unreachable!() }
    fn once(self: Box<Self>, x: i64) -> Called {  let args = galloc::untracked(|| J::L(vec![])); let r = (*self).0.call_once(); called(args, r) }
}
struct BoxFn1(dynptr!(SBox<dyn Fn(Tok) -> u8 + 'static>));
impl Callee for BoxFn1 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let args = galloc::untracked(|| J::L(vec![pair(a0.see())])); let r = if via { let d = self.0.as_ref(); d.call(a0) } else { self.0.call(a0) }; called(args, r) }
}
struct ArcFn1(dynptr!(SArc<dyn Fn(Tok) -> Pair + Send + Sync + 'static>));
impl Callee for ArcFn1 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let args = galloc::untracked(|| J::L(vec![pair(a0.see())])); let r = if via { let d = self.0.as_ref(); d.call(a0) } else { self.0.call(a0) }; called(args, r) }
    fn dup(&self) -> Option<Box<dyn Callee>> { Some(Box::new(ArcFn1(self.0.clone()))) }
}
struct RefFn1(dynptr!(&'static dyn Fn(Tok) -> OT));
impl Callee for RefFn1 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let args = galloc::untracked(|| J::L(vec![pair(a0.see())])); let r = if via { let d = self.0; d.call(a0) } else { self.0.call(a0) }; called(args, r) }
}
struct BoxMut1(dynptr!(SBox<dyn FnMut(Tok) -> bool + 'static>));
impl Callee for BoxMut1 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let args = galloc::untracked(|| J::L(vec![pair(a0.see())])); let r = if via { let mut d = self.0.as_mut(); d.call_mut(a0) } else { self.0.call_mut(a0) }; called(args, r) }
}
struct SendMut1(dynptr!(SBox<dyn FnMut(Tok) -> Tok + Send + 'static>));
impl Callee for SendMut1 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let args = galloc::untracked(|| J::L(vec![pair(a0.see())])); let r = if via { let mut d = self.0.as_mut(); d.call_mut(a0) } else { self.0.call_mut(a0) }; called(args, r) }
}
struct RefMut1(dynptr!(&'static mut dyn FnMut(Tok) -> u8));
impl Callee for RefMut1 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let args = galloc::untracked(|| J::L(vec![pair(a0.see())])); let r = if via { let mut d = self.0.as_mut(); d.call_mut(a0) } else { self.0.call_mut(a0) }; called(args, r) }
}
struct BoxOnce1(dynptr!(SBox<dyn FnOnce(Tok) -> Pair + 'static>));
impl Callee for BoxOnce1 {
    fn call(&mut self, _: i64, _: bool) -> Called { unreachable!() }
    fn once(self: Box<Self>, x: i64) -> Called { let a0 = <Tok as Val>::mk(x + 0); let args = galloc::untracked(|| J::L(vec![pair(a0.see())])); let r = (*self).0.call_once(a0); called(args, r) }
}
struct SyncOnce1(dynptr!(SBox<dyn FnOnce(Tok) -> OT + Sync + Send + 'static>));
impl Callee for SyncOnce1 {
    fn call(&mut self, _: i64, _: bool) -> Called { unreachable!() }
    fn once(self: Box<Self>, x: i64) -> Called { let a0 = <Tok as Val>::mk(x + 0); let args = galloc::untracked(|| J::L(vec![pair(a0.see())])); let r = (*self).0.call_once(a0); called(args, r) }
}
struct BoxFn2(dynptr!(SBox<dyn Fn(Tok, u8) -> Pair + 'static>));
impl Callee for BoxFn2 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see())])); let r = if via { let d = self.0.as_ref(); d.call(a0, a1) } else { self.0.call(a0, a1) }; called(args, r) }
}
struct ArcFn2(dynptr!(SArc<dyn Fn(Tok, u8) -> OT + Send + Sync + 'static>));
impl Callee for ArcFn2 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see())])); let r = if via { let d = self.0.as_ref(); d.call(a0, a1) } else { self.0.call(a0, a1) }; called(args, r) }
    fn dup(&self) -> Option<Box<dyn Callee>> { Some(Box::new(ArcFn2(self.0.clone()))) }
}
struct RefFn2(dynptr!(&'static dyn Fn(Tok, u8) -> bool));
impl Callee for RefFn2 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see())])); let r = if via { let d = self.0; d.call(a0, a1) } else { self.0.call(a0, a1) }; called(args, r) }
}
struct BoxMut2(dynptr!(SBox<dyn FnMut(Tok, u8) -> Tok + 'static>));
impl Callee for BoxMut2 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see())])); let r = if via { let mut d = self.0.as_mut(); d.call_mut(a0, a1) } else { self.0.call_mut(a0, a1) }; called(args, r) }
}
struct SendMut2(dynptr!(SBox<dyn FnMut(Tok, u8) -> u8 + Send + 'static>));
impl Callee for SendMut2 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see())])); let r = if via { let mut d = self.0.as_mut(); d.call_mut(a0, a1) } else { self.0.call_mut(a0, a1) }; called(args, r) }
}
struct RefMut2(dynptr!(&'static mut dyn FnMut(Tok, u8) -> Pair));
impl Callee for RefMut2 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see())])); let r = if via { let mut d = self.0.as_mut(); d.call_mut(a0, a1) } else { self.0.call_mut(a0, a1) }; called(args, r) }
}
struct BoxOnce2(dynptr!(SBox<dyn FnOnce(Tok, u8) -> OT + 'static>));
impl Callee for BoxOnce2 {
    fn call(&mut self, _: i64, _: bool) -> Called { unreachable!() }
    fn once(self: Box<Self>, x: i64) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see())])); let r = (*self).0.call_once(a0, a1); called(args, r) }
}
struct SyncOnce2(dynptr!(SBox<dyn FnOnce(Tok, u8) -> bool + Sync + Send + 'static>));
impl Callee for SyncOnce2 {
    fn call(&mut self, _: i64, _: bool) -> Called { unreachable!() }
    fn once(self: Box<Self>, x: i64) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see())])); let r = (*self).0.call_once(a0, a1); called(args, r) }
}
struct BoxFn3(dynptr!(SBox<dyn Fn(Tok, u8, &'static u64) -> OT + 'static>));
impl Callee for BoxFn3 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see())])); let r = if via { let d = self.0.as_ref(); d.call(a0, a1, a2) } else { self.0.call(a0, a1, a2) }; called(args, r) }
}
struct ArcFn3(dynptr!(SArc<dyn Fn(Tok, u8, &'static u64) -> bool + Send + Sync + 'static>));
impl Callee for ArcFn3 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see())])); let r = if via { let d = self.0.as_ref(); d.call(a0, a1, a2) } else { self.0.call(a0, a1, a2) }; called(args, r) }
    fn dup(&self) -> Option<Box<dyn Callee>> { Some(Box::new(ArcFn3(self.0.clone()))) }
}
struct RefFn3(dynptr!(&'static dyn Fn(Tok, u8, &'static u64) -> Tok));
impl Callee for RefFn3 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see())])); let r = if via { let d = self.0; d.call(a0, a1, a2) } else { self.0.call(a0, a1, a2) }; called(args, r) }
}
struct BoxMut3(dynptr!(SBox<dyn FnMut(Tok, u8, &'static u64) -> u8 + 'static>));
impl Callee for BoxMut3 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see())])); let r = if via { let mut d = self.0.as_mut(); d.call_mut(a0, a1, a2) } else { self.0.call_mut(a0, a1, a2) }; called(args, r) }
}
struct SendMut3(dynptr!(SBox<dyn FnMut(Tok, u8, &'static u64) -> Pair + Send + 'static>));
impl Callee for SendMut3 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see())])); let r = if via { let mut d = self.0.as_mut(); d.call_mut(a0, a1, a2) } else { self.0.call_mut(a0, a1, a2) }; called(args, r) }
}
struct RefMut3(dynptr!(&'static mut dyn FnMut(Tok, u8, &'static u64) -> OT));
impl Callee for RefMut3 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see())])); let r = if via { let mut d = self.0.as_mut(); d.call_mut(a0, a1, a2) } else { self.0.call_mut(a0, a1, a2) }; called(args, r) }
}
struct BoxOnce3(dynptr!(SBox<dyn FnOnce(Tok, u8, &'static u64) -> bool + 'static>));
impl Callee for BoxOnce3 {
    fn call(&mut self, _: i64, _: bool) -> Called { unreachable!() }
    fn once(self: Box<Self>, x: i64) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see())])); let r = (*self).0.call_once(a0, a1, a2); called(args, r) }
}
struct SyncOnce3(dynptr!(SBox<dyn FnOnce(Tok, u8, &'static u64) -> Tok + Sync + Send + 'static>));
impl Callee for SyncOnce3 {
    fn call(&mut self, _: i64, _: bool) -> Called { unreachable!() }
    fn once(self: Box<Self>, x: i64) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see())])); let r = (*self).0.call_once(a0, a1, a2); called(args, r) }
}
struct BoxFn4(dynptr!(SBox<dyn Fn(Tok, u8, &'static u64, Tok) -> bool + 'static>));
impl Callee for BoxFn4 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see())])); let r = if via { let d = self.0.as_ref(); d.call(a0, a1, a2, a3) } else { self.0.call(a0, a1, a2, a3) }; called(args, r) }
}
struct ArcFn4(dynptr!(SArc<dyn Fn(Tok, u8, &'static u64, Tok) -> Tok + Send + Sync + 'static>));
impl Callee for ArcFn4 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see())])); let r = if via { let d = self.0.as_ref(); d.call(a0, a1, a2, a3) } else { self.0.call(a0, a1, a2, a3) }; called(args, r) }
    fn dup(&self) -> Option<Box<dyn Callee>> { Some(Box::new(ArcFn4(self.0.clone()))) }
}
struct RefFn4(dynptr!(&'static dyn Fn(Tok, u8, &'static u64, Tok) -> u8));
impl Callee for RefFn4 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see())])); let r = if via { let d = self.0; d.call(a0, a1, a2, a3) } else { self.0.call(a0, a1, a2, a3) }; called(args, r) }
}
struct BoxMut4(dynptr!(SBox<dyn FnMut(Tok, u8, &'static u64, Tok) -> Pair + 'static>));
impl Callee for BoxMut4 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see())])); let r = if via { let mut d = self.0.as_mut(); d.call_mut(a0, a1, a2, a3) } else { self.0.call_mut(a0, a1, a2, a3) }; called(args, r) }
}
struct SendMut4(dynptr!(SBox<dyn FnMut(Tok, u8, &'static u64, Tok) -> OT + Send + 'static>));
impl Callee for SendMut4 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see())])); let r = if via { let mut d = self.0.as_mut(); d.call_mut(a0, a1, a2, a3) } else { self.0.call_mut(a0, a1, a2, a3) }; called(args, r) }
}
struct RefMut4(dynptr!(&'static mut dyn FnMut(Tok, u8, &'static u64, Tok) -> bool));
impl Callee for RefMut4 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see())])); let r = if via { let mut d = self.0.as_mut(); d.call_mut(a0, a1, a2, a3) } else { self.0.call_mut(a0, a1, a2, a3) }; called(args, r) }
}
struct BoxOnce4(dynptr!(SBox<dyn FnOnce(Tok, u8, &'static u64, Tok) -> Tok + 'static>));
impl Callee for BoxOnce4 {
    fn call(&mut self, _: i64, _: bool) -> Called { unreachable!() }
    fn once(self: Box<Self>, x: i64) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see())])); let r = (*self).0.call_once(a0, a1, a2, a3); called(args, r) }
}
struct SyncOnce4(dynptr!(SBox<dyn FnOnce(Tok, u8, &'static u64, Tok) -> u8 + Sync + Send + 'static>));
impl Callee for SyncOnce4 {
    fn call(&mut self, _: i64, _: bool) -> Called { unreachable!() }
    fn once(self: Box<Self>, x: i64) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see())])); let r = (*self).0.call_once(a0, a1, a2, a3); called(args, r) }
}
struct BoxFn5(dynptr!(SBox<dyn Fn(Tok, u8, &'static u64, Tok, bool) -> Tok + 'static>));
impl Callee for BoxFn5 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see())])); let r = if via { let d = self.0.as_ref(); d.call(a0, a1, a2, a3, a4) } else { self.0.call(a0, a1, a2, a3, a4) }; called(args, r) }
}
struct ArcFn5(dynptr!(SArc<dyn Fn(Tok, u8, &'static u64, Tok, bool) -> u8 + Send + Sync + 'static>));
impl Callee for ArcFn5 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see())])); let r = if via { let d = self.0.as_ref(); d.call(a0, a1, a2, a3, a4) } else { self.0.call(a0, a1, a2, a3, a4) }; called(args, r) }
    fn dup(&self) -> Option<Box<dyn Callee>> { Some(Box::new(ArcFn5(self.0.clone()))) }
}
struct RefFn5(dynptr!(&'static dyn Fn(Tok, u8, &'static u64, Tok, bool) -> Pair));
impl Callee for RefFn5 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see())])); let r = if via { let d = self.0; d.call(a0, a1, a2, a3, a4) } else { self.0.call(a0, a1, a2, a3, a4) }; called(args, r) }
}
struct BoxMut5(dynptr!(SBox<dyn FnMut(Tok, u8, &'static u64, Tok, bool) -> OT + 'static>));
impl Callee for BoxMut5 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see())])); let r = if via { let mut d = self.0.as_mut(); d.call_mut(a0, a1, a2, a3, a4) } else { self.0.call_mut(a0, a1, a2, a3, a4) }; called(args, r) }
}
struct SendMut5(dynptr!(SBox<dyn FnMut(Tok, u8, &'static u64, Tok, bool) -> bool + Send + 'static>));
impl Callee for SendMut5 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see())])); let r = if via { let mut d = self.0.as_mut(); d.call_mut(a0, a1, a2, a3, a4) } else { self.0.call_mut(a0, a1, a2, a3, a4) }; called(args, r) }
}
struct RefMut5(dynptr!(&'static mut dyn FnMut(Tok, u8, &'static u64, Tok, bool) -> Tok));
impl Callee for RefMut5 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see())])); let r = if via { let mut d = self.0.as_mut(); d.call_mut(a0, a1, a2, a3, a4) } else { self.0.call_mut(a0, a1, a2, a3, a4) }; called(args, r) }
}
struct BoxOnce5(dynptr!(SBox<dyn FnOnce(Tok, u8, &'static u64, Tok, bool) -> u8 + 'static>));
impl Callee for BoxOnce5 {
    fn call(&mut self, _: i64, _: bool) -> Called { unreachable!() }
    fn once(self: Box<Self>, x: i64) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see())])); let r = (*self).0.call_once(a0, a1, a2, a3, a4); called(args, r) }
}
struct SyncOnce5(dynptr!(SBox<dyn FnOnce(Tok, u8, &'static u64, Tok, bool) -> Pair + Sync + Send + 'static>));
impl Callee for SyncOnce5 {
    fn call(&mut self, _: i64, _: bool) -> Called { unreachable!() }
    fn once(self: Box<Self>, x: i64) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see())])); let r = (*self).0.call_once(a0, a1, a2, a3, a4); called(args, r) }
}
struct BoxFn6(dynptr!(SBox<dyn Fn(Tok, u8, &'static u64, Tok, bool, Pair) -> u8 + 'static>));
impl Callee for BoxFn6 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let a5 = <Pair as Val>::mk(x + 5); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see()), pair(a5.see())])); let r = if via { let d = self.0.as_ref(); d.call(a0, a1, a2, a3, a4, a5) } else { self.0.call(a0, a1, a2, a3, a4, a5) }; called(args, r) }
}
struct ArcFn6(dynptr!(SArc<dyn Fn(Tok, u8, &'static u64, Tok, bool, Pair) -> Pair + Send + Sync + 'static>));
impl Callee for ArcFn6 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let a5 = <Pair as Val>::mk(x + 5); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see()), pair(a5.see())])); let r = if via { let d = self.0.as_ref(); d.call(a0, a1, a2, a3, a4, a5) } else { self.0.call(a0, a1, a2, a3, a4, a5) }; called(args, r) }
    fn dup(&self) -> Option<Box<dyn Callee>> { Some(Box::new(ArcFn6(self.0.clone()))) }
}
struct RefFn6(dynptr!(&'static dyn Fn(Tok, u8, &'static u64, Tok, bool, Pair) -> OT));
impl Callee for RefFn6 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let a5 = <Pair as Val>::mk(x + 5); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see()), pair(a5.see())])); let r = if via { let d = self.0; d.call(a0, a1, a2, a3, a4, a5) } else { self.0.call(a0, a1, a2, a3, a4, a5) }; called(args, r) }
}
struct BoxMut6(dynptr!(SBox<dyn FnMut(Tok, u8, &'static u64, Tok, bool, Pair) -> bool + 'static>));
impl Callee for BoxMut6 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let a5 = <Pair as Val>::mk(x + 5); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see()), pair(a5.see())])); let r = if via { let mut d = self.0.as_mut(); d.call_mut(a0, a1, a2, a3, a4, a5) } else { self.0.call_mut(a0, a1, a2, a3, a4, a5) }; called(args, r) }
}
struct SendMut6(dynptr!(SBox<dyn FnMut(Tok, u8, &'static u64, Tok, bool, Pair) -> Tok + Send + 'static>));
impl Callee for SendMut6 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let a5 = <Pair as Val>::mk(x + 5); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see()), pair(a5.see())])); let r = if via { let mut d = self.0.as_mut(); d.call_mut(a0, a1, a2, a3, a4, a5) } else { self.0.call_mut(a0, a1, a2, a3, a4, a5) }; called(args, r) }
}
struct RefMut6(dynptr!(&'static mut dyn FnMut(Tok, u8, &'static u64, Tok, bool, Pair) -> u8));
impl Callee for RefMut6 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let a5 = <Pair as Val>::mk(x + 5); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see()), pair(a5.see())])); let r = if via { let mut d = self.0.as_mut(); d.call_mut(a0, a1, a2, a3, a4, a5) } else { self.0.call_mut(a0, a1, a2, a3, a4, a5) }; called(args, r) }
}
struct BoxOnce6(dynptr!(SBox<dyn FnOnce(Tok, u8, &'static u64, Tok, bool, Pair) -> Pair + 'static>));
impl Callee for BoxOnce6 {
    fn call(&mut self, _: i64, _: bool) -> Called { unreachable!() }
    fn once(self: Box<Self>, x: i64) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let a5 = <Pair as Val>::mk(x + 5); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see()), pair(a5.see())])); let r = (*self).0.call_once(a0, a1, a2, a3, a4, a5); called(args, r) }
}
struct SyncOnce6(dynptr!(SBox<dyn FnOnce(Tok, u8, &'static u64, Tok, bool, Pair) -> OT + Sync + Send + 'static>));
impl Callee for SyncOnce6 {
    fn call(&mut self, _: i64, _: bool) -> Called { unreachable!() }
    fn once(self: Box<Self>, x: i64) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let a5 = <Pair as Val>::mk(x + 5); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see()), pair(a5.see())])); let r = (*self).0.call_once(a0, a1, a2, a3, a4, a5); called(args, r) }
}
struct BoxFn7(dynptr!(SBox<dyn Fn(Tok, u8, &'static u64, Tok, bool, Pair, u64) -> Pair + 'static>));
impl Callee for BoxFn7 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let a5 = <Pair as Val>::mk(x + 5); let a6 = <u64 as Val>::mk(x + 6); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see()), pair(a5.see()), pair(a6.see())])); let r = if via { let d = self.0.as_ref(); d.call(a0, a1, a2, a3, a4, a5, a6) } else { self.0.call(a0, a1, a2, a3, a4, a5, a6) }; called(args, r) }
}
struct ArcFn7(dynptr!(SArc<dyn Fn(Tok, u8, &'static u64, Tok, bool, Pair, u64) -> OT + Send + Sync + 'static>));
impl Callee for ArcFn7 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let a5 = <Pair as Val>::mk(x + 5); let a6 = <u64 as Val>::mk(x + 6); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see()), pair(a5.see()), pair(a6.see())])); let r = if via { let d = self.0.as_ref(); d.call(a0, a1, a2, a3, a4, a5, a6) } else { self.0.call(a0, a1, a2, a3, a4, a5, a6) }; called(args, r) }
    fn dup(&self) -> Option<Box<dyn Callee>> { Some(Box::new(ArcFn7(self.0.clone()))) }
}
struct RefFn7(dynptr!(&'static dyn Fn(Tok, u8, &'static u64, Tok, bool, Pair, u64) -> bool));
impl Callee for RefFn7 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let a5 = <Pair as Val>::mk(x + 5); let a6 = <u64 as Val>::mk(x + 6); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see()), pair(a5.see()), pair(a6.see())])); let r = if via { let d = self.0; d.call(a0, a1, a2, a3, a4, a5, a6) } else { self.0.call(a0, a1, a2, a3, a4, a5, a6) }; called(args, r) }
}
struct BoxMut7(dynptr!(SBox<dyn FnMut(Tok, u8, &'static u64, Tok, bool, Pair, u64) -> Tok + 'static>));
impl Callee for BoxMut7 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let a5 = <Pair as Val>::mk(x + 5); let a6 = <u64 as Val>::mk(x + 6); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see()), pair(a5.see()), pair(a6.see())])); let r = if via { let mut d = self.0.as_mut(); d.call_mut(a0, a1, a2, a3, a4, a5, a6) } else { self.0.call_mut(a0, a1, a2, a3, a4, a5, a6) }; called(args, r) }
}
struct SendMut7(dynptr!(SBox<dyn FnMut(Tok, u8, &'static u64, Tok, bool, Pair, u64) -> u8 + Send + 'static>));
impl Callee for SendMut7 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let a5 = <Pair as Val>::mk(x + 5); let a6 = <u64 as Val>::mk(x + 6); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see()), pair(a5.see()), pair(a6.see())])); let r = if via { let mut d = self.0.as_mut(); d.call_mut(a0, a1, a2, a3, a4, a5, a6) } else { self.0.call_mut(a0, a1, a2, a3, a4, a5, a6) }; called(args, r) }
}
struct RefMut7(dynptr!(&'static mut dyn FnMut(Tok, u8, &'static u64, Tok, bool, Pair, u64) -> Pair));
impl Callee for RefMut7 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let a5 = <Pair as Val>::mk(x + 5); let a6 = <u64 as Val>::mk(x + 6); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see()), pair(a5.see()), pair(a6.see())])); let r = if via { let mut d = self.0.as_mut(); d.call_mut(a0, a1, a2, a3, a4, a5, a6) } else { self.0.call_mut(a0, a1, a2, a3, a4, a5, a6) }; called(args, r) }
}
struct BoxOnce7(dynptr!(SBox<dyn FnOnce(Tok, u8, &'static u64, Tok, bool, Pair, u64) -> OT + 'static>));
impl Callee for BoxOnce7 {
    fn call(&mut self, _: i64, _: bool) -> Called { unreachable!() }
    fn once(self: Box<Self>, x: i64) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let a5 = <Pair as Val>::mk(x + 5); let a6 = <u64 as Val>::mk(x + 6); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see()), pair(a5.see()), pair(a6.see())])); let r = (*self).0.call_once(a0, a1, a2, a3, a4, a5, a6); called(args, r) }
}
struct SyncOnce7(dynptr!(SBox<dyn FnOnce(Tok, u8, &'static u64, Tok, bool, Pair, u64) -> bool + Sync + Send + 'static>));
impl Callee for SyncOnce7 {
    fn call(&mut self, _: i64, _: bool) -> Called { unreachable!() }
    fn once(self: Box<Self>, x: i64) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let a5 = <Pair as Val>::mk(x + 5); let a6 = <u64 as Val>::mk(x + 6); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see()), pair(a5.see()), pair(a6.see())])); let r = (*self).0.call_once(a0, a1, a2, a3, a4, a5, a6); called(args, r) }
}
struct BoxFn8(dynptr!(SBox<dyn Fn(Tok, u8, &'static u64, Tok, bool, Pair, u64, NonZeroU16) -> OT + 'static>));
impl Callee for BoxFn8 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let a5 = <Pair as Val>::mk(x + 5); let a6 = <u64 as Val>::mk(x + 6); let a7 = <NonZeroU16 as Val>::mk(x + 7); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see()), pair(a5.see()), pair(a6.see()), pair(a7.see())])); let r = if via { let d = self.0.as_ref(); d.call(a0, a1, a2, a3, a4, a5, a6, a7) } else { self.0.call(a0, a1, a2, a3, a4, a5, a6, a7) }; called(args, r) }
}
struct ArcFn8(dynptr!(SArc<dyn Fn(Tok, u8, &'static u64, Tok, bool, Pair, u64, NonZeroU16) -> bool + Send + Sync + 'static>));
impl Callee for ArcFn8 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let a5 = <Pair as Val>::mk(x + 5); let a6 = <u64 as Val>::mk(x + 6); let a7 = <NonZeroU16 as Val>::mk(x + 7); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see()), pair(a5.see()), pair(a6.see()), pair(a7.see())])); let r = if via { let d = self.0.as_ref(); d.call(a0, a1, a2, a3, a4, a5, a6, a7) } else { self.0.call(a0, a1, a2, a3, a4, a5, a6, a7) }; called(args, r) }
    fn dup(&self) -> Option<Box<dyn Callee>> { Some(Box::new(ArcFn8(self.0.clone()))) }
}
struct RefFn8(dynptr!(&'static dyn Fn(Tok, u8, &'static u64, Tok, bool, Pair, u64, NonZeroU16) -> Tok));
impl Callee for RefFn8 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let a5 = <Pair as Val>::mk(x + 5); let a6 = <u64 as Val>::mk(x + 6); let a7 = <NonZeroU16 as Val>::mk(x + 7); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see()), pair(a5.see()), pair(a6.see()), pair(a7.see())])); let r = if via { let d = self.0; d.call(a0, a1, a2, a3, a4, a5, a6, a7) } else { self.0.call(a0, a1, a2, a3, a4, a5, a6, a7) }; called(args, r) }
}
struct BoxMut8(dynptr!(SBox<dyn FnMut(Tok, u8, &'static u64, Tok, bool, Pair, u64, NonZeroU16) -> u8 + 'static>));
impl Callee for BoxMut8 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let a5 = <Pair as Val>::mk(x + 5); let a6 = <u64 as Val>::mk(x + 6); let a7 = <NonZeroU16 as Val>::mk(x + 7); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see()), pair(a5.see()), pair(a6.see()), pair(a7.see())])); let r = if via { let mut d = self.0.as_mut(); d.call_mut(a0, a1, a2, a3, a4, a5, a6, a7) } else { self.0.call_mut(a0, a1, a2, a3, a4, a5, a6, a7) }; called(args, r) }
}
struct SendMut8(dynptr!(SBox<dyn FnMut(Tok, u8, &'static u64, Tok, bool, Pair, u64, NonZeroU16) -> Pair + Send + 'static>));
impl Callee for SendMut8 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let a5 = <Pair as Val>::mk(x + 5); let a6 = <u64 as Val>::mk(x + 6); let a7 = <NonZeroU16 as Val>::mk(x + 7); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see()), pair(a5.see()), pair(a6.see()), pair(a7.see())])); let r = if via { let mut d = self.0.as_mut(); d.call_mut(a0, a1, a2, a3, a4, a5, a6, a7) } else { self.0.call_mut(a0, a1, a2, a3, a4, a5, a6, a7) }; called(args, r) }
}
struct RefMut8(dynptr!(&'static mut dyn FnMut(Tok, u8, &'static u64, Tok, bool, Pair, u64, NonZeroU16) -> OT));
impl Callee for RefMut8 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let a5 = <Pair as Val>::mk(x + 5); let a6 = <u64 as Val>::mk(x + 6); let a7 = <NonZeroU16 as Val>::mk(x + 7); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see()), pair(a5.see()), pair(a6.see()), pair(a7.see())])); let r = if via { let mut d = self.0.as_mut(); d.call_mut(a0, a1, a2, a3, a4, a5, a6, a7) } else { self.0.call_mut(a0, a1, a2, a3, a4, a5, a6, a7) }; called(args, r) }
}
struct BoxOnce8(dynptr!(SBox<dyn FnOnce(Tok, u8, &'static u64, Tok, bool, Pair, u64, NonZeroU16) -> bool + 'static>));
impl Callee for BoxOnce8 {
    fn call(&mut self, _: i64, _: bool) -> Called { unreachable!() }
    fn once(self: Box<Self>, x: i64) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let a5 = <Pair as Val>::mk(x + 5); let a6 = <u64 as Val>::mk(x + 6); let a7 = <NonZeroU16 as Val>::mk(x + 7); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see()), pair(a5.see()), pair(a6.see()), pair(a7.see())])); let r = (*self).0.call_once(a0, a1, a2, a3, a4, a5, a6, a7); called(args, r) }
}
struct SyncOnce8(dynptr!(SBox<dyn FnOnce(Tok, u8, &'static u64, Tok, bool, Pair, u64, NonZeroU16) -> Tok + Sync + Send + 'static>));
impl Callee for SyncOnce8 {
    fn call(&mut self, _: i64, _: bool) -> Called { unreachable!() }
    fn once(self: Box<Self>, x: i64) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let a5 = <Pair as Val>::mk(x + 5); let a6 = <u64 as Val>::mk(x + 6); let a7 = <NonZeroU16 as Val>::mk(x + 7); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see()), pair(a5.see()), pair(a6.see()), pair(a7.see())])); let r = (*self).0.call_once(a0, a1, a2, a3, a4, a5, a6, a7); called(args, r) }
}
struct BoxFn9(dynptr!(SBox<dyn Fn(Tok, u8, &'static u64, Tok, bool, Pair, u64, NonZeroU16, OT) -> bool + 'static>));
impl Callee for BoxFn9 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let a5 = <Pair as Val>::mk(x + 5); let a6 = <u64 as Val>::mk(x + 6); let a7 = <NonZeroU16 as Val>::mk(x + 7); let a8 = <OT as Val>::mk(x + 8); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see()), pair(a5.see()), pair(a6.see()), pair(a7.see()), pair(a8.see())])); let r = if via { let d = self.0.as_ref(); d.call(a0, a1, a2, a3, a4, a5, a6, a7, a8) } else { self.0.call(a0, a1, a2, a3, a4, a5, a6, a7, a8) }; called(args, r) }
}
struct ArcFn9(dynptr!(SArc<dyn Fn(Tok, u8, &'static u64, Tok, bool, Pair, u64, NonZeroU16, OT) -> Tok + Send + Sync + 'static>));
impl Callee for ArcFn9 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let a5 = <Pair as Val>::mk(x + 5); let a6 = <u64 as Val>::mk(x + 6); let a7 = <NonZeroU16 as Val>::mk(x + 7); let a8 = <OT as Val>::mk(x + 8); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see()), pair(a5.see()), pair(a6.see()), pair(a7.see()), pair(a8.see())])); let r = if via { let d = self.0.as_ref(); d.call(a0, a1, a2, a3, a4, a5, a6, a7, a8) } else { self.0.call(a0, a1, a2, a3, a4, a5, a6, a7, a8) }; called(args, r) }
    fn dup(&self) -> Option<Box<dyn Callee>> { Some(Box::new(ArcFn9(self.0.clone()))) }
}
struct RefFn9(dynptr!(&'static dyn Fn(Tok, u8, &'static u64, Tok, bool, Pair, u64, NonZeroU16, OT) -> u8));
impl Callee for RefFn9 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let a5 = <Pair as Val>::mk(x + 5); let a6 = <u64 as Val>::mk(x + 6); let a7 = <NonZeroU16 as Val>::mk(x + 7); let a8 = <OT as Val>::mk(x + 8); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see()), pair(a5.see()), pair(a6.see()), pair(a7.see()), pair(a8.see())])); let r = if via { let d = self.0; d.call(a0, a1, a2, a3, a4, a5, a6, a7, a8) } else { self.0.call(a0, a1, a2, a3, a4, a5, a6, a7, a8) }; called(args, r) }
}
struct BoxMut9(dynptr!(SBox<dyn FnMut(Tok, u8, &'static u64, Tok, bool, Pair, u64, NonZeroU16, OT) -> Pair + 'static>));
impl Callee for BoxMut9 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let a5 = <Pair as Val>::mk(x + 5); let a6 = <u64 as Val>::mk(x + 6); let a7 = <NonZeroU16 as Val>::mk(x + 7); let a8 = <OT as Val>::mk(x + 8); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see()), pair(a5.see()), pair(a6.see()), pair(a7.see()), pair(a8.see())])); let r = if via { let mut d = self.0.as_mut(); d.call_mut(a0, a1, a2, a3, a4, a5, a6, a7, a8) } else { self.0.call_mut(a0, a1, a2, a3, a4, a5, a6, a7, a8) }; called(args, r) }
}
struct SendMut9(dynptr!(SBox<dyn FnMut(Tok, u8, &'static u64, Tok, bool, Pair, u64, NonZeroU16, OT) -> OT + Send + 'static>));
impl Callee for SendMut9 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let a5 = <Pair as Val>::mk(x + 5); let a6 = <u64 as Val>::mk(x + 6); let a7 = <NonZeroU16 as Val>::mk(x + 7); let a8 = <OT as Val>::mk(x + 8); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see()), pair(a5.see()), pair(a6.see()), pair(a7.see()), pair(a8.see())])); let r = if via { let mut d = self.0.as_mut(); d.call_mut(a0, a1, a2, a3, a4, a5, a6, a7, a8) } else { self.0.call_mut(a0, a1, a2, a3, a4, a5, a6, a7, a8) }; called(args, r) }
}
struct RefMut9(dynptr!(&'static mut dyn FnMut(Tok, u8, &'static u64, Tok, bool, Pair, u64, NonZeroU16, OT) -> bool));
impl Callee for RefMut9 {
    fn call(&mut self, x: i64, via: bool) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let a5 = <Pair as Val>::mk(x + 5); let a6 = <u64 as Val>::mk(x + 6); let a7 = <NonZeroU16 as Val>::mk(x + 7); let a8 = <OT as Val>::mk(x + 8); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see()), pair(a5.see()), pair(a6.see()), pair(a7.see()), pair(a8.see())])); let r = if via { let mut d = self.0.as_mut(); d.call_mut(a0, a1, a2, a3, a4, a5, a6, a7, a8) } else { self.0.call_mut(a0, a1, a2, a3, a4, a5, a6, a7, a8) }; called(args, r) }
}
struct BoxOnce9(dynptr!(SBox<dyn FnOnce(Tok, u8, &'static u64, Tok, bool, Pair, u64, NonZeroU16, OT) -> Tok + 'static>));
impl Callee for BoxOnce9 {
    fn call(&mut self, _: i64, _: bool) -> Called { unreachable!() }
    fn once(self: Box<Self>, x: i64) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let a5 = <Pair as Val>::mk(x + 5); let a6 = <u64 as Val>::mk(x + 6); let a7 = <NonZeroU16 as Val>::mk(x + 7); let a8 = <OT as Val>::mk(x + 8); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see()), pair(a5.see()), pair(a6.see()), pair(a7.see()), pair(a8.see())])); let r = (*self).0.call_once(a0, a1, a2, a3, a4, a5, a6, a7, a8); called(args, r) }
}
struct SyncOnce9(dynptr!(SBox<dyn FnOnce(Tok, u8, &'static u64, Tok, bool, Pair, u64, NonZeroU16, OT) -> u8 + Sync + Send + 'static>));
impl Callee for SyncOnce9 {
    fn call(&mut self, _: i64, _: bool) -> Called { unreachable!() }
    fn once(self: Box<Self>, x: i64) -> Called { let a0 = <Tok as Val>::mk(x + 0); let a1 = <u8 as Val>::mk(x + 1); let a2 = <&'static u64 as Val>::mk(x + 2); let a3 = <Tok as Val>::mk(x + 3); let a4 = <bool as Val>::mk(x + 4); let a5 = <Pair as Val>::mk(x + 5); let a6 = <u64 as Val>::mk(x + 6); let a7 = <NonZeroU16 as Val>::mk(x + 7); let a8 = <OT as Val>::mk(x + 8); let args = galloc::untracked(|| J::L(vec![pair(a0.see()), pair(a1.see()), pair(a2.see()), pair(a3.see()), pair(a4.see()), pair(a5.see()), pair(a6.see()), pair(a7.see()), pair(a8.see())])); let r = (*self).0.call_once(a0, a1, a2, a3, a4, a5, a6, a7, a8); called(args, r) }
}
