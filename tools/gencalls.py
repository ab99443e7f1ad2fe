#!/usr/bin/env python3
"""Writes harness/src/calls_gen.rs: objects of closures of every arity, kind and pointer."""
A = ["Tok", "u8", "&'static u64", "Tok", "bool", "Pair", "u64", "NonZeroU16", "OT"]
KINDS = [  # name, kind, type, made from, called, called through a borrow, lent, cloned
    ("BoxFn", "fn", "dynptr!(SBox<dyn Fn({t}) -> {o} + 'static>)", "SBox::new(f).into()", "self.0.call({a})", "{{ let d = self.0.as_ref(); d.call({a}) }}", 0, 0),
    ("ArcFn", "fn", "dynptr!(SArc<dyn Fn({t}) -> {o} + Send + Sync + 'static>)", "SArc::new(f).into()", "self.0.call({a})", "{{ let d = self.0.as_ref(); d.call({a}) }}", 0, 1),
    ("RefFn", "fn", "dynptr!(&'static dyn Fn({t}) -> {o})", "lend(f)", "self.0.call({a})", "{{ let d = self.0; d.call({a}) }}", 1, 0),
    ("BoxMut", "mut", "dynptr!(SBox<dyn FnMut({t}) -> {o} + 'static>)", "SBox::new(f).into()", "self.0.call_mut({a})", "{{ let mut d = self.0.as_mut(); d.call_mut({a}) }}", 0, 0),
    ("SendMut", "mut", "dynptr!(SBox<dyn FnMut({t}) -> {o} + Send + 'static>)", "SBox::new(f).into()", "self.0.call_mut({a})", "{{ let mut d = self.0.as_mut(); d.call_mut({a}) }}", 0, 0),
    ("RefMut", "mut", "dynptr!(&'static mut dyn FnMut({t}) -> {o})", "lend(f)", "self.0.call_mut({a})", "{{ let mut d = self.0.as_mut(); d.call_mut({a}) }}", 1, 0),
    ("BoxOnce", "once", "dynptr!(SBox<dyn FnOnce({t}) -> {o} + 'static>)", "SBox::new(f).into()", "self.0.call_once({a})", None, 0, 0),
    ("SyncOnce", "once", "dynptr!(SBox<dyn FnOnce({t}) -> {o} + Sync + Send + 'static>)", "SBox::new(f).into()", "self.0.call_once({a})", None, 0, 0),
]
out = ["// Written by tools/gencalls.py", "#![allow(unused)]", "use super::*;", "use stabby::closure::*;", "pub fn kinds() -> Vec<Kind> {", "    let mut l: Vec<Kind> = Vec::new();"]
types = []
for n in range(10):
    t = ", ".join(A[:n]) + ("," if n == 1 else "")
    t = ", ".join(A[:n])
    a = ", ".join(f"a{i}" for i in range(n))
    params = ", ".join(f"a{i}: {A[i]}" for i in range(n))
    for j, (name, kind, ty, made, call, via, lent, cloned) in enumerate(KINDS):
        o = ["Tok", "u8", "Pair", "OT", "bool"][(n + j) % 5]
        ty = ty.format(t=t, o=o)
        s = f"{name}{n}"
        see = ", ".join(f"a{i}.see()" for i in range(n))
        mk = f"<{o} as Val>::mk(n)"
        ret = f"if n % 2 == 0 {{ a0 }} else {{ drop(a0); {mk} }}" if o == "Tok" and n > 0 else mk
        take = "let cap = cap;" if kind == "once" else ""
        nx = "cap.next_mut()" if kind == "mut" else "cap.next()"
        f = f"move |{params}| -> {o} {{ {take} let see: Vec<(i64, i64)> = galloc::untracked(|| vec![{see}]); let n = {nx}; let r: {o} = {ret}; cap.log(n, see, r.see()); r }}"
        body = [f"        let mut cap = Cap::new(); let own = cap.own();", f"        let f = {f};"]
        if lent:
            m = "&mut *p" if kind == "mut" else "&*p"
            body += ["        let p = Box::into_raw(Box::new(f));", f"        let d: {ty} = unsafe {{ {m} }}.into();", "        let after: After = Some(Box::new(move || unsafe { drop(Box::from_raw(p)) }));"]
        else:
            body += [f"        let d: {ty} = {made};", "        let after: After = None;"]
        out += [f'    l.push(Kind {{ name: "{name} of {n}", kind: "{kind}", lent: {lent}, make: |_| {{'] + body + [f"        (own, Vec::new(), Thing::Callee(Box::new({s}(d))), after)", "    } });"]
        mkargs = " ".join(f"let a{i} = <{A[i]} as Val>::mk(x + {i});" for i in range(n))
        seeargs = ", ".join(f"pair(a{i}.see())" for i in range(n))
        types += [f"struct {s}({ty});", f"impl Callee for {s} {{"]
        if kind == "once":
            types += ["    fn call(&mut self, _: i64, _: bool) -> Called { unreachable!() }",
                      f"    fn once(self: Box<Self>, x: i64) -> Called {{ {mkargs} let args = galloc::untracked(|| J::L(vec![{seeargs}])); let r = {call.format(a=a).replace('self.0', '(*self).0')}; called(args, r) }}"]
        else:
            types += [f"    fn call(&mut self, x: i64, via: bool) -> Called {{ {mkargs} let args = galloc::untracked(|| J::L(vec![{seeargs}])); let r = if via {via.format(a=a)} else {{ {call.format(a=a)} }}; called(args, r) }}"]
        if cloned:
            types += [f"    fn dup(&self) -> Option<Box<dyn Callee>> {{ Some(Box::new({s}(self.0.clone()))) }}"]
        types += ["}"]
out += ["    l", "}"] + types
open("/verif/harness/src/calls_gen.rs", "w").write("\n".join(out) + "\n")
