#!/usr/bin/env python3
"""Writes the list of types and the functions for closures of harness/src/bin/data."""
import itertools, os, random

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness/src/bin/data")

# ------------------------------------------------------------------ closures
# A shape: kinds of the bound leading arguments (v: value, b: boxed value, r: reference, R: reference to a box,
# m: mutable reference, M: the same to a box), number of remaining arguments, made with methods or with lambda!.


def shapes():
    out = []
    for n in range(0, 5):
        for b in range(0, min(n, 2) + 1):
            for ks in itertools.product("vrm", repeat=b):
                out.append((list(ks), n - b))
    rng = random.Random(7)
    for n in range(5, 21):
        for b in (1, 2) if n % 2 else (1,):
            out.append(([rng.choice("vrmbRM") for _ in range(b)], n - b))
    for ks in ("b", "R", "M", "bv", "Rm", "MR", "bMR", "MMM", "RRr", "vbM", "mbr"):
        out.append((list(ks), 2))
    return out


def cap(ks):
    """2: Fn, 1: FnMut, 0: FnOnce"""
    c = 2
    for k in ks:
        if k == "b":
            c = 0
        elif k in "mM":
            c = min(c, 1)
    return c


PARAM = {"v": "i64", "b": "Box<i64>", "r": "&i64", "R": "&Box<i64>", "m": "&mut i64", "M": "&mut Box<i64>"}
HEAD = {"v": "i64", "b": "Box<i64>", "r": "i64", "R": "Box<i64>", "m": "i64", "M": "Box<i64>"}
READ = {"v": "{}", "b": "*{}", "r": "*{}", "R": "**{}", "m": "*{}", "M": "**{}"}
TRAIT = ["FnOnceObject", "FnMutObject", "FnObject"]
BIND = {"v": "bind_value", "b": "bind_value", "r": "bind_ref", "R": "bind_ref", "m": "bind_mut", "M": "bind_mut"}


def args_ty(n):
    return "(" + "".join("i64," for _ in range(n)) + ")"


def closures():
    o = ["//! Generated by tools/mkdata.py: functions, ways to bind their arguments, function pointers.",
         "use crate::term::*;", "use cmh::json::J;",
         "use crossmist::{func, lambda, BindMut, BindRef, BindValue, FnMutObject, FnObject, FnOnceObject, StaticFn};", ""]
    by_type = {}
    for i, (ks, rest) in enumerate(shapes()):
        # Something more general can always be used as something less general.
        caps = {cap(ks)} | ({0} if i % 3 == 0 else set()) | ({min(1, cap(ks))} if i % 5 == 0 else set())
        for w in caps:
            style = ["bind", "lambda"][(i + w) % 2] if rest + len(ks) <= 12 else "bind"
            by_type.setdefault((w, rest), []).append((i, ks, style))
    for i, (ks, rest) in enumerate(shapes()):
        names = [f"a{j}" for j in range(len(ks))] + [f"b{j}" for j in range(rest)]
        params = ", ".join(f"{n}: {PARAM[k]}" for n, k in zip(names, ks + ["v"] * rest))
        if any(i == x[0] and x[2] == "bind" for v in by_type.values() for x in v):
            o += ["#[func]", f"fn f{i}({params}) -> Vec<i64> {{", body(i, ks, rest, names, "    "), "}", ""]
    types = []
    for (w, rest), lst in sorted(by_type.items()):
        ty = f"Box<dyn {TRAIT[w]}<{args_ty(rest)}, Output = Vec<i64>>>"
        types.append(ty)
        o += [f"impl Term for {ty} {{", "    fn ty(_: &mut Reg) -> J {",
              "        let s = [" + ", ".join('"' + "".join(ks) + '"' for _, ks, _ in lst) + "];",
              "        let ids = [" + ", ".join(str(i) for i, _, _ in lst) + "];",
              f"        crate::clo_kind({w}, {rest}, &s, &ids)", "    }",
              "    fn build(v: &J, _: &mut Cx) -> Self {",
              "        let h = |i: usize| c(v, i).n(\"n\");", "        let _ = &h;",
              "        match v.n(\"n\") {"]
        for n, (i, ks, style) in enumerate(lst):
            if style == "bind":
                e = f"f{i}"
                for j, k in enumerate(ks):
                    hv = f"h({j})" if HEAD[k] == "i64" else f"Box::new(h({j}))"
                    # The kinds of binding are told apart by the type of the parameter.
                    e = f"{e}.{BIND[k]}({hv})"
                o += [f"            {n} => Box::new({e}),"]
            else:
                names = [f"a{j}" for j in range(len(ks))] + [f"b{j}" for j in range(rest)]
                lets = " ".join(f"let a{j} = " + (f"h({j});" if HEAD[k] == "i64" else f"Box::new(h({j}));")
                                for j, k in enumerate(ks))
                amp = {"v": "", "b": "", "r": "&", "R": "&", "m": "&mut ", "M": "&mut "}
                mv = ", ".join(f"{amp[k]}a{j}: {PARAM[k]}" for j, k in enumerate(ks))
                ps = ", ".join(f"b{j}: i64" for j in range(rest))
                o += [f"            {n} => {{", f"                {lets}",
                      f"                lambda! {{ {'move(' + mv + ') ' if ks else ''}|{ps}| -> Vec<i64> {{",
                      body(i, ks, rest, names, "                    "), "                } }", "            }"]
        o += ["            _ => panic!(\"HARNESS: no such shape\"),", "        }", "    }",
              "    fn obs(&self, _: &mut Ox) -> J {", "        t(0, vec![])", "    }"]
        tup = "(" + "".join(f"x[{j}]," for j in range(rest)) + ")"
        if w >= 1:
            o += ["    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {", f"        let _ = x;",
                  "        match mode {"]
            if w == 2:
                o += [f'            "ref" => self.as_ref().call_object({tup}),']
            o += [f'            "mut" => self.as_mut().call_object_mut({tup}),',
                  '            _ => panic!("HARNESS: mode"),', "        }", "    }"]
        o += ["    fn call_once(self, x: &[i64]) -> Vec<i64> {", "        let _ = x;",
              f"        self.call_object_box({tup})", "    }", "}", ""]
    # Function pointers.
    for r in range(0, 21):
        ps = ", ".join(f"b{j}: i64" for j in range(r))
        al = ", ".join(["{N}"] + [f"b{j}" for j in range(r)])
        variants = [("fn", "")] + ([("unsafe fn", "unsafe ")] if r in (0, 1, 3, 20) else [])
        for sig, uns in variants:
            ty = f"StaticFn<{sig}({', '.join(['i64'] * r)}) -> Vec<i64>>"
            types.append(ty)
            tag = "u" if uns else "p"
            for n in range(3):
                o += [f"{uns}fn {tag}{r}_{n}({ps}) -> Vec<i64> {{", f"    vec![{al.replace('{N}', str(n))}]", "}"]
            ptr = f"{sig}({', '.join(['i64'] * r)}) -> Vec<i64>"
            tup = "(" + "".join(f"x[{j}]," for j in range(r)) + ")"
            direct = f"(self.get_fn())({', '.join(f'x[{j}]' for j in range(r))})"
            o += [f"impl Term for {ty} {{", "    fn ty(_: &mut Reg) -> J {", f"        crate::fn_kind({0 if not uns else 3}, {r})", "    }",
                  "    fn build(v: &J, _: &mut Cx) -> Self {", "        unsafe {", "            match v.n(\"n\") {"]
            for n in range(3):
                o += [f"                {n} => StaticFn::<{ptr}>::new({tag}{r}_{n}),"]
            o += ["                _ => panic!(\"HARNESS: no such function\"),", "            }", "        }", "    }",
                  "    fn obs(&self, _: &mut Ox) -> J {",
                  "        let p = self.get_fn() as usize;",
                  "        let all = [" + ", ".join(f"{tag}{r}_{n} as {ptr} as usize" for n in range(3)) + "];",
                  "        t(all.iter().position(|x| *x == p).map_or(-1, |x| x as i64), vec![])", "    }",
                  "    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {", "        let _ = x;"]
            if uns:
                o += ["        let _ = mode;", f"        unsafe {{ {direct} }}"]
            else:
                o += ["        match mode {", f'            "ref" => self.call_object({tup}),',
                      f'            "mut" => self.call_object_mut({tup}),', f"            _ => {direct},", "        }"]
            o += ["    }", "    fn call_once(self, x: &[i64]) -> Vec<i64> {", "        let _ = x;"]
            if uns:
                o += [f"        unsafe {{ {direct} }}"]
            else:
                o += [f"        self.call_object_once({tup})"]
            o += ["    }", "}", ""]
    with open(os.path.join(OUT, "clos.rs"), "w") as f:
        f.write("\n".join(o) + "\n")
    return types


def body(i, ks, rest, names, ind):
    reads = [str(i)] + [READ[k].format(n) for n, k in zip(names, ks)] + names[len(ks):]
    rest_names = names[len(ks):]
    lines = [f"let r = vec![{', '.join(reads)}];"]
    for n, k in zip(names, ks):
        if k in "mM":
            lines.append(f"crate::step({'' if k == 'm' else '&mut **'}{n}, &[{', '.join(rest_names)}]);")
    lines.append("r")
    return "\n".join(ind + l for l in lines)


# ------------------------------------------------------------------ types
LEAVES = ("bool char u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64 () Duration Instant SystemTime String "
          "CString OsString PathBuf Infallible").split() + [
    "NonZero" + s + n for s in "UI" for n in "8 16 32 64 128 size".split()] + ["PhantomData<String>"]
FILES = ["File", "OwnedHandle", "tokio::fs::File", "smol::fs::File", "CustomFile"]
DERIVED = ("Padded Unit Braces NewType Triple Named Gen<u8,String> Gen<Option<u64>,Padded> Gen<Vec<String>,Gen<u8,u64>> "
           "Bounded<u16> Bounded<String> Sized3<u32,0> Sized3<u32,4> Sized3<String,2> Phantom<Vec<u8>> WithFiles Plain Mixed "
           "GenE<u8,u64> GenE<String,Vec<u32>> GenE<Plain,Padded> One Repr Tree List Many300").split()
SHARED = ("Rc<u32> Arc<u32> Rc<String> Arc<Vec<u8>> Rc<()> Arc<()> (Rc<u32>,Rc<u32>) (Arc<u8>,Rc<u8>,Arc<u8>,Rc<u8>) Vec<Rc<u32>> "
          "[Rc<String>;3] Rc<Rc<u32>> Arc<Rc<Arc<u16>>> Vec<Rc<Vec<Rc<u32>>>> (Rc<Rc<u8>>,Rc<u8>) Option<Rc<Node>> Vec<Rc<Node>> "
          "(Rc<Node>,Arc<Node>) Vec<Arc<Other>> Node Vec<Other> CustomRc<u16> Vec<CustomRc<String>> "
          "(CustomRc<u16>,Rc<u16>,CustomRc<u16>,Rc<u16>) Rc<File> Vec<Rc<File>> BTreeMap<u8,Rc<u32>> HashMap<String,Arc<Node>> "
          "Box<Rc<u32>> Result<Rc<u32>,Arc<u32>> Rc<Box<dyn_Shape>> Arc<Mutable>").split()
DELAYED = ("Delayed<u32> Delayed<String> Delayed<File> Delayed<Vec<File>> Delayed<(File,Rc<u32>,Rc<u32>,File)> Delayed<Node> "
           "Delayed<WithFiles> Delayed<Box<dyn_Shape>> Delayed<()> Delayed<Option<OwnedHandle>> (u8,Delayed<File>,u16) "
           "(File,Delayed<Vec<File>>,File,Delayed<File>,String) Vec<Delayed<Vec<File>>> Delayed<Rc<Rc<String>>> "
           "(Rc<u32>,Delayed<Rc<u32>>,Rc<u32>) Delayed<Delayed<File>> Delayed<(File,Delayed<String>,Delayed<File>,u8)>").split()
OBJECTS = ["Box<dyn Shape>", "Box<dyn Animal>", "Vec<Box<dyn Shape>>", "(Box<dyn Animal>,u8,Box<dyn Shape>)",
           "Rc<Box<dyn Animal>>", "Option<Box<dyn Shape>>", "Box<Box<dyn Animal>>", "[Box<dyn Animal>;3]",
           "Box<[Box<dyn Shape>]>", "HashMap<u8,Box<dyn Shape>>"]
# What comes out of the above, or is a part of it.
PARTS = ("(File,Rc<u32>,Rc<u32>,File) Vec<File> Node WithFiles Option<OwnedHandle> Rc<Rc<String>> Delayed<File> Delayed<Vec<File>> "
         "(File,Delayed<String>,Delayed<File>,u8) Delayed<String> Vec<Delayed<Vec<File>>> Delayed<Rc<u32>> Delayed<Delayed<File>> "
         "Rc<Vec<Rc<u32>>> Vec<Rc<u32>> Rc<u8> Arc<u8> Arc<Node> Option<u8>").split()
STATIC = ["StaticRef<u32>", "StaticRef<[u8;100_000]>", "StaticRef<std::sync::Mutex<String>>", "StaticRef<u16>",
          "StaticRef<&'static str>", "StaticRef<&'static dyn Speak>", "StaticRef<()>",
          "Vec<StaticRef<u32>>", "Option<StaticRef<u32>>", "(u8,StaticRef<u16>,StaticRef<u32>)",
          "Box<StaticRef<&'static dyn Speak>>", "Gen<StaticRef<u32>,StaticRef<&'static str>>"]


def composed():
    rng = random.Random(20)
    nt = [x for x in LEAVES if x not in ("Infallible",)]
    ordered = ["bool", "char", "u8", "u16", "i64", "u128", "String", "CString", "PathBuf", "Duration", "NonZeroU32", "Padded", "Plain"]
    out = []
    unary = ["Option<{}>", "Vec<{}>", "VecDeque<{}>", "LinkedList<{}>", "Box<{}>", "Box<[{}]>", "[{};0]", "[{};1]", "[{};3]",
             "Rc<{}>", "Arc<{}>", "({},)"]
    keyed = ["BTreeSet<{}>", "HashSet<{}>", "OddSet<{}>", "BinaryHeap<{}>"]
    maps = ["BTreeMap<{},{}>", "HashMap<{},{}>", "OddMap<{},{}>"]
    some = ["u8", "u32", "String", "Padded", "Plain", "()", "bool", "f64", "Named"]
    for u in unary:
        for x in rng.sample(some, 3):
            out.append(u.format(x))
    for u in keyed:
        for x in rng.sample(ordered, 3):
            out.append(u.format(x))
    for u in maps:
        for _ in range(3):
            out.append(u.format(rng.choice(ordered), rng.choice(some)))
    out += ["Result<u8,u64>", "Result<String,()>", "Result<u16,Infallible>", "Result<Infallible,String>", "Result<(),Box<u8>>",
            "Option<Infallible>", "Vec<Infallible>", "Option<Option<u8>>", "Option<bool>", "Option<NonZeroU8>", "Option<char>",
            "Option<Box<u8>>", "Option<()>", "Option<Option<bool>>", "Option<Result<u8,bool>>", "[[u8;3];2]", "[(u8,u32);3]",
            "[Option<u16>;4]", "Vec<(u8,u64)>", "Vec<Option<char>>", "Vec<[String;2]>", "Vec<Plain>", "Vec<Padded>", "Vec<Repr>",
            "Vec<Vec<Vec<u8>>>", "Option<Duration>", "Option<Instant>", "Result<SystemTime,Duration>", "[bool;3]", "[f32;3]",
            "(u8,u16,u32)", "(String,u8,String)", "(u8,String)", "(u64,u8,u64,u8)", "(u8,u16,u32,u64,u128)",
            "(bool,String,Option<u8>,Vec<u16>,char,i8)", "(u8,(u16,(u32,(u64,))))", "(u8,u8,u8,u8,u8,u8,u8)",
            "(u8,u16,u32,u64,i8,i16,i32,i64,bool,char,f32,String)",
            "(u8,u16,String,u64,i8,i16,i32,i64,bool,char,f32,f64,u128,Vec<u8>,Option<u8>,Box<u16>,i128,usize,Plain)",
            "ByHand<u8,String>", "ByHand<Vec<u16>,u64>", "Vec<ByHand<u8,u16>>", "Box<Box<u8>>", "Box<()>", "Box<Padded>",
            "Option<File>", "Vec<File>", "[File;2]", "(File,u8,File)", "Result<File,OwnedHandle>", "Box<File>", "VecDeque<tokio::fs::File>",
            "BTreeMap<u8,File>", "Box<[OwnedHandle]>", "(smol::fs::File,String,CustomFile)", "Gen<File,u8>", "GenE<File,Vec<File>>",
            "ByHand<File,OwnedHandle>", "Tree", "Option<List>", "LinkedList<Tree>", "Vec<GenE<u8,u64>>", "Option<Plain>",
            "Result<Plain,Padded>", "[Plain;3]", "VecDeque<Option<Named>>"]
    # Random nestings.
    def rnd(d):
        if d == 0:
            return rng.choice(nt + ["Plain", "Padded", "Named"])
        k = rng.randrange(9)
        if k < 5:
            return rng.choice(unary).format(rnd(d - 1))
        if k == 5:
            return f"({rnd(d - 1)},{rnd(rng.randrange(d))})"
        if k == 6:
            return rng.choice(maps).format(rng.choice(ordered), rnd(d - 1))
        if k == 7:
            return f"Result<{rnd(d - 1)},{rnd(rng.randrange(d))}>"
        return rng.choice(["Gen<{},{}>", "GenE<{},{}>"]).format(rnd(d - 1), rnd(rng.randrange(d)))
    for d, n in ((2, 36), (3, 24)):
        out += [rnd(d) for _ in range(n)]
    return out


def sigs():
    """Functions with parameters of various types."""
    rng = random.Random(77)
    pool = [x for x in LEAVES if x != "Infallible"] + FILES + DERIVED + [
        x for x in SHARED if x != "CDag"] + ["Delayed<File>", "Delayed<String>", "Delayed<Vec<File>>", "Vec<File>", "Box<dyn Shape>",
        "Box<dyn Animal>", "StaticRef<u32>", "StaticRef<&'static dyn Speak>", "Rc<u32>", "Arc<u32>", "Rc<u32>", "Rc<Node>", "Arc<Node>"]
    pool = [x.replace("dyn_", "dyn ") for x in pool]
    out = [[x] for x in ("()", "u8", "String", "File", "Padded", "Unit", "Rc<Node>", "Vec<Rc<u32>>", "Box<dyn Shape>", "Many300",
                         "Option<Rc<Node>>", "f64", "WithFiles", "StaticRef<u32>", "Mixed", "Vec<File>")]
    n = len(out)
    for k in list(range(0, 13)) + [16, 20, 20]:
        out.append([rng.choice(pool) for _ in range(k)])
    out += [["Rc<u32>", "Rc<u32>", "u8", "Rc<u32>"], ["Rc<Node>", "Arc<Node>", "Rc<Node>", "Arc<Node>"],
            ["File", "Delayed<File>", "Vec<File>", "Delayed<Vec<File>>", "File"], ["Delayed<File>", "Delayed<File>", "u8"],
            ["Box<dyn Shape>", "Rc<u64>", "Box<dyn Animal>", "Arc<u8>"]]
    return n, out


def applied(n, sg):
    o = ["//! Generated by tools/mkdata.py: functions with parameters of various types.", "#![allow(unused_imports)]",
         "use crate::catalog::*;", "use crate::term::*;", "use crate::types::*;", "use crate::Bundle;", "use crossmist::handles::OwnedHandle;",
         "use crossmist::{func, Delayed, StaticRef};",
         "use std::any::{Any, TypeId};", "use std::collections::*;", "use std::ffi::{CString, OsString};",
         "use std::fs::File;", "use std::marker::PhantomData;", "use std::num::*;", "use std::path::PathBuf;",
         "use std::rc::Rc;", "use std::sync::Arc;", "use std::time::{Duration, Instant, SystemTime};", "",
         "fn get<T: 'static>(it: &mut std::vec::IntoIter<Dyn>) -> T { *it.next().unwrap().v.any().downcast().ok().unwrap() }", ""]
    fix = lambda t: t.replace("tokio::fs::File", "::tokio::fs::File").replace("smol::fs::File", "::smol::fs::File")
    for i, ts in enumerate(sg):
        one = i < n
        ps = ", ".join(f"a{j}: {fix(t)}" for j, t in enumerate(ts))
        ret = fix(ts[0]) if one else "Bundle"
        body = "a0" if one else "Bundle(vec![" + ", ".join(f"Dyn::new(a{j}{'.deserialize().unwrap()' if t.startswith('Delayed') else ''})" for j, t in enumerate(ts)) + "])"
        # Files of tokio need its runtime where they are read.
        kind = ["", "(smol)", "(tokio(flavor = \"current_thread\"))"][i % 3]
        if "tokio::fs::File" in str(ts):
            kind = "(tokio(flavor = \"current_thread\"))"
        o += [f"#[func{kind}]", f"{'async ' if kind else ''}fn g{i}({ps}) -> {ret} {{ {body} }}"]
    o += ["", "pub fn sigs() -> Vec<Vec<TypeId>> {", "    vec!["]
    for ts in sg:
        o.append("        vec![" + ", ".join(f"TypeId::of::<{fix(t)}>()" for t in ts) + "],")
    o += ["    ]", "}", "", "#[allow(unused_mut, unused_variables)]",
          "pub fn apply(i: usize, rt: &str, args: Vec<Dyn>) -> std::io::Result<Vec<Dyn>> {", "    let mut it = args.into_iter();", "    match i {"]
    for i, ts in enumerate(sg):
        al = ", ".join("get(&mut it)" for t in ts)
        # Every function can be called from everywhere, but not everything is compiled.
        rts = {0: [("tokio", "tok"), ("run", "run")], 1: [("smol", "smo"), ("b", "blo")], 2: [("b", "blo"), ("tokio", "tok")], 3: [("smol", "smo"), ("run", "run")]}[i % 4]
        conv = "|x| vec![Dyn::new(x)]" if i < n else "|x: Bundle| x.0"
        o += [f"        {i} => match rt {{"]
        for k, (rt, how) in enumerate(rts):
            call = {"tok": f"crate::tokio_rt().block_on(async {{ g{i}.spawn_tokio({al}).await?.join().await }})",
                    "smo": f"smol::block_on(async {{ g{i}.spawn_smol({al}).await?.join().await }})",
                    "blo": f"g{i}.spawn({al}).and_then(|c| c.join())",
                    "run": f"g{i}.run({al})"}[how]
            o.append(f"            {chr(34) + rt + chr(34) if k == 0 else '_'} => {call}.map({conv}),")
        o.append("        },")
    o += ["        _ => panic!(\"HARNESS: no such function\"),", "    }", "}"]
    with open(os.path.join(OUT, "applied.rs"), "w") as f:
        f.write("\n".join(o) + "\n")


def catalog(clos):
    o = ["//! Generated by tools/mkdata.py: the types whose values are exchanged.", "#![allow(unused_imports)]",
         "use crate::term::*;", "use crate::types::*;", "use crossmist::handles::OwnedHandle;",
         "use crossmist::{Delayed, FnMutObject, FnObject, FnOnceObject, Object, StaticFn, StaticRef};",
         "use cmh::json::J;", "use std::collections::*;", "use std::convert::Infallible;", "use std::ffi::{CString, OsString};",
         "use std::fs::File;", "use std::marker::PhantomData;", "use std::num::*;", "use std::path::PathBuf;", "use std::rc::Rc;",
         "use std::sync::Arc;", "use std::time::{Duration, Instant, SystemTime};", ""]
    vs = [f"V{i}" for i in range(300)]
    o += ["#[derive(Object)]", "pub enum Many300 { " + ", ".join(v if i % 50 != 7 else f"{v}(u8, String)" for i, v in enumerate(vs)) + " }",
          "term_enum! { impl Many300 { " + " ".join(v + " {}" if i % 50 != 7 else v + " { 0 a: u8, 1 b: String }" for i, v in enumerate(vs)) + " } }", ""]
    o += ["/// For objects that are looked at through several pointers.", "#[derive(Object)]", "pub struct Mutable { pub a: u8, pub r: Rc<String> }",
          "impl Term for Mutable {", "    fn ty(r: &mut Reg) -> J { let v = vec![r.of::<u8>(), r.of::<Rc<String>>()]; kind(\"tuple\", 0, vec![v]) }",
          "    fn build(v: &J, cx: &mut Cx) -> Self { Mutable { a: u8::build(c(v, 0), cx), r: Term::build(c(v, 1), cx) } }",
          "    fn obs(&self, ox: &mut Ox) -> J { t(0, vec![Term::obs(&self.a, ox), Term::obs(&self.r, ox)]) }", "}", ""]
    groups = {"leaf": LEAVES, "file": FILES, "derived": DERIVED, "composed": composed(), "shared": SHARED + ["Dag", "CDag", "Rc<Dag>"],
              "delayed": DELAYED, "part": PARTS, "object": OBJECTS, "sig": sorted({t for ts in sigs()[1] for t in ts}), "static": STATIC, "call": clos}
    seen, lines = set(), []
    for g, ts in groups.items():
        for ty in ts:
            ty = ty.replace("dyn_", "dyn ").replace("tokio::fs::File", "::tokio::fs::File").replace("smol::fs::File", "::smol::fs::File")
            if ty not in seen:
                seen.add(ty)
                lines.append(f'    ("{g}", entry::<{ty}>("")),')
    o += [f"pub const TYPES: [(&str, fn() -> Entry); {len(lines)}] = ["] + lines + ["];"]
    with open(os.path.join(OUT, "catalog.rs"), "w") as f:
        f.write("\n".join(o) + "\n")
    print(len(lines), "types")


catalog(closures())
applied(*sigs())
