//! What the bundled doctors write, for hostile names and debug texts.
use crate::rng::Rng;
use crate::suites::Case;
use daab::diagnostics::{ArtifactHandle, BuilderHandle, Doctor, TextualDoc, TextualDocOptions, VisgraphDoc, VisgraphDocOptions};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;
use std::io::{self, Write};
use std::rc::Rc;

pub fn case(c: &mut Case) -> Result<(), String> {
    match c.r.below(3) {
        0 => rc::case(c),
        1 => arc::case(c),
        _ => boxed::case(c),
    }
}

/// A shared output; sometimes takes only some bytes of what is written at once.
#[derive(Clone)]
struct Out { to: Rc<RefCell<Vec<u8>>>, most: usize }
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.most);
        self.to.borrow_mut().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

const BITS: &[&str] = &["\"", "\\", "\n", "a", "]", "[", "}", "{", ";", "->", " ", "\\\"", "\u{301}", "\u{7f}", "é", "\t", "\r", "\u{202e}", "0", "#0.0", "=", "<", ">", "//", "/*", "#", "\0", "digraph", "'", "{:?}", "{{", ","];
fn hostile(r: &mut Rng) -> String {
    (0..r.below(7)).map(|_| BITS[r.below(BITS.len())]).collect()
}
fn esc1(s: &str) -> String { format!("{:?}", s) }

/// The places of `names`, one after the other, in `s`.
fn in_order(s: &str, names: &[&str]) -> bool {
    let mut at = 0;
    for n in names {
        match s[at..].find(n) { Some(i) => at += i + n.len(), None => return false }
    }
    true
}
/// A number given as `#generation.sequence` or just `#generation`, not part of a longer one.
fn has_number(s: &str, n: &str) -> bool {
    s.match_indices(n).any(|(i, _)| {
        let b = s[..i].chars().last();
        let a = s[i + n.len()..].chars().next();
        !b.map_or(false, |c| c.is_ascii_digit()) && !a.map_or(false, |c| c.is_ascii_digit())
    })
}

#[derive(Debug, Clone, PartialEq)]
enum Tok { Id(String), Str(String), Arrow, P(char) }
/// The tokens of a text in DOT format.
fn lex(s: &str) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = s.chars().collect();
    let (mut i, mut v) = (0, vec![]);
    while i < c.len() {
        if c[i].is_whitespace() { i += 1 }
        // comments
        else if c[i] == '/' && c.get(i + 1) == Some(&'/') || c[i] == '#' && (i == 0 || c[i - 1] == '\n') {
            while i < c.len() && c[i] != '\n' { i += 1 }
        } else if c[i] == '/' && c.get(i + 1) == Some(&'*') {
            i += 2;
            while i < c.len() && !(c[i - 1] == '*' && c[i] == '/') { i += 1 }
            if i >= c.len() { return Err("a comment does not end".into()) }
            i += 1;
        }
        else if c[i] == '"' {
            let mut t = String::new();
            i += 1;
            loop {
                match c.get(i) {
                    None => return Err("a quoted text does not end".into()),
                    Some('"') => break,
                    Some('\\') if i + 1 < c.len() => {
                        if c[i + 1] != '"' { t.push('\\') }
                        t.push(c[i + 1]);
                        i += 2
                    }
                    Some(x) => { t.push(*x); i += 1 }
                }
            }
            i += 1;
            v.push(Tok::Str(t));
        } else if c[i].is_alphanumeric() || c[i] == '_' {
            let mut t = String::new();
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || (c[i] == '.' && t.chars().all(|c| c.is_ascii_digit()))) { t.push(c[i]); i += 1 }
            v.push(Tok::Id(t));
        } else if c[i] == '-' && c.get(i + 1) == Some(&'>') { i += 2; v.push(Tok::Arrow) }
        else if "{}[]=;,".contains(c[i]) { v.push(Tok::P(c[i])); i += 1 }
        else { return Err(format!("unexpected {:?}", c[i])) }
    }
    Ok(v)
}
#[derive(Debug, Clone)]
enum Stmt { Node(String, BTreeMap<String, String>), Edge(String, String) }
/// The statements of a directed graph in DOT format.
fn parse(s: &str) -> Result<Vec<Stmt>, String> {
    let t = lex(s)?;
    let mut i = 0;
    let word = |t: &Option<&Tok>, w: &str| matches!(t, Some(Tok::Id(x)) if x.to_lowercase() == w);
    let id = |t: Option<&Tok>| match t { Some(Tok::Id(x)) | Some(Tok::Str(x)) => Some(x.clone()), _ => None };
    if word(&t.get(i), "strict") { i += 1 }
    if !word(&t.get(i), "digraph") { return Err("no digraph".into()) }
    i += 1;
    if id(t.get(i)).is_some() { i += 1 }
    if t.get(i) != Some(&Tok::P('{')) { return Err("no {".into()) }
    i += 1;
    let mut v = vec![];
    loop {
        if t.get(i) == Some(&Tok::P('}')) { i += 1; break }
        let quoted = matches!(t.get(i), Some(Tok::Str(_)));
        let a = match id(t.get(i)) { Some(a) => a, None => return Err(format!("no statement starts with {:?}", t.get(i))) };
        i += 1;
        let mut path = vec![a.clone()];
        let mut attrs = BTreeMap::new();
        if t.get(i) == Some(&Tok::P('=')) {
            i += 1;
            if id(t.get(i)).is_none() { return Err("no value".into()) }
            i += 1;
            path.clear();
        } else {
            while t.get(i) == Some(&Tok::Arrow) {
                i += 1;
                match id(t.get(i)) { Some(b) => path.push(b), None => return Err(format!("an edge to {:?}", t.get(i))) }
                i += 1;
            }
            while t.get(i) == Some(&Tok::P('[')) {
                i += 1;
                while t.get(i) != Some(&Tok::P(']')) {
                    let k = match id(t.get(i)) { Some(k) => k, None => return Err(format!("{:?} among attributes", t.get(i))) };
                    i += 1;
                    if t.get(i) != Some(&Tok::P('=')) { return Err(format!("{:?} after attribute {:?}", t.get(i), k)) }
                    i += 1;
                    match id(t.get(i)) { Some(x) => attrs.insert(k, x), None => return Err(format!("{:?} as value of attribute {:?}", t.get(i), k)) };
                    i += 1;
                    if matches!(t.get(i), Some(Tok::P(';')) | Some(Tok::P(','))) { i += 1 }
                }
                i += 1;
            }
        }
        if t.get(i) == Some(&Tok::P(';')) { i += 1 }
        let kw = !quoted && ["graph", "node", "edge"].contains(&a.to_lowercase().as_str());
        match path.len() {
            0 => {}
            1 => if !kw { v.push(Stmt::Node(a, attrs)) },
            _ => for w in path.windows(2) { v.push(Stmt::Edge(w[0].clone(), w[1].clone())) },
        }
    }
    if i < t.len() { return Err(format!("{:?} after the end of the graph", t[i])) }
    Ok(v)
}

macro_rules! docs {
    ($m:ident) => {
        mod $m {
            use super::*;
            use daab::$m as dm;
            type C = dm::CanType;
            type BC = dm::BuilderCan;

            pub struct Tx(String);
            impl fmt::Debug for Tx { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0) } }
            /// A builder with any debug text.
            #[derive(Debug)]
            pub struct Nice(#[allow(dead_code)] u32);
            pub struct Wild<const N: char>(String);
            impl<const N: char> fmt::Debug for Wild<N> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0) } }
            impl dm::Builder for Nice {
                type Artifact = Tx; type DynState = (); type Err = daab::Never;
                fn build(&self, _: &mut dm::Resolver) -> Result<dm::BinType<Tx>, daab::Never> { unreachable!() }
                fn init_dyn_state(&self) {}
            }
            impl<const N: char> dm::Builder for Wild<N> {
                type Artifact = Tx; type DynState = (); type Err = daab::Never;
                fn build(&self, _: &mut dm::Resolver) -> Result<dm::BinType<Tx>, daab::Never> { unreachable!() }
                fn init_dyn_state(&self) {}
            }

            struct Bh { h: BuilderHandle<BC>, ty: &'static str, dbg: String }
            fn bh<B: dm::Builder>(b: B) -> Bh where BC: daab::canning::CanSized<B, Bin = dm::BuilderBinType<B>>, B: Ms {
                let (ty, dbg) = (std::any::type_name::<B>(), format!("{:#?}", b));
                Bh { h: BuilderHandle::new(&dm::Blueprint::new(b)), ty, dbg }
            }
            trait Ms: Send + Sync {}
            impl<T: ?Sized + Send + Sync> Ms for T {}
            struct Ah { h: ArtifactHandle<C>, ty: &'static str, dbg: String, at: String }
            fn ah<T: fmt::Debug + Ms + 'static>(t: T) -> Ah {
                let (ty, dbg) = (std::any::type_name::<T>(), format!("{:#?}", t));
                let b = dm::BinType::new(t);
                let at = format!("{:p}", &*b as *const T);
                Ah { h: ArtifactHandle::<C>::new::<T>(b), ty, dbg, at }
            }
            fn art(r: &mut Rng) -> Ah {
                match r.below(5) {
                    0 => ah(()),
                    1 => ah(Some(vec![r.below(9)])),
                    2 => ah(hostile(r)),
                    3 => ah(Wild::<'"'>(hostile(r))),
                    _ => ah(Tx(hostile(r))),
                }
            }

            pub fn case(c: &mut Case) -> Result<(), String> {
                let mut r = c.r.clone();
                let bs: Vec<Bh> = (0..1 + r.below(4)).map(|_| match r.below(6) {
                    0 => bh(Nice(3)),
                    1 => bh(Wild::<'"'>(hostile(&mut r))),
                    2 => bh(Wild::<'\\'>(hostile(&mut r))),
                    3 => bh(Wild::<'\n'>(hostile(&mut r))),
                    4 => bh(Wild::<'\''>(hostile(&mut r))),
                    _ => bh(Wild::<'x'>(hostile(&mut r))),
                }).collect();
                c.r = r;
                c.say(format!("{}: {}", stringify!($m), bs.iter().enumerate().map(|(i, b)| format!("#{}={} {}", i, b.ty, esc1(&b.dbg))).collect::<Vec<_>>().join(" ")));
                if c.r.chance(1, 2) { textual(c, &bs) } else { graph(c, &bs) }
            }

            fn textual(c: &mut Case, bs: &[Bh]) -> Result<(), String> {
                let o = TextualDocOptions {
                    show_builder_values: c.r.chance(1, 2),
                    show_artifact_values: c.r.chance(1, 2),
                    show_addresses: c.r.chance(1, 2),
                    tynm_m_n: if c.r.chance(1, 2) { None } else { Some((0, 0)) },
                };
                c.say(format!("textual doctor with {:?}", o));
                let out = Out { to: Default::default(), most: if c.r.chance(1, 2) { 1 << 30 } else { 1 + c.r.below(5) } };
                let mut doc = TextualDoc::new(o, out.clone());
                let name = |b: &Bh| if o.show_builder_values { b.dbg.clone() } else { b.ty.to_string() };
                let (mut g, mut s) = (0u64, 0u64);
                let mut keep = vec![];
                for _ in 0..1 + c.r.below(14) {
                    let at = out.to.borrow().len();
                    c.check(at == 0 || out.to.borrow()[at - 1] == b'\n', || "the record before does not end its line".into())?;
                    let i = c.r.below(bs.len());
                    let id = format!("{:p}", bs[i].h.id());
                    let mut names: Vec<String> = vec![];
                    let mut number = None;
                    match c.r.below(8) {
                        0..=2 => {
                            let j = c.r.below(bs.len());
                            c.say(format!("resolve #{} -> #{}", i, j));
                            Doctor::<C, BC>::resolve(&mut doc, &bs[i].h, &bs[j].h);
                            if o.show_addresses { names.push(id) }
                            names.push(name(&bs[i]));
                            if o.show_addresses { names.push(format!("{:p}", bs[j].h.id())) }
                            names.push(name(&bs[j]));
                        }
                        3..=5 => {
                            let a = art(&mut c.r);
                            c.say(format!("build #{} => {} {}", i, a.ty, esc1(&a.dbg)));
                            Doctor::<C, BC>::build(&mut doc, &bs[i].h, &a.h);
                            number = Some(format!("{}.{}", g, s));
                            s += 1;
                            if o.show_addresses { names.push(id) }
                            names.push(name(&bs[i]));
                            if o.show_addresses { names.push(a.at.clone()) }
                            names.push(if o.show_artifact_values { a.dbg.clone() } else { a.ty.to_string() });
                            if c.r.chance(1, 2) { keep.push(a) }
                        }
                        6 => {
                            c.say("clear");
                            Doctor::<C, BC>::clear(&mut doc);
                            number = Some(format!("{}", g));
                            g += 1;
                            s = 0;
                        }
                        _ => {
                            c.say(format!("invalidate #{}", i));
                            Doctor::<C, BC>::invalidate(&mut doc, &bs[i].h);
                            number = Some(format!("{}", g));
                            g += 1;
                            s = 0;
                            if o.show_addresses { names.push(id) }
                            names.push(name(&bs[i]));
                        }
                    }
                    let rec = out.to.borrow()[at..].to_vec();
                    let rec = match String::from_utf8(rec) { Ok(r) => r, Err(_) => return Err("a record is not text".into()) };
                    c.say(format!("   writes {:?}", rec));
                    c.check(rec.ends_with('\n'), || format!("the record {:?} does not end its line", rec))?;
                    let lines: usize = names.iter().map(|n| n.matches('\n').count()).sum::<usize>() + 1;
                    c.check(rec.matches('\n').count() == lines, || format!("{:?} has {} lines instead of {}", rec, rec.matches('\n').count(), lines))?;
                    let ns: Vec<&str> = names.iter().map(|n| n.as_str()).collect();
                    c.check(in_order(&rec, &ns), || format!("{:?} does not name {:?}", rec, ns))?;
                    if let Some(n) = number {
                        c.check(has_number(&rec, &n), || format!("{:?} does not carry the number {}", rec, n))?;
                    }
                }
                if c.r.chance(1, 2) {
                    let n = out.to.borrow().len();
                    let w = doc.into_inner();
                    c.check(Rc::ptr_eq(&w.to, &out.to) && w.to.borrow().len() == n, || "dismantling the doctor writes something".into())?;
                }
                Ok(())
            }

            fn graph(c: &mut Case, bs: &[Bh]) -> Result<(), String> {
                let o = VisgraphDocOptions { show_builder_values: c.r.chance(1, 2), show_artifact_values: c.r.chance(1, 2) };
                c.say(format!("graph doctor with {:?}", o));
                let out = Out { to: Default::default(), most: if c.r.chance(1, 2) { 1 << 30 } else { 1 + c.r.below(5) } };
                let mut doc = VisgraphDoc::new(o, out.clone());
                let mut what: Vec<(Option<(usize, usize)>, Option<usize>)> = vec![];
                let mut keep = vec![];
                let mut upto = vec![];
                for _ in 0..c.r.below(10) {
                    let i = c.r.below(bs.len());
                    match c.r.below(8) {
                        0..=2 => {
                            let j = c.r.below(bs.len());
                            c.say(format!("resolve #{} -> #{}", i, j));
                            Doctor::<C, BC>::resolve(&mut doc, &bs[i].h, &bs[j].h);
                            what.push((Some((i, j)), None));
                        }
                        3..=5 => {
                            let a = art(&mut c.r);
                            c.say(format!("build #{} => {} {}", i, a.ty, esc1(&a.dbg)));
                            Doctor::<C, BC>::build(&mut doc, &bs[i].h, &a.h);
                            what.push((None, Some(i)));
                            if c.r.chance(1, 2) { keep.push(a) }
                        }
                        6 => {
                            c.say("clear");
                            Doctor::<C, BC>::clear(&mut doc);
                            what.push((None, None));
                        }
                        _ => {
                            c.say(format!("invalidate #{}", i));
                            Doctor::<C, BC>::invalidate(&mut doc, &bs[i].h);
                            what.push((None, None));
                        }
                    }
                    upto.push(out.to.borrow().len());
                }
                if c.r.chance(1, 2) {
                    c.say("into_inner");
                    let w = doc.into_inner();
                    c.check(Rc::ptr_eq(&w.to, &out.to), || "another output comes back".into())?;
                } else {
                    c.say("drop");
                    drop(doc);
                }
                let text = String::from_utf8(out.to.borrow().clone()).map_err(|_| "the output is not text".to_string())?;
                c.say(format!("   wrote {:?}", text));
                let all = parse(&text).map_err(|e| format!("no well-formed graph: {}", e))?;
                // what each event added
                let (mut from, mut names, mut arts): (usize, BTreeMap<usize, String>, BTreeSet<String>) = (0, BTreeMap::new(), BTreeSet::new());
                for (k, (res, bld)) in what.iter().enumerate() {
                    let part = parse(&format!("{}}}", &text[..upto[k]])).map_err(|e| format!("no well-formed graph after event {}: {}", k, e))?;
                    let new = &part[from.min(part.len())..];
                    from = part.len();
                    let edges: Vec<_> = new.iter().filter_map(|s| if let Stmt::Edge(a, b) = s { Some((a.clone(), b.clone())) } else { None }).collect();
                    let want = (res.is_some() || bld.is_some()) as usize;
                    c.check(edges.len() == want, || format!("event {} adds the edges {:?}", k, edges))?;
                    let mut known = vec![];
                    if let Some((i, j)) = res {
                        known.push((*i, edges[0].0.clone()));
                        known.push((*j, edges[0].1.clone()));
                    }
                    if let Some(i) = bld {
                        known.push((*i, edges[0].0.clone()));
                        let a = edges[0].1.clone();
                        c.check(arts.insert(a.clone()), || format!("event {}: node {:?} is used for two builds", k, a))?;
                        c.check(new.iter().any(|s| matches!(s, Stmt::Node(n, _) if *n == a)), || format!("event {}: no node {:?}", k, a))?;
                    }
                    for (i, n) in known {
                        let e = names.entry(i).or_insert(n.clone());
                        c.check(*e == n, || format!("builder #{} is node {:?} and node {:?}", i, e, n))?;
                    }
                }
                c.check(all.len() == from, || "the end of the graph adds something".into())?;
                let distinct: BTreeSet<_> = names.values().collect();
                c.check(distinct.len() == names.len(), || format!("two builders share a node: {:?}", names))?;
                c.check(names.values().all(|n| !arts.contains(n)), || "a builder and a build share a node".into())
            }
        }
    };
}

docs!(rc);
docs!(arc);
docs!(boxed);
