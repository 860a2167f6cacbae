//! The contract files: raw specification text and contracts for functions of the extracted code.
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Clone, Debug)]
pub struct Clause {
    pub tags: String,
    pub text: Vec<String>,
}

#[derive(Clone, Debug, Default)]
pub struct FnSpec {
    pub key: String,
    pub params: Vec<String>,
    pub ret: String,
    pub attrs: Vec<String>,
    pub requires: Vec<Clause>,
    pub ensures: Vec<Clause>,
    pub decreases: Vec<Clause>,
    /// ghost text: "entry", "loop0.begin" ...
    pub ghost: BTreeMap<String, Vec<Clause>>,
    /// loop number -> (kind, clauses): kinds "inv", "invx" (except break), "ens", "dec"
    pub loops: BTreeMap<usize, BTreeMap<String, Vec<Clause>>>,
    pub trusted: bool,
    /// what holds whenever the function panics (a documented panic)
    pub maypanic: Vec<Clause>,
    pub origin: String,
}

#[derive(Default, Debug)]
pub struct Spec {
    /// type parameters to be replaced by an opaque type: parameter, type, the trait of its objects, types that have it, their number of other parameters
    pub erase: Vec<Vec<String>>,
    pub fns: HashMap<String, FnSpec>,
    pub raw: Vec<(String, String)>,
    pub extra: HashMap<String, Vec<Clause>>,
    pub attrs: HashMap<String, Vec<String>>,
    pub drop: HashMap<String, String>,
    pub boxany: HashSet<String>,
    pub inline_ok: HashSet<String>,
    /// file -> module
    pub modules: HashMap<String, String>,
    /// texts are modelled: formatting is expanded
    pub texts: bool,
}

fn parse_clauses(lines: &[String]) -> Vec<Clause> {
    let mut out: Vec<Clause> = vec![];
    for l in lines {
        let t = l.trim_start();
        if t.is_empty() {
            continue;
        }
        let starts = l.starts_with('[');
        if starts {
            let e = l.find(']').unwrap();
            out.push(Clause { tags: l[1..e].to_string(), text: vec![l[e + 1..].trim().to_string()] });
        } else if l.starts_with(' ') || l.starts_with('\t') {
            if let Some(c) = out.last_mut() {
                c.text.push(l.trim_end().to_string());
            } else {
                out.push(Clause { tags: String::new(), text: vec![l.trim_end().to_string()] });
            }
        } else {
            out.push(Clause { tags: String::new(), text: vec![l.trim_end().to_string()] });
        }
    }
    out
}

pub fn parse(files: &[(String, String)], features: &HashSet<String>) -> Spec {
    let mut sp = Spec::default();
    for (fname, text) in files {
        // conditional text
        let mut lines: Vec<(usize, String)> = vec![];
        let mut stack: Vec<bool> = vec![];
        for (no, l) in text.lines().enumerate() {
            let t = l.trim();
            if let Some(r) = t.strip_prefix("//@ if ") {
                stack.push(features.contains(r.trim()));
                continue;
            }
            if let Some(r) = t.strip_prefix("//@ ifnot ") {
                stack.push(!features.contains(r.trim()));
                continue;
            }
            if t == "//@ else" {
                let b = stack.pop().unwrap();
                stack.push(!b);
                continue;
            }
            if t == "//@ endif" {
                stack.pop();
                continue;
            }
            if stack.iter().all(|b| *b) {
                lines.push((no + 1, l.to_string()));
            }
        }
        enum Sec {
            None,
            Raw,
            Extra(String),
            Fn(String),
        }
        let mut sec = Sec::None;
        let mut cur: Option<FnSpec> = None;
        let mut buf: Vec<String> = vec![];
        macro_rules! flush {
            () => {
                match &sec {
                    Sec::None => {}
                    Sec::Raw => sp.raw.push((fname.clone(), buf.join("\n"))),
                    Sec::Extra(k) => sp.extra.entry(k.clone()).or_default().extend(parse_clauses(&buf)),
                    Sec::Fn(s) => {
                        let f = cur.as_mut().unwrap();
                        let c = parse_clauses(&buf);
                        match s.as_str() {
                            "" => {}
                            "requires" => f.requires.extend(c),
                            "ensures" => f.ensures.extend(c),
                            "decreases" => f.decreases.extend(c),
                            "maypanic" => f.maypanic.extend(c),
                            s if s.starts_with("at ") => f.ghost.entry(s[3..].trim().to_string()).or_default().extend(c),
                            s if s.starts_with("loop ") => {
                                let p: Vec<&str> = s.split_whitespace().collect();
                                let k: usize = p[1].parse().unwrap();
                                match p[2] {
                                    "inv" | "invx" | "dec" | "ens" => {
                                        f.loops.entry(k).or_default().entry(p[2].to_string()).or_default().extend(c)
                                    }
                                    w => f.ghost.entry(format!("loop{}.{}", k, w)).or_default().extend(c),
                                }
                            }
                            s => panic!("unknown section {}", s),
                        }
                    }
                }
                buf.clear();
            };
        }
        for (_no, l) in lines {
            let t = l.trim();
            if let Some(r) = t.strip_prefix("//@ ") {
                let r = r.trim();
                if r == "raw" {
                    flush!();
                    if let Some(f) = cur.take() {
                        sp.fns.insert(f.key.clone(), f);
                    }
                    sec = Sec::Raw;
                } else if let Some(k) = r.strip_prefix("extra ") {
                    flush!();
                    if let Some(f) = cur.take() {
                        sp.fns.insert(f.key.clone(), f);
                    }
                    sec = Sec::Extra(k.trim().to_string());
                } else if let Some(k) = r.strip_prefix("attrs ") {
                    let (k, v) = k.split_once(" #").unwrap();
                    sp.attrs.entry(k.trim().to_string()).or_default().push(format!("#{}", v));
                } else if let Some(k) = r.strip_prefix("drop ") {
                    let (k, v) = k.split_once(" -- ").unwrap_or((k, ""));
                    sp.drop.insert(k.trim().to_string(), v.trim().to_string());
                } else if let Some(k) = r.strip_prefix("boxany ") {
                    sp.boxany.insert(k.trim().to_string());
                } else if let Some(k) = r.strip_prefix("module ") {
                    let (f, m) = k.trim().split_once(' ').unwrap();
                    sp.modules.insert(f.to_string(), m.to_string());
                } else if r == "texts" {
                    sp.texts = true;
                } else if let Some(k) = r.strip_prefix("erase ") {
                    sp.erase.push(k.split_whitespace().map(|x| x.to_string()).collect());
                } else if let Some(k) = r.strip_prefix("fn ") {
                    flush!();
                    if let Some(f) = cur.take() {
                        sp.fns.insert(f.key.clone(), f);
                    }
                    let (k, rest) = k.split_once('(').unwrap();
                    let (ps, rest) = rest.split_once(')').unwrap();
                    let params = ps.split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
                    let ret = rest.trim().strip_prefix("->").map(|s| s.trim().to_string()).unwrap_or("ret".into());
                    cur = Some(FnSpec { key: k.trim().into(), params, ret, origin: fname.clone(), ..Default::default() });
                    sec = Sec::Fn(String::new());
                } else if let Some(a) = r.strip_prefix("attr ") {
                    cur.as_mut().unwrap().attrs.push(a.trim().to_string());
                } else if r == "trusted" {
                    cur.as_mut().unwrap().trusted = true;
                } else if matches!(sec, Sec::Fn(_)) {
                    flush!();
                    sec = Sec::Fn(r.to_string());
                } else {
                    panic!("{}: unexpected //@ {}", fname, r);
                }
            } else {
                buf.push(l);
            }
        }
        flush!();
        if let Some(f) = cur.take() {
            sp.fns.insert(f.key.clone(), f);
        }
    }
    sp
}
