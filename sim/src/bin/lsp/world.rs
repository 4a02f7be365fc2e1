//! Generated Ruby projects: a small structured language rendered to text, together with
//! what an independent reading of that text says a language server must know about it.

use crate::core::rng::Rng;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

/// File slot k owns the classes 2k and N<k>::C<2k+1>, the module M<k> and the constant K<k>.
pub const SLOTS: u8 = 7;
pub const NCLS: u8 = 2 * SLOTS;
pub const NMOD: u8 = SLOTS;
pub const NK: u8 = SLOTS;
pub const NMETH: u8 = 6;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Rf {
    Class(u8),
    Mod(u8),
    Konst(u8),
    Call(u8, u8),
    Local(u8, u8),
    SelfCall(u8),
    Str,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Def {
    pub name: u8,
    pub single: bool,
    pub body: Vec<Rf>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Item {
    Cls { id: u8, sup: bool, incl: Option<u8>, defs: Vec<Def> },
    Mod { id: u8, defs: Vec<Def> },
    Konst(u8),
    Top(Rf),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Src {
    pub slot: u8,
    pub pad: u8,
    pub items: Vec<Item>,
    pub broken: bool,
    /// lines of comment before and after everything else: most of a large file
    #[serde(default)]
    pub bulk: (u8, u8),
}
fn filler(w: &mut W, n: u8) {
    for i in 0..n {
        w.lines.push(format!("# {i} {}", "this line says nothing about the program ".repeat(3)));
    }
}

/// Fully qualified names of the pool.
pub fn cls_path(id: u8) -> String {
    if id % 2 == 1 { format!("N{}::C{id}", id / 2) } else { format!("C{id}") }
}
pub fn sup_of(id: u8) -> Option<u8> {
    match id {
        0 | 4 | 8 => None,
        1 => Some(0),
        2 => Some(1),
        x if x % 3 == 0 => Some(0),
        x => Some(x - 1),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Mk {
    /// the name in a class/module definition: fully qualified
    ClassDef(String),
    /// `K1 = ...`
    ConstDef(String),
    /// a reference to a constant: fully qualified name of what it must mean
    ConstRef(String),
    MethodDef(String, String),
    Call(String, String),
    LocalVar(String),
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Mark {
    pub line: u32,
    pub col: u32,
    pub len: u32,
    pub kind: Mk,
    /// column where the whole definition starts (for definitions)
    pub decl_col: u32,
    /// for a qualified reference: the column of its first segment
    pub head_col: u32,
}

/// A symbol as documentSymbol must show it.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Sym {
    pub name: String,
    pub line: u32,
    pub kids: Vec<Sym>,
}

pub struct Rendered {
    pub text: String,
    pub marks: Vec<Mark>,
    pub syms: Vec<Sym>,
}

struct W {
    lines: Vec<String>,
    marks: Vec<Mark>,
}
impl W {
    fn ln(&self) -> u32 {
        self.lines.len() as u32
    }
    fn mark(&mut self, col: usize, len: usize, kind: Mk, decl_col: usize, head_col: usize) {
        let line = self.ln();
        self.marks.push(Mark { line, col: col as u32, len: len as u32, kind, decl_col: decl_col as u32, head_col: head_col as u32 });
    }
    fn cref(&mut self, ind: usize, prefix: &str, id: u8) -> String {
        let p = cls_path(id);
        let head = ind + prefix.len();
        if let Some((ns, n)) = p.split_once("::") {
            self.mark(head, ns.len(), Mk::ConstRef(ns.into()), 0, head);
            self.mark(head + ns.len() + 2, n.len(), Mk::ConstRef(p.clone()), 0, head);
        } else {
            self.mark(head, p.len(), Mk::ConstRef(p.clone()), 0, head);
        }
        p
    }
    fn rf(&mut self, ind: usize, r: &Rf, n: usize) {
        let pad = " ".repeat(ind);
        match r {
            Rf::Class(c) => {
                let p = self.cref(ind, "", *c);
                self.lines.push(format!("{pad}{p}"));
            }
            Rf::Mod(m) => {
                self.mark(ind, 2, Mk::ConstRef(format!("M{m}")), 0, ind);
                self.lines.push(format!("{pad}M{m}"));
            }
            Rf::Konst(k) => {
                self.mark(ind, 2, Mk::ConstRef(format!("K{k}")), 0, ind);
                self.lines.push(format!("{pad}K{k}"));
            }
            Rf::Call(c, m) => {
                let p = self.cref(ind, "", *c);
                self.mark(ind + p.len() + 5, 2, Mk::Call(p.clone(), format!("m{m}")), 0, 0);
                self.lines.push(format!("{pad}{p}.new.m{m}"));
            }
            Rf::Local(c, m) => {
                let p = self.cref(ind, &format!("v{n} = "), *c);
                self.lines.push(format!("{pad}v{n} = {p}.new"));
                let vl = format!("v{n}").len();
                self.mark(ind, vl, Mk::LocalVar(format!("v{n}")), 0, 0);
                self.mark(ind + vl + 1, 2, Mk::Call(p, format!("m{m}")), 0, 0);
                self.lines.push(format!("{pad}v{n}.m{m}"));
            }
            Rf::SelfCall(m) => {
                self.mark(ind, 2, Mk::Call("self".into(), format!("m{m}")), 0, 0);
                self.lines.push(format!("{pad}m{m}"));
            }
            Rf::Str => self.lines.push(format!("{pad}\"s\".upcase")),
        }
    }
    fn defs(&mut self, ind: usize, owner: &str, defs: &[Def]) -> Vec<Sym> {
        let mut out = vec![];
        let pad = " ".repeat(ind);
        for d in defs {
            let pre = if d.single { "self." } else { "" };
            let name = format!("m{}", d.name);
            out.push(Sym { name: name.clone(), line: self.ln(), kids: vec![] });
            self.mark(ind + 4 + pre.len(), 2, Mk::MethodDef(format!("{owner}{}", if d.single { "." } else { "#" }), name.clone()), ind, 0);
            self.lines.push(format!("{pad}def {pre}{name}"));
            for (i, r) in d.body.iter().enumerate() {
                self.rf(ind + 2, r, i);
            }
            self.lines.push(format!("{pad}end"));
        }
        out
    }
}

impl Src {
    pub fn empty() -> Src {
        Src { slot: 0, pad: 0, items: vec![], broken: false, bulk: (0, 0) }
    }
    pub fn text(&self) -> String {
        self.render().text
    }
    pub fn render(&self) -> Rendered {
        let mut w = W { lines: vec![], marks: vec![] };
        let mut syms = vec![];
        // every opening of a class names the same superclass, as Ruby demands
        let mut sups: BTreeMap<u8, bool> = BTreeMap::new();
        for i in 0..self.pad {
            w.lines.push(format!("# pad {i}"));
        }
        filler(&mut w, self.bulk.0);
        for (n, it) in self.items.iter().enumerate() {
            match it {
                Item::Cls { id, sup, incl, defs } => {
                    let sup = sups.entry(*id).or_insert(*sup);
                    let full = cls_path(*id);
                    let nested = full.contains("::");
                    let ind = if nested { 2 } else { 0 };
                    let outer_line = w.ln();
                    if nested {
                        let ns = full.split("::").next().unwrap().to_string();
                        w.mark(7, ns.len(), Mk::ClassDef(ns.clone()), 0, 0);
                        w.lines.push(format!("module {ns}"));
                    }
                    let short = format!("C{id}");
                    let pad = " ".repeat(ind);
                    let mut s = format!("{pad}class {short}");
                    let line = w.ln();
                    w.mark(ind + 6, short.len(), Mk::ClassDef(full.clone()), ind, 0);
                    if *sup {
                        if let Some(p) = sup_of(*id) {
                            s.push_str(" < ");
                            let at = s.len();
                            let pp = w.cref(at, "", p);
                            s.push_str(&pp);
                        }
                    }
                    w.lines.push(s);
                    if let Some(m) = incl {
                        w.mark(ind + 10, 2, Mk::ConstRef(format!("M{m}")), 0, ind + 10);
                        w.lines.push(format!("{pad}  include M{m}"));
                    }
                    let kids = w.defs(ind + 2, &full, defs);
                    w.lines.push(format!("{pad}end"));
                    let sy = Sym { name: short, line, kids };
                    if nested {
                        w.lines.push("end".into());
                        syms.push(Sym { name: full.split("::").next().unwrap().into(), line: outer_line, kids: vec![sy] });
                    } else {
                        syms.push(sy);
                    }
                }
                Item::Mod { id, defs } => {
                    let line = w.ln();
                    w.mark(7, 2, Mk::ClassDef(format!("M{id}")), 0, 0);
                    w.lines.push(format!("module M{id}"));
                    let kids = w.defs(2, &format!("M{id}"), defs);
                    w.lines.push("end".into());
                    syms.push(Sym { name: format!("M{id}"), line, kids });
                }
                Item::Konst(k) => {
                    syms.push(Sym { name: format!("K{k}"), line: w.ln(), kids: vec![] });
                    w.mark(0, format!("K{k}").len(), Mk::ConstDef(format!("K{k}")), 0, 0);
                    w.lines.push(format!("K{k} = {n}"));
                }
                Item::Top(r) => w.rf(0, r, 90 + n),
            }
        }
        filler(&mut w, self.bulk.1);
        if self.broken {
            w.lines.push("def broken(".into());
        }
        let mut text = w.lines.join("\n");
        if !text.is_empty() {
            text.push('\n');
        }
        Rendered { text, marks: w.marks, syms }
    }

    pub fn gen(r: &mut Rng, slot: u8) -> Src {
        let n = r.range(1, 3);
        let items = (0..n).map(|_| gen_item(r, slot)).collect();
        Src { slot, pad: r.below(3) as u8, items, broken: false, bulk: if r.chance(1, 8) { ([2, 10, 80][r.below(3)], [2, 10, 80][r.below(3)]) } else { (0, 0) } }
    }
    /// an edit: a small change, or sometimes a rewrite
    pub fn mutate(&self, r: &mut Rng, allow_broken: bool) -> Src {
        let mut s = self.clone();
        s.broken = allow_broken && r.chance(1, 8);
        if s.bulk != (0, 0) || r.chance(1, 8) {
            // a change that keeps the length
            if r.chance(5, 6) && s.renumber(r) {
                return s;
            }
        }
        match r.below(10) {
            0 => s.pad = (s.pad + 1) % 5,
            1 | 2 => s.items.push(gen_item(r, s.slot)),
            3 | 4 if !s.items.is_empty() => {
                let i = r.below(s.items.len());
                s.items.remove(i);
            }
            5 | 6 if !s.items.is_empty() => {
                let i = r.below(s.items.len());
                match &mut s.items[i] {
                    Item::Cls { defs, incl, sup, .. } => match r.below(5) {
                        0 => *incl = if incl.is_some() { None } else { Some(r.below(NMOD as usize) as u8) },
                        1 => *sup = !*sup,
                        2 if !defs.is_empty() => {
                            defs.pop();
                        }
                        _ => defs.push(gen_def(r)),
                    },
                    Item::Mod { defs, .. } => defs.push(gen_def(r)),
                    x => *x = gen_item(r, s.slot),
                }
            }
            7 if !s.items.is_empty() => {
                let i = r.below(s.items.len());
                s.items[i] = gen_item(r, s.slot);
            }
            8 => s.items.insert(0, Item::Top(gen_rf(r))),
            _ => {
                let (b, k) = (s.broken, s.bulk);
                s = Src::gen(r, s.slot);
                s.broken = b;
                s.bulk = k;
            }
        }
        s.items.truncate(5);
        s
    }
    /// change one digit of one name
    fn renumber(&mut self, r: &mut Rng) -> bool {
        fn rf(x: &mut Rf, r: &mut Rng) -> bool {
            match x {
                Rf::Class(c) if *c < 10 => *c = (*c + 1 + r.below(9) as u8) % 10,
                Rf::Mod(m) => *m = (*m + 1 + r.below(NMOD as usize - 1) as u8) % NMOD,
                Rf::Konst(k) => *k = (*k + 1 + r.below(NK as usize - 1) as u8) % NK,
                Rf::Call(_, m) | Rf::Local(_, m) | Rf::SelfCall(m) => *m = (*m + 1 + r.below(NMETH as usize - 1) as u8) % NMETH,
                _ => return false,
            }
            true
        }
        if self.items.is_empty() {
            return false;
        }
        let i = r.below(self.items.len());
        match &mut self.items[i] {
            Item::Top(x) => rf(x, r),
            Item::Konst(_) => false,
            Item::Cls { incl: Some(m), .. } if r.chance(1, 3) => {
                *m = (*m + 1) % NMOD;
                true
            }
            Item::Cls { defs, .. } | Item::Mod { defs, .. } => {
                if defs.is_empty() {
                    return false;
                }
                let j = r.below(defs.len());
                let d = &mut defs[j];
                if d.body.is_empty() || r.chance(1, 2) {
                    d.name = (d.name + 1 + r.below(NMETH as usize - 1) as u8) % NMETH;
                    true
                } else {
                    let k = r.below(d.body.len());
                    rf(&mut d.body[k], r)
                }
            }
        }
    }
}
fn gen_rf(r: &mut Rng) -> Rf {
    match r.below(8) {
        0 | 1 | 2 => Rf::Class(r.below(NCLS as usize) as u8),
        3 => Rf::Mod(r.below(NMOD as usize) as u8),
        4 => Rf::Konst(r.below(NK as usize) as u8),
        5 => Rf::Call(r.below(NCLS as usize) as u8, r.below(NMETH as usize) as u8),
        6 => Rf::Local(r.below(NCLS as usize) as u8, r.below(NMETH as usize) as u8),
        _ => {
            if r.chance(1, 2) {
                Rf::SelfCall(r.below(NMETH as usize) as u8)
            } else {
                Rf::Str
            }
        }
    }
}
fn gen_def(r: &mut Rng) -> Def {
    let n = r.range(0, 2);
    Def { name: r.below(NMETH as usize) as u8, single: r.chance(1, 5), body: (0..n).map(|_| gen_rf(r)).collect() }
}
fn gen_item(r: &mut Rng, slot: u8) -> Item {
    match r.below(8) {
        0 => Item::Konst(slot),
        1 => Item::Top(gen_rf(r)),
        2 => {
            let n = r.range(0, 2);
            Item::Mod { id: slot, defs: (0..n).map(|_| gen_def(r)).collect() }
        }
        _ => {
            let n = r.range(0, 2);
            Item::Cls {
                id: 2 * slot + r.below(2) as u8,
                sup: r.chance(2, 3),
                incl: if r.chance(1, 4) { Some(r.below(NMOD as usize) as u8) } else { None },
                defs: (0..n).map(|_| gen_def(r)).collect(),
            }
        }
    }
}

/// What the effective texts of one project say.
#[derive(Default, Debug)]
pub struct Facts {
    /// name -> (path, line, column of the declaration)
    pub defs: BTreeMap<String, BTreeSet<(String, u32, u32)>>,
    pub methods: BTreeMap<String, BTreeSet<(String, u32, u32)>>,
    /// (path, line, col, fq name)
    pub refs: BTreeSet<(String, u32, u32, String)>,
}
impl Facts {
    pub fn of<'a>(files: impl Iterator<Item = (&'a String, &'a Src)>) -> Facts {
        let mut f = Facts::default();
        for (p, s) in files {
            for m in s.render().marks {
                match m.kind {
                    Mk::ClassDef(n) | Mk::ConstDef(n) => {
                        f.defs.entry(n).or_default().insert((p.clone(), m.line, m.decl_col));
                    }
                    Mk::MethodDef(o, n) => {
                        f.methods.entry(format!("{o}{n}")).or_default().insert((p.clone(), m.line, m.decl_col));
                    }
                    Mk::ConstRef(n) => {
                        f.refs.insert((p.clone(), m.line, m.head_col, n));
                    }
                    _ => {}
                }
            }
        }
        f
    }
    pub fn defined(&self, n: &str) -> bool {
        self.defs.contains_key(n)
    }
}

pub const STUBS: &str = "class BasicObject\n  def initialize\n  end\n  def ==(o)\n  end\nend\nmodule Kernel\n  def puts(*a)\n  end\n  def require(a)\n  end\nend\nclass Object < BasicObject\n  include Kernel\n  def to_s\n  end\nend\nclass Module < Object\n  def include(*a)\n  end\n  def name\n  end\nend\nclass Class < Module\n  def new(*a)\n  end\nend\nclass Comparable\nend\nclass String\n  def upcase\n  end\nend\nclass Integer\n  def +(o)\n  end\nend\nclass NilClass\nend\nclass Array\nend\nclass Hash\nend\nclass Symbol\nend\nclass TrueClass\nend\nclass FalseClass\nend\n";

/// Words of Ruby in no order.
pub fn soup(r: &mut Rng) -> String {
    const W: &[&str] = &[
        "class", "module", "def", "end", "do", "{", "}", "(", ")", "[", "]", "|", "x", "y", "Q0", "Q1::Q2", "::", "Q3", "self", "@a", "@", "@@a", "@@", "$a", "$", "$-\u{e9}", ":a", "a:", "=", "+=", "||=", "&&=", "=>", "->", "<<", "<", "&.", ".", ",", ";", "\n", "\n", "\n", "\n", "if", "unless", "while", "case", "when", "in", "else", "elsif",
        "rescue", "ensure", "begin", "return", "yield", "super", "alias", "undef", "nil", "true", "1", "2.5", "'s'", "\"s", "\"#{", "%w[a b]", "/r/", "<<~E\n", "E\n", "*", "**", "&", "!", "?", "#", "# @param x [", "#: (", "private", "attr_accessor :a", "include", "extend", "define_method(:a)", "Struct.new(:a)", "class << self",
        "module_function", "require '", "require \u{e9}\"", "_1", "it", "...", "\u{1f600}", "\u{e9}", "\r\n", "BEGIN {", "__method__",
    ];
    let mut t = String::new();
    for _ in 0..r.range(1, 60) {
        t.push_str(W[r.below(W.len())]);
        if !r.chance(1, 6) {
            t.push(' ');
        }
    }
    t
}
