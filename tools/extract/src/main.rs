//! Mechanical extraction of /repo functions into a Verus file.
//!
//! usage: extract REPO CONTRACT.vc OUT.rs OUT.map.json
//!
//! The contract file is Verus text with `//@` directives. Everything that is not a
//! directive is copied to the output.  `//@ file`, `//@ struct|enum|trait|impl|freefn`
//! directives pull the *current* source text of the named items out of REPO and splice the
//! contracts (requires/ensures, loop invariants, proof blocks) into it.  The executable text
//! is copied byte for byte, apart from the rules below, each logged in the map file:
//!   R1 attributes and doc comments of items are dropped (derives re-stated by the contract file)
//!   R2 visibility of items, fields and methods is widened to `pub`
//!   R16 a one-arm macro_rules! macro is expanded textually into a function
//!   R3 `for (i, p) in E.enumerate()` -> counter variable
//!   R4 `E.map(|x| B).collect()` -> `for` loop pushing B into a fresh Vec
//!   R17 `E.filter(|p| B).collect()` / `E.cloned().filter(|p| B).collect()` -> `for` loop pushing (a clone of) each element for which B holds
//!   R27 (where the contract says `anyloop`) `E.any(|p| B)` -> `for` loop evaluating B for each element until it holds
//!   R5 replacements listed in the contract file (`//@ replace`), with a reason; `$1` in them stands for any expression, white space is ignored
//!   R6 items of an impl/trait not named in the contract file are left out
//!   R10 `let _ = E.map(|p| B);` / `E.map(|p| B);` / `E.map(|p| B)?;` / `E.map(|p| B).ok_or(K)?;` with unused result
//!      -> `if let` / `{ let p = E?; B; }` (Verus has no closures capturing `&mut`)
//!   R11 `V.extend(E.map(|p| B))` -> `while let` loop over the iterator pushing B
//!   R13 `for p in V` over a `&mut Vec` that is only read -> `for p in V.iter()`
//!   R15 (where the contract says `loop N gen`) `for p in E {B}` -> `let mut it = (E).into_iter(); while let Some(p) = it.next() {B}`
//!   R14 (where the contract says `floatassign`; primitive operands) `P op= E` -> `P = P op (E)` for a place P without calls
//!   R12 a local one-parameter `let mut f = |p| B;` is inlined at its calls
//!   R18 a pattern `&C(ref x, ..)` (or `&C`) is written `C(x, ..)`, which binds the same reference
//!   R19 `if c { ..; continue; } rest` in the body of a `for` -> `if c { ..; } else { rest }` (Verus has no `continue` in `for`)
//!   R20 `b"xyz"` -> `(&[120u8, 121u8, 122u8])`, with a proof block stating its elements
//!   R21 `match E { b"a" | b"b" => X, .., _ => Y }` -> `{ let m__ = E; if is_bytes(m__, b"a") || is_bytes(m__, b"b") { X } .. else { Y } }`
//!   R22 (where the contract says `strings`) text: `a + b` -> `cat(a, b)`, `"xyz"` in it -> `lit(b"xyz")`, `format!("{} {:e}", a, b)` -> the
//!      same chain, `.to_string()` -> `.show()`, `{:e}` -> `.show_exp()`, `.as_bytes()` -> `.octets()`, `.to_be_bytes()` -> `.be_octets()`
//!   R23 a product, sum or difference with a borrowed operand, `&a * b`, (or any where the contract says `opcalls`) is written as the call
//!      it stands for: `Mul::mul(&a, b)`
//!   R25 `for p in &mut V` -> `for p in V.iter_mut()` (std: the same iterator), there without `ref mut` in the pattern (one reference less)
//!   R24 (where the contract says `negate`; floats) `-E` -> `negate(E)`
//!   R26 (where the contract says `visitors NAMES`) a function NAME that calls its argument `f: &mut F`, `F: FnMut(&T)` (or `&mut dyn FnMut(&T)`) on
//!      values only is written as one that pushes (a copy of) each value to a `&mut Vec<T>`; `x.NAME(&mut |p| B);` -> `let mut v = Vec::new();
//!      x.NAME(&mut v); for p in v.iter() B`; `let mut f = |p| B; x.NAME(&mut f); y.NAME(&mut f);` likewise with one loop after the calls
//!      (a function that yields values through `&self` only cannot observe what B does in between)
//!   (contract text only: `t"xyz"` is written out as `seq![120u8, 121u8, 122u8]`)
//!   R9 a method may be renamed (several impls of one foreign trait merged into one type)
//!   R7 a method body may be dropped and its contract assumed (`//@ fn f trusted`)
//! Exit: 0 ok; 3 lost anchor (message on stderr); 2 usage/internal.

use std::collections::BTreeMap;
use std::fmt::Write as _;
use syn::spanned::Spanned;
use syn::visit::Visit;

struct LostSoft(String);
thread_local! { static SOFT: std::cell::Cell<bool> = std::cell::Cell::new(false); }
fn lost(msg: String) -> ! {
    if SOFT.with(|s| s.get()) {
        std::panic::panic_any(LostSoft(msg))
    }
    eprintln!("LOST-ANCHOR: {}", msg);
    std::process::exit(3)
}

#[derive(Default, Clone, Debug)]
struct LoopDir {
    over: Option<String>,
    gen: bool,
    iter: Option<String>,
    spec: String,
    start: String,
    end: String,
    before: String,
    after: String,
}
#[derive(Default, Clone, Debug)]
struct FnDir {
    name: String,
    trusted: bool,
    keep_default: bool, // trait fn: keep default body
    ret: Option<String>,
    attrs: String,
    spec: String,
    start: String,
    tail: String,
    tailwrap: String,
    loops: BTreeMap<usize, LoopDir>,
    replaces: Vec<(String, String, String)>,
    floatassign: bool,
    negate: bool,
    opcalls: bool,
    anyloop: bool,
    sigreplaces: Vec<(String, String, String)>,
    rename: Option<String>,
    anchors: Vec<(bool, String, String)>, // (after?, text, code)
    closures: BTreeMap<usize, (String, String)>, // closure index -> (ret decl, spec)
}
#[derive(Clone, Debug)]
enum Kind {
    Struct,
    Enum,
    Trait,
    Impl,
    FreeFn,
    Const,
}
#[derive(Clone, Debug)]
struct ItemDir {
    kind: Kind,
    sel: String,
    file: String,
    attrs: String,
    ghost: String,
    fns: Vec<FnDir>,
    replaces: Vec<(String, String, String)>,
    header: Option<String>,
    floatassign: bool,
    negate: bool,
    opcalls: bool,
    anyloop: bool,
    types: Vec<String>,
    out_name: Option<String>,
}
enum Piece {
    Text(String),
    Item(ItemDir),
}

fn parse_contract(src: &str) -> Vec<Piece> {
    let mut out = vec![];
    let mut text = String::new();
    let mut file = String::new();
    let lines: Vec<&str> = src.lines().collect();
    let mut i = 0;
    let dir = |l: &str| -> Option<String> {
        let t = l.trim_start();
        t.strip_prefix("//@").map(|s| s.trim().to_string())
    };
    // collects raw lines up to next directive
    fn block(lines: &[&str], i: &mut usize) -> String {
        let mut s = String::new();
        while *i < lines.len() && !lines[*i].trim_start().starts_with("//@") {
            s.push_str(lines[*i]);
            s.push('\n');
            *i += 1;
        }
        s
    }
    while i < lines.len() {
        let l = lines[i];
        let d = match dir(l) {
            None => {
                text.push_str(l);
                text.push('\n');
                i += 1;
                continue;
            }
            Some(d) => d,
        };
        i += 1;
        let (w, rest) = split1(&d);
        match w {
            "file" => file = rest.to_string(),
            "end" | "strings" | "visitors" => {}
            "struct" | "enum" | "trait" | "impl" | "freefn" | "const" => {
                if !text.is_empty() {
                    out.push(Piece::Text(std::mem::take(&mut text)));
                }
                let kind = match w {
                    "struct" => Kind::Struct,
                    "enum" => Kind::Enum,
                    "trait" => Kind::Trait,
                    "impl" => Kind::Impl,
                    "const" => Kind::Const,
                    _ => Kind::FreeFn,
                };
                let mut it = ItemDir {
                    kind: kind.clone(),
                    sel: rest.to_string(),
                    file: file.clone(),
                    attrs: String::new(),
                    ghost: String::new(),
                    fns: vec![],
                    replaces: vec![],
                    header: None,
                    floatassign: false,
                    negate: false,
                    opcalls: false,
                    anyloop: false,
                    types: vec![],
                    out_name: None,
                };
                if let Kind::FreeFn = kind {
                    let (n, t) = split1(rest);
                    let mut f = FnDir { name: n.to_string(), ..Default::default() };
                    f.trusted = t == "trusted";
                    it.sel = n.to_string();
                    it.fns.push(f);
                }
                // item body: until `//@ end item` / next top-level item directive
                loop {
                    let junk = block(&lines, &mut i);
                    if !junk.trim().is_empty() {
                        eprintln!("contract syntax: stray text in item {}: {}", it.sel, junk);
                        std::process::exit(2);
                    }
                    if i >= lines.len() {
                        eprintln!("contract syntax: item {} not closed", it.sel);
                        std::process::exit(2);
                    }
                    let d = dir(lines[i]).unwrap();
                    i += 1;
                    let (w, rest) = split1(&d);
                    match w {
                        "enditem" => {
                            if it.floatassign {
                                it.fns.iter_mut().for_each(|f| f.floatassign = true)
                            }
                            if it.anyloop {
                                it.fns.iter_mut().for_each(|f| f.anyloop = true)
                            }
                            if it.opcalls {
                                it.fns.iter_mut().for_each(|f| f.opcalls = true)
                            }
                            if it.negate {
                                it.fns.iter_mut().for_each(|f| f.negate = true)
                            }
                            break;
                        }
                        "attrs" => {
                            let b = block(&lines, &mut i);
                            it.attrs.push_str(&b)
                        }
                        "ghost" => {
                            let b = block(&lines, &mut i);
                            it.ghost.push_str(&b)
                        }
                        "header" => it.header = Some(rest.to_string()),
                        "type" => it.types.push(rest.to_string()),
                        "fn" => {
                            let mut ws = rest.split_whitespace();
                            let mut f = FnDir { name: ws.next().unwrap_or("").to_string(), ..Default::default() };
                            for m in ws {
                                match m {
                                    "trusted" => f.trusted = true,
                                    "default" => f.keep_default = true,
                                    _ => {
                                        eprintln!("contract syntax: fn modifier {}", m);
                                        std::process::exit(2)
                                    }
                                }
                            }
                            it.fns.push(f);
                        }
                        "floatassign" => match it.fns.last_mut() {
                            Some(f) => f.floatassign = true,
                            None => it.floatassign = true,
                        },
                        "anyloop" => match it.fns.last_mut() {
                            Some(f) => f.anyloop = true,
                            None => it.anyloop = true,
                        },
                        "opcalls" => match it.fns.last_mut() {
                            Some(f) => f.opcalls = true,
                            None => it.opcalls = true,
                        },
                        "negate" => match it.fns.last_mut() {
                            Some(f) => f.negate = true,
                            None => it.negate = true,
                        },
                        "replace" => {
                            // replace `old` => `new` ; reason
                            let r = parse_replace(rest);
                            if let Some(f) = it.fns.last_mut() {
                                f.replaces.push(r)
                            } else {
                                it.replaces.push(r)
                            }
                        }
                        _ => {
                            let f = match it.fns.last_mut() {
                                Some(f) => f,
                                None => {
                                    eprintln!("contract syntax: {} outside fn", w);
                                    std::process::exit(2)
                                }
                            };
                            match w {
                                "rename" => f.rename = Some(rest.to_string()),
                                "sigreplace" => f.sigreplaces.push(parse_replace(rest)),
                                "ret" => f.ret = Some(rest.to_string()),
                                "fattrs" => f.attrs = block(&lines, &mut i),
                                "spec" => f.spec = block(&lines, &mut i),
                                "start" => f.start = block(&lines, &mut i),
                                "tail" => f.tail = block(&lines, &mut i),
                                "tailwrap" => f.tailwrap = block(&lines, &mut i),
                                "loop" => {
                                    let mut ws = rest.split_whitespace();
                                    let n: usize = ws.next().unwrap().parse().unwrap();
                                    let what = ws.next().unwrap_or("inv").to_string();
                                    let e = f.loops.entry(n).or_default();
                                    match what.as_str() {
                                        "gen" => e.gen = true,
                                        "over" => e.over = Some(ws.collect::<Vec<_>>().join(" ")),
                                        "iter" => e.iter = Some(ws.next().unwrap().to_string()),
                                        "inv" => e.spec = block(&lines, &mut i),
                                        "start" => e.start = block(&lines, &mut i),
                                        "end" => e.end = block(&lines, &mut i),
                                        "before" => e.before = block(&lines, &mut i),
                                        "after" => e.after = block(&lines, &mut i),
                                        x => {
                                            eprintln!("contract syntax: loop {}", x);
                                            std::process::exit(2)
                                        }
                                    }
                                }
                                "closure" => {
                                    let (n, r) = split1(rest);
                                    let n: usize = n.parse().unwrap();
                                    let b = block(&lines, &mut i);
                                    f.closures.insert(n, (r.to_string(), b));
                                }
                                "after" | "before" => {
                                    let t = rest.trim().trim_matches('`').to_string();
                                    let b = block(&lines, &mut i);
                                    f.anchors.push((w == "after", t, b));
                                }
                                x => {
                                    eprintln!("contract syntax: directive {}", x);
                                    std::process::exit(2)
                                }
                            }
                        }
                    }
                }
                out.push(Piece::Item(it));
            }
            x => {
                eprintln!("contract syntax: directive {}", x);
                std::process::exit(2)
            }
        }
    }
    if !text.is_empty() {
        out.push(Piece::Text(text));
    }
    out
}
fn parse_replace(rest: &str) -> (String, String, String) {
    let parts: Vec<&str> = rest.split('`').collect();
    if parts.len() < 5 {
        eprintln!("contract syntax: replace {}", rest);
        std::process::exit(2)
    }
    (parts[1].to_string(), parts[3].to_string(), parts[4..].join("`").trim().trim_start_matches(';').trim().to_string())
}
fn split1(s: &str) -> (&str, &str) {
    match s.find(char::is_whitespace) {
        Some(p) => (&s[..p], s[p..].trim()),
        None => (s, ""),
    }
}
fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

struct Edits {
    list: Vec<(usize, usize, u32, String)>, // start,end,order,text
    n: u32,
}
impl Edits {
    fn new() -> Self {
        Edits { list: vec![], n: 0 }
    }
    fn ins(&mut self, at: usize, t: impl Into<String>) {
        self.n += 1;
        self.list.push((at, at, self.n, t.into()))
    }
    fn rep(&mut self, a: usize, b: usize, t: impl Into<String>) {
        self.n += 1;
        self.list.push((a, b, self.n, t.into()))
    }
    fn apply(mut self, src: &str, a: usize, b: usize) -> String {
        // insertions at a position come before replacements starting there
        self.list.sort_by_key(|e| (e.0, (e.1 > e.0) as u8, e.2));
        let mut out = String::new();
        let mut p = a;
        for (s, e, _, t) in self.list {
            if s < a || e > b {
                continue;
            }
            if s < p {
                lost(format!("overlapping edits near {:?}", &src[s..e.min(s + 40)]));
            }
            out.push_str(&src[p..s]);
            out.push_str(&t);
            p = e;
        }
        out.push_str(&src[p..b]);
        out
    }
}
fn rng(s: impl Spanned) -> (usize, usize) {
    let r = s.span().byte_range();
    (r.start, r.end)
}

enum LoopAst<'a> {
    For(&'a syn::ExprForLoop),
    While(&'a syn::ExprWhile),
    Loop(&'a syn::ExprLoop),
    FilterCollect(&'a syn::ExprMethodCall, &'a syn::ExprMethodCall, &'a syn::ExprClosure),
    MapCollect(&'a syn::ExprMethodCall, &'a syn::ExprMethodCall, &'a syn::ExprClosure),
    Any(&'a syn::ExprMethodCall, &'a syn::ExprClosure),
    ExtendMap(&'a syn::ExprMethodCall, &'a syn::ExprMethodCall, &'a syn::ExprClosure),
}
#[derive(Default)]
struct RefPats<'a>(Vec<(&'a syn::PatReference, Vec<&'a syn::PatIdent>)>);
impl<'a> Visit<'a> for RefPats<'a> {
    fn visit_pat_reference(&mut self, r: &'a syn::PatReference) {
        match &*r.pat {
            _ if r.mutability.is_some() => {}
            syn::Pat::TupleStruct(t) => {
                let subs: Vec<_> = t.elems.iter().filter_map(|e| match e { syn::Pat::Ident(i) if i.by_ref.is_some() && i.mutability.is_none() && i.subpat.is_none() => Some(i), _ => None }).collect();
                if t.elems.iter().all(|e| matches!(e, syn::Pat::Wild(_) | syn::Pat::Rest(_)) || matches!(e, syn::Pat::Ident(i) if i.by_ref.is_some() && i.mutability.is_none() && i.subpat.is_none())) {
                    self.0.push((r, subs));
                }
            }
            syn::Pat::Path(_) => self.0.push((r, vec![])),
            _ => {}
        }
    }
    fn visit_item(&mut self, _: &'a syn::Item) {}
}
/// products with a borrowed operand, outermost first
#[derive(Default)]
struct RefProducts<'a>(Vec<&'a syn::ExprBinary>, bool);
impl<'a> Visit<'a> for RefProducts<'a> {
    fn visit_expr_binary(&mut self, e: &'a syn::ExprBinary) {
        if matches!(e.op, syn::BinOp::Mul(_) | syn::BinOp::Add(_) | syn::BinOp::Sub(_)) && !matches!(*e.right, syn::Expr::Lit(_)) && (self.1 || matches!(*e.left, syn::Expr::Reference(_)) || matches!(*e.right, syn::Expr::Reference(_))) {
            self.0.push(e);
        }
        syn::visit::visit_expr_binary(self, e)
    }
    fn visit_item(&mut self, _: &'a syn::Item) {}
}
/// unary minus
#[derive(Default)]
struct Negations<'a>(Vec<&'a syn::ExprUnary>);
impl<'a> Visit<'a> for Negations<'a> {
    fn visit_expr_unary(&mut self, e: &'a syn::ExprUnary) {
        if matches!(e.op, syn::UnOp::Neg(_)) {
            self.0.push(e);
        }
        syn::visit::visit_expr_unary(self, e)
    }
    fn visit_item(&mut self, _: &'a syn::Item) {}
}
#[derive(Default)]
struct Finder<'a> {
    loops: Vec<(usize, LoopAst<'a>)>,
    closures: Vec<&'a syn::ExprClosure>,
    anyloop: bool,
}
impl<'a> Visit<'a> for Finder<'a> {
    fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) {
        self.loops.push((rng(e).0, LoopAst::For(e)));
        syn::visit::visit_expr_for_loop(self, e)
    }
    fn visit_expr_while(&mut self, e: &'a syn::ExprWhile) {
        self.loops.push((rng(e).0, LoopAst::While(e)));
        syn::visit::visit_expr_while(self, e)
    }
    fn visit_expr_loop(&mut self, e: &'a syn::ExprLoop) {
        self.loops.push((rng(e).0, LoopAst::Loop(e)));
        syn::visit::visit_expr_loop(self, e)
    }
    fn visit_expr_method_call(&mut self, e: &'a syn::ExprMethodCall) {
        if e.method == "collect" {
            if let syn::Expr::MethodCall(m) = &*e.receiver {
                if m.method == "filter" && m.args.len() == 1 {
                    if let syn::Expr::Closure(c) = &m.args[0] {
                        if c.inputs.len() == 1 {
                            self.loops.push((rng(e).0, LoopAst::FilterCollect(e, m, c)));
                            self.visit_expr(&m.receiver);
                            self.visit_expr(&c.body);
                            return;
                        }
                    }
                }
            }
        }
        if e.method == "collect" {
            if let syn::Expr::MethodCall(m) = &*e.receiver {
                if m.method == "map" && m.args.len() == 1 {
                    if let syn::Expr::Closure(c) = &m.args[0] {
                        if c.inputs.len() == 1 {
                            self.loops.push((rng(e).0, LoopAst::MapCollect(e, m, c)));
                            self.visit_expr(&m.receiver);
                            self.visit_expr(&c.body);
                            return;
                        }
                    }
                }
            }
        }
        if self.anyloop && e.method == "any" && e.args.len() == 1 {
            if let syn::Expr::Closure(c) = &e.args[0] {
                if c.inputs.len() == 1 {
                    self.loops.push((rng(e).0, LoopAst::Any(e, c)));
                    self.visit_expr(&e.receiver);
                    self.visit_expr(&c.body);
                    return;
                }
            }
        }
        if e.method == "extend" && e.args.len() == 1 {
            if let syn::Expr::MethodCall(m) = &e.args[0] {
                if m.method == "map" && m.args.len() == 1 {
                    if let syn::Expr::Closure(c) = &m.args[0] {
                        if c.inputs.len() == 1 {
                            self.loops.push((rng(e).0, LoopAst::ExtendMap(e, m, c)));
                            self.visit_expr(&m.receiver);
                            self.visit_expr(&c.body);
                            return;
                        }
                    }
                }
            }
        }
        syn::visit::visit_expr_method_call(self, e)
    }
    fn visit_expr_closure(&mut self, e: &'a syn::ExprClosure) {
        self.closures.push(e);
        syn::visit::visit_expr_closure(self, e)
    }
    fn visit_item(&mut self, _: &'a syn::Item) {}
}

struct Ctx<'a> {
    src: &'a str,
    rules: Vec<String>,
    soft: Vec<(String, String)>,
    scaf: BTreeMap<String, String>,
}

/// statements `if c { ..; continue; }` (without else) of a loop body: end of the if, range of `continue;`
fn skips_of(b: &syn::Block) -> Vec<(usize, usize, usize)> {
    let mut r = vec![];
    for s in &b.stmts {
        if let syn::Stmt::Expr(syn::Expr::If(i), _) = s {
            if i.else_branch.is_none() {
                if let Some(last @ syn::Stmt::Expr(syn::Expr::Continue(c), _)) = i.then_branch.stmts.last() {
                    if c.label.is_none() {
                        let (a, e) = rng(last);
                        r.push((rng(i).1, a, e));
                    }
                }
            }
        }
    }
    r
}

fn body_edits(cx: &mut Ctx, ed: &mut Edits, block: &syn::Block, d: &FnDir, label: &str) {
    let mut f = Finder { anyloop: d.anyloop, ..Default::default() };
    f.visit_block(block);
    f.loops.sort_by_key(|l| l.0);
    let nd = d.loops.keys().max().map(|x| x + 1).unwrap_or(0);
    if f.loops.len() != nd {
        lost(format!("{}: {} loops in source, contract annotates {}", label, f.loops.len(), nd));
    }
    for (k, (_, l)) in f.loops.iter().enumerate() {
        let ld = d.loops.get(&k).cloned().unwrap_or_default();
        match l {
            LoopAst::For(e) => {
                let loop_body = &e.body;
                let (a, b) = rng(e);
                let (ba, _) = rng(e.body.brace_token.span.open());
                let (bc, _) = rng(e.body.brace_token.span.close());
                let mut pre = ld.before.clone();
                let mut post = ld.after.clone();
                let mut bstart = ld.start.clone();
                let (pa, pb) = rng(&e.pat);
                if ld.gen {
                    let (ea, mut eb) = rng(&e.expr);
                    let mut pat = cx.src[pa..pb].to_string();
                    if let (syn::Expr::MethodCall(m), syn::Pat::Tuple(t)) = (&*e.expr, &*e.pat) {
                        if m.method == "enumerate" && m.args.is_empty() && t.elems.len() == 2 {
                            let (ia, ib) = rng(&t.elems[0]);
                            let (xa, xb) = rng(&t.elems[1]);
                            pre.push_str(&format!(" let mut enum__{}: usize = 0;", k));
                            bstart = format!(" let {} = enum__{}; enum__{} = enum__{} + 1; ", &cx.src[ia..ib], k, k, k) + &bstart;
                            pat = cx.src[xa..xb].to_string();
                            eb = rng(&m.receiver).1;
                            cx.rules.push(format!("R3 {}: enumerate() -> counter", label));
                        }
                    }
                    ed.rep(a, ea, format!("{{ {} let mut it__{} = (", pre, k));
                    ed.rep(eb, ba + 1, format!(").into_iter(); while let Some({}) = it__{}.next()\n{}\n{{ {} ", pat, k, ld.spec, bstart));
                    if !ld.end.is_empty() {
                        ed.ins(bc, format!("{}\n{}\n", semi_of(loop_body), ld.end));
                    }
                    ed.ins(b, format!(" {} }}", post));
                    cx.rules.push(format!("R15 {}: for -> while let over into_iter()", label));
                    continue;
                }
                let mut handled = false;
                let place = match &*e.expr {
                    syn::Expr::Reference(r) if r.mutability.is_some() && matches!(*r.expr, syn::Expr::Path(_) | syn::Expr::Field(_)) => Some(&*r.expr),
                    syn::Expr::MethodCall(m) if m.method == "iter_mut" && m.args.is_empty() && matches!(*m.receiver, syn::Expr::Path(_) | syn::Expr::Field(_)) => Some(&*m.receiver),
                    _ => None,
                };
                if let Some(v) = place {
                    if let syn::Expr::Reference(_) = &*e.expr {
                        let (va, vb) = rng(v);
                        let (ea, eb) = rng(&e.expr);
                        ed.rep(ea, va, "");
                        ed.rep(vb, eb, "");
                        ed.ins(vb, ".iter_mut()");
                        cx.rules.push(format!("R25 {}: `for p in &mut V` -> `for p in V.iter_mut()`", label));
                    }
                    if let syn::Pat::Ident(i) = &*e.pat {
                        if let (Some(r), true) = (&i.by_ref, i.subpat.is_none()) {
                            ed.rep(rng(r).0, rng(&i.ident).0, "");
                            cx.rules.push(format!("R25 {}: `for ref mut p in V.iter_mut()` -> `for p in V.iter_mut()`", label));
                        }
                    }
                }
                if let syn::Expr::MethodCall(m) = &*e.expr {
                    if m.method == "enumerate" && m.args.is_empty() {
                        if let syn::Pat::Tuple(t) = &*e.pat {
                            if t.elems.len() == 2 {
                                let (ia, ib) = rng(&t.elems[0]);
                                let (xa, xb) = rng(&t.elems[1]);
                                let idx = cx.src[ia..ib].to_string();
                                let x = cx.src[xa..xb].to_string();
                                pre.push_str(&format!("let mut enum__{}: usize = 0; ", k));
                                ed.rep(pa, pb, x);
                                let (_, rb) = rng(&m.receiver);
                                let (_, mb) = rng(m);
                                ed.rep(rb, mb, "");
                                bstart = format!(" let {} = enum__{}; enum__{} = enum__{} + 1; ", idx, k, k, k) + &bstart;
                                cx.rules.push(format!("R3 {}: enumerate() -> counter", label));
                                handled = true;
                            }
                        }
                    }
                }
                let _ = handled;
                if let Some(o) = &ld.over {
                    // only `for p in V` over a plain variable V, read through V.iter()
                    let (ea, eb) = rng(&e.expr);
                    let want = cx.src[ea..eb].to_string();
                    if format!("{}.iter()", want) != *o {
                        lost(format!("{}: loop {} iterates over `{}`", label, k, want));
                    }
                    let itn = ld.iter.clone().map(|x| format!("{}: ", x)).unwrap_or_default();
                    ed.rep(ea, eb, format!("{}{}", itn, o));
                    cx.rules.push(format!("R13 {}: `for p in {}` -> `for p in {}`", label, want, o));
                } else if let Some(itn) = &ld.iter {
                    ed.ins(rng(&e.expr).0, format!("{}: ", itn));
                }
                if !pre.is_empty() || !post.is_empty() {
                    ed.ins(a, format!("\n{} ", pre));
                    ed.ins(b, format!("\n{} ", post));
                }
                if !ld.spec.is_empty() {
                    ed.ins(ba, format!("\n{}\n", ld.spec));
                }
                if !bstart.is_empty() {
                    ed.ins(ba + 1, format!("\n{}\n", bstart));
                }
                let skips = skips_of(loop_body);
                for (if_end, ca, cb) in &skips {
                    ed.rep(*ca, *cb, "");
                    ed.ins(*if_end, " else {");
                    cx.rules.push(format!("R19 {}: `if c {{ continue; }} rest` -> `if c {{ }} else {{ rest }}`", label));
                }
                if !skips.is_empty() {
                    ed.ins(bc, " }".repeat(skips.len()));
                }
                if !ld.end.is_empty() {
                    ed.ins(bc, format!("{}\n{}\n", semi_of(loop_body), ld.end));
                }
            }
            LoopAst::While(_) | LoopAst::Loop(_) => {
                let (a, b, body) = match l {
                    LoopAst::While(e) => (rng(e).0, rng(e).1, &e.body),
                    LoopAst::Loop(e) => (rng(e).0, rng(e).1, &e.body),
                    _ => unreachable!(),
                };
                let (ba, _) = rng(body.brace_token.span.open());
                let (bc, _) = rng(body.brace_token.span.close());
                let loop_body = body;
                if !ld.before.is_empty() {
                    ed.ins(a, format!("\n{}\n", ld.before));
                }
                if !ld.after.is_empty() {
                    ed.ins(b, format!("\n{}\n", ld.after));
                }
                if !ld.spec.is_empty() {
                    ed.ins(ba, format!("\n{}\n", ld.spec));
                }
                if !ld.start.is_empty() {
                    ed.ins(ba + 1, format!("\n{}\n", ld.start));
                }
                if !ld.end.is_empty() {
                    ed.ins(bc, format!("{}\n{}\n", semi_of(loop_body), ld.end));
                }
            }
            LoopAst::ExtendMap(e, m, c) => {
                // V.extend(E.map(|p| B))  ->  { let mut it__k = E; while let Some(p) = it__k.next() { V.push(B); } }
                let (a, b) = rng(e);
                let (va, vb) = rng(&e.receiver);
                let v = cx.src[va..vb].to_string();
                let (ra, rb) = rng(&m.receiver);
                let (ca, cb) = rng(&*c.body);
                let (pa, pb) = rng(&c.inputs[0]);
                let pat = cx.src[pa..pb].to_string();
                ed.rep(a, ra, format!("{{ let mut it__{} = ", k));
                ed.rep(rb, ca, format!("; {} while let Some({}) = it__{}.next()\n{}\n{{ {} let elem__{} = ", ld.before, pat, k, ld.spec, ld.start, k));
                ed.rep(cb, b, format!("; {}.push(elem__{}); {} }} {} }}", v, k, ld.end, ld.after));
                cx.rules.push(format!("R11 {}: extend(map) -> loop", label));
            }
            LoopAst::FilterCollect(e, m, c) => {
                // E.filter(|p| B).collect()  /  E.cloned().filter(|p| B).collect()
                let (a, b) = rng(e);
                let mut src = &*m.receiver;
                let mut cl = "";
                if let syn::Expr::MethodCall(r) = src {
                    if r.method == "cloned" && r.args.is_empty() {
                        src = &*r.receiver;
                        cl = ".clone()";
                    }
                }
                let (_, rb) = rng(src);
                let (ca, cb) = rng(&*c.body);
                let (pa, pb) = rng(&c.inputs[0]);
                let pat = cx.src[pa..pb].to_string();
                let itn = ld.iter.clone().map(|x| format!("{}: ", x)).unwrap_or_default();
                ed.ins(a, format!("{{ {} let mut coll__{} = Vec::new(); for item__{} in {}", ld.before, k, k, itn));
                ed.rep(rb, ca, format!("\n{}\n{{ {} let elem__{} = item__{}{}; let keep__{} = {{ let {} = &elem__{}; ", ld.spec, ld.start, k, k, cl, k, pat, k));
                ed.rep(cb, b, format!(" }}; {} if keep__{} {{ coll__{}.push(elem__{}); }} }} {} coll__{} }}", ld.end, k, k, k, ld.after, k));
                cx.rules.push(format!("R17 {}: filter/collect -> loop", label));
            }
            LoopAst::Any(e, c) => {
                let (a, b) = rng(e);
                let (_, rb) = rng(&*e.receiver);
                let (ca, cb) = rng(&*c.body);
                let (pa, pb) = rng(&c.inputs[0]);
                let pat = cx.src[pa..pb].to_string();
                let itn = ld.iter.clone().map(|x| format!("{}: ", x)).unwrap_or_default();
                ed.ins(a, format!("{{ {} let mut any__{} = false; for {} in {}", ld.before, k, pat, itn));
                ed.rep(rb, ca, format!("\n{}\n{{ {} if !any__{} {{ any__{} = ", ld.spec, ld.start, k, k));
                ed.rep(cb, b, format!("; }} {} }} {} any__{} }}", ld.end, ld.after, k));
                cx.rules.push(format!("R27 {}: any -> loop", label));
            }
            LoopAst::MapCollect(e, m, c) => {
                let (a, b) = rng(e);
                let (_, rb) = rng(&m.receiver);
                let (ca, cb) = rng(&*c.body);
                let (pa, pb) = rng(&c.inputs[0]);
                let pat = cx.src[pa..pb].to_string();
                let itn = ld.iter.clone().map(|x| format!("{}: ", x)).unwrap_or_default();
                ed.ins(a, format!("{{ {} let mut coll__{} = Vec::new(); for {} in {}", ld.before, k, pat, itn));
                ed.rep(rb, ca, format!("\n{}\n{{ {} let elem__{} = ", ld.spec, ld.start, k));
                ed.rep(cb, b, format!("; coll__{}.push(elem__{}); {} }} {} coll__{} }}", k, k, ld.end, ld.after, k));
                cx.rules.push(format!("R4 {}: map/collect -> loop", label));
            }
        }
    }
    if d.floatassign {
        let mut v = Assigns::default();
        v.visit_block(block);
        for e in v.0 {
            let (la, lb) = rng(&*e.left);
            let (oa, ob) = rng(e.op);
            let place = cx.src[la..lb].to_string();
            let op = cx.src[oa..ob].trim_end_matches('=').to_string();
            let (_, rb) = rng(&*e.right);
            if place.contains('(') {
                lost(format!("{}: compound assignment to a computed place", label));
            }
            ed.rep(oa, ob, format!("= {} {} (", place, op));
            ed.ins(rb, ")");
            cx.rules.push(format!("R14 {}: `{} {}= E` -> `{} = {} {} (E)`", label, place, op, place, place, op));
        }
    }
    if d.negate {
        let mut v = Negations::default();
        v.visit_block(block);
        for e in v.0 {
            let (a, _) = rng(e.op);
            let (ea, eb) = rng(&*e.expr);
            ed.rep(a, ea, "negate(");
            ed.ins(eb, ")");
            cx.rules.push(format!("R24 {}: `-E` -> `negate(E)`", label));
        }
    }
    {
        let mut v = RefProducts(vec![], d.opcalls);
        v.visit_block(block);
        for e in v.0 {
            let (la, lb) = rng(&*e.left);
            let (ra, rb) = rng(&*e.right);
            ed.ins(la, match e.op { syn::BinOp::Add(_) => "Add::add(", syn::BinOp::Sub(_) => "Sub::sub(", _ => "Mul::mul(" });
            ed.rep(lb, ra, ", ");
            ed.ins(rb, ")");
            cx.rules.push(format!("R23 {}: operator on references -> call of the trait's method", label));
        }
    }
    {
        let mut v = RefPats::default();
        v.visit_block(block);
        for (r, subs) in v.0 {
            let (a, _) = rng(r);
            let (b, _) = rng(&*r.pat);
            ed.rep(a, b, "");
            for s in subs {
                let (a, _) = rng(s.by_ref);
                let (b, _) = rng(&s.ident);
                ed.rep(a, b, "");
            }
            cx.rules.push(format!("R18 {}: `&C(ref x)` -> `C(x)`", label));
        }
    }
    for (k, (ret, spec)) in &d.closures {
        let c = match f.closures.get(*k) {
            Some(c) => c,
            None => lost(format!("{}: closure {} not found", label, k)),
        };
        let (_, ob) = rng(c.or2_token);
        let (ca, cb) = rng(&*c.body);
        if matches!(c.output, syn::ReturnType::Default) {
            ed.ins(ob, format!(" -> ({}) {} {{ ", ret, spec));
            let _ = ca;
            ed.ins(cb, " }");
        } else {
            lost(format!("{}: closure {} has explicit return type", label, k));
        }
    }
    let (oa, _) = rng(block.brace_token.span.open());
    if !d.start.is_empty() {
        ed.ins(oa + 1, format!("\n{}\n", d.start));
    }
    if !d.tail.is_empty() || !d.tailwrap.is_empty() {
        let last = match block.stmts.last() {
            Some(s) => s,
            None => lost(format!("{}: empty body", label)),
        };
        let is_tail_expr = matches!(last, syn::Stmt::Expr(_, None));
        let (la, lb) = rng(last);
        let is_unit_loop = matches!(last, syn::Stmt::Expr(syn::Expr::ForLoop(_) | syn::Expr::While(_), None));
        if !d.tail.is_empty() {
            if is_tail_expr && !is_unit_loop {
                ed.ins(la, format!("{}\n", d.tail));
            } else {
                ed.ins(lb, format!("\n{}\n", d.tail));
            }
        }
        if !d.tailwrap.is_empty() {
            if !is_tail_expr {
                lost(format!("{}: no tail expression", label));
            }
            ed.ins(la, "let ret__ = ".to_string());
            ed.ins(lb, format!(";\n{}\nret__", d.tailwrap));
        }
    }
    let (ba, bb) = (rng(block.brace_token.span.open()).0, rng(block.brace_token.span.close()).1);
    for (after, t, code) in &d.anchors {
        // anchor: the unique innermost statement whose normalized text contains the normalized anchor text
        // (` @K` after the text: the K-th of several equal ones)
        let (t, nth) = match t.rsplit_once("` @") {
            Some((a, k)) => (a, k.trim().parse::<usize>().ok()),
            None => (t.as_str(), None),
        };
        let mut sf = StmtFinder { want: norm(t), src: cx.src, hits: vec![] };
        sf.visit_block(block);
        sf.hits.sort_by_key(|h| h.1 - h.0);
        let minlen = sf.hits.first().map(|h| h.1 - h.0);
        let mut best: Vec<_> = sf.hits.iter().filter(|h| Some(h.1 - h.0) == minlen).collect();
        if let Some(k) = nth {
            best.sort();
            best = best.into_iter().skip(k).take(1).collect();
        }
        if best.len() != 1 {
            lost(format!("{}: anchor `{}` matches {} statements", label, t, best.len()));
        }
        let (a, b) = *best[0];
        if *after {
            ed.ins(b, format!("\n{}\n", code))
        } else {
            ed.ins(a, format!("\n{}\n", code))
        }
    }
    for (old, new, why) in &d.replaces {
        let hay = &cx.src[ba..bb];
        let mut n = 0;
        let mut p = 0;
        while p < hay.len() {
            match match_at(hay, p, old) {
                Some((end, holes)) => {
                    n += 1;
                    let lits = split_holes(new);
                    let same_order = lits.iter().skip(1).map(|x| x.0).eq(1..=holes.len());
                    if same_order {
                        // the text around the holes is replaced, so edits within a hole stay in place
                        let mut from = p;
                        for (k, h) in holes.iter().enumerate() {
                            ed.rep(ba + from, ba + h.0, lits[k].1.clone());
                            from = h.1;
                        }
                        ed.rep(ba + from, ba + end, lits[holes.len()].1.clone());
                    } else {
                        let mut r = new.clone();
                        for (k, h) in holes.iter().enumerate() {
                            r = r.replace(&format!("${}", k + 1), &hay[h.0..h.1]);
                        }
                        ed.rep(ba + p, ba + end, r);
                    }
                    p = end;
                }
                None => p += hay[p..].chars().next().map_or(1, |c| c.len_utf8()),
            }
        }
        if n == 0 {
            lost(format!("{}: replace text `{}` not found", label, old));
        }
        cx.rules.push(format!("R5 {}: `{}` => `{}` x{} ({})", label, old, new, n, why));
    }
}
/// literal parts of a replace text: (number of the hole before it, text)
fn split_holes(t: &str) -> Vec<(usize, String)> {
    let mut r = vec![(0, String::new())];
    let mut it = t.chars().peekable();
    while let Some(c) = it.next() {
        match it.peek().and_then(|d| d.to_digit(10)) {
            Some(d) if c == '$' => {
                it.next();
                r.push((d as usize, String::new()));
            }
            _ => r.last_mut().unwrap().1.push(c),
        }
    }
    r
}
/// Matches the pattern at an offset, ignoring white space; `$1`, `$2`, .. stand for any balanced text without `;`.
fn match_at(hay: &str, start: usize, pat: &str) -> Option<(usize, Vec<(usize, usize)>)> {
    fn lit(hay: &str, mut p: usize, l: &str) -> Option<usize> {
        let b = hay.as_bytes();
        for c in l.bytes().filter(|c| !c.is_ascii_whitespace()) {
            while p < b.len() && b[p].is_ascii_whitespace() {
                p += 1;
            }
            if p >= b.len() || b[p] != c {
                return None;
            }
            p += 1;
        }
        Some(p)
    }
    fn go(hay: &str, p: usize, parts: &[(usize, String)], holes: &mut Vec<(usize, usize)>) -> Option<usize> {
        let (part, rest) = match parts.split_first() {
            None => return Some(p),
            Some(x) => x,
        };
        if part.0 == 0 {
            let p = lit(hay, p, &part.1)?;
            return go(hay, p, rest, holes);
        }
        let b = hay.as_bytes();
        let mut depth = 0i32;
        let mut q = p;
        while q < b.len() {
            if q > p && depth == 0 && hay.is_char_boundary(q) {
                if let Some(e) = lit(hay, q, &part.1) {
                    holes.push((p, q));
                    if let Some(end) = go(hay, e, rest, holes) {
                        return Some(end);
                    }
                    holes.pop();
                }
            }
            match b[q] {
                b'(' | b'[' | b'{' => depth += 1,
                b')' | b']' | b'}' => depth -= 1,
                b';' if depth == 0 => return None,
                _ => {}
            }
            if depth < 0 {
                return None;
            }
            q += 1;
        }
        None
    }
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    let (h, q) = (hay.as_bytes(), pat.as_bytes());
    if h[start].is_ascii_whitespace() || !hay.is_char_boundary(start) || (start > 0 && word(h[start - 1]) && word(q[0])) {
        return None;
    }
    let mut holes = vec![];
    let end = go(hay, start, &split_holes(pat), &mut holes)?;
    if end < h.len() && word(h[end - 1]) && word(h[end]) {
        return None;
    }
    Some((end, holes))
}
fn semi_of(b: &syn::Block) -> &'static str {
    match b.stmts.last() {
        Some(syn::Stmt::Expr(_, None)) => ";",
        _ => "",
    }
}
struct StmtFinder<'s> {
    want: String,
    src: &'s str,
    hits: Vec<(usize, usize)>,
}
impl<'a, 's> Visit<'a> for StmtFinder<'s> {
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        let (a, b) = rng(s);
        if norm(&self.src[a..b]).contains(&self.want) {
            self.hits.push((a, b));
        }
        syn::visit::visit_stmt(self, s)
    }
}

fn sig_edits(ed: &mut Edits, sig: &syn::Signature, d: &FnDir) {
    if let Some(r) = &d.ret {
        match &sig.output {
            syn::ReturnType::Type(_, t) => {
                let (a, b) = rng(&**t);
                ed.ins(a, format!("({}: ", r));
                ed.ins(b, ")");
            }
            syn::ReturnType::Default => {}
        }
    }
}

fn strip_attr_start(attrs: &[syn::Attribute], full: (usize, usize)) -> usize {
    let mut a = full.0;
    for at in attrs {
        if let syn::AttrStyle::Outer = at.style {
            let e = rng(at).1;
            if e > a {
                a = e
            }
        }
    }
    a
}

fn vis_edit(ed: &mut Edits, vis: &syn::Visibility, at: usize) {
    match vis {
        syn::Visibility::Inherited => ed.ins(at, "pub "),
        v => {
            let (a, b) = rng(v);
            ed.rep(a, b, "pub")
        }
    }
}
fn fields_edit(ed: &mut Edits, fs: &syn::Fields) {
    for f in fs.iter() {
        let fr = rng(f);
        let a = strip_attr_start(&f.attrs, fr);
        if a > fr.0 {
            ed.rep(fr.0, a, "");
        }
        let at = match &f.vis {
            syn::Visibility::Inherited => match &f.ident {
                Some(i) => rng(i).0,
                None => rng(&f.ty).0,
            },
            v => rng(v).0,
        };
        vis_edit(ed, &f.vis, at)
    }
}

struct Out {
    text: String,
    map: Vec<(usize, usize, String, String)>, // line start, end, repo file, label
}
impl Out {
    fn line(&self) -> usize {
        self.text.matches('\n').count() + 1
    }
    fn add(&mut self, s: &str, file: &str, label: &str) {
        let a = self.line();
        self.text.push_str(s);
        if !s.ends_with('\n') {
            self.text.push('\n')
        }
        let b = self.line();
        self.map.push((a, b, file.to_string(), label.to_string()));
    }
}

fn emit_fn(
    cx: &mut Ctx,
    attrs: &[syn::Attribute],
    full: (usize, usize),
    vis: Option<&syn::Visibility>,
    sig: &syn::Signature,
    block: Option<&syn::Block>,
    d: &FnDir,
    label: &str,
    replaces: &[(String, String, String)],
) -> String {
    let mut ed = Edits::new();
    let a = strip_attr_start(attrs, full);
    sig_edits(&mut ed, sig, d);
    if let Some(v) = vis {
        let at = match v {
            syn::Visibility::Inherited => rng(sig).0,
            v => rng(v).0,
        };
        vis_edit(&mut ed, v, at);
    }
    let mut pre = String::new();
    pre.push_str(&d.attrs);
    if d.trusted {
        pre.push_str("#[verifier::external_body]\n");
        cx.rules.push(format!("R7 {}: contract assumed, body not verified", label));
    }
    let _ = replaces;
    if let Some(n) = &d.rename {
        let (ia, ib) = rng(&sig.ident);
        ed.rep(ia, ib, n.clone());
        cx.rules.push(format!("R9 {}: renamed to {}", label, n));
    }
    for (old, new, why) in &d.sigreplaces {
        let (sa, sb) = rng(sig);
        match cx.src[sa..sb].find(old.as_str()) {
            Some(q) => {
                ed.rep(sa + q, sa + q + old.len(), new.clone());
                cx.rules.push(format!("R5 {} (signature): `{}` => `{}` ({})", label, old, new, why));
            }
            None => lost(format!("{}: signature text `{}` not found", label, old)),
        }
    }
    let spec = if d.spec.trim().is_empty() { String::new() } else { format!("\n{}\n", d.spec) };
    match block {
        Some(b) => {
            let (ba, _) = rng(b.brace_token.span.open());
            if !spec.is_empty() {
                ed.ins(ba, spec);
            }
            let forced = env_list("EXTRACT_TRUST").iter().any(|x| x == label);
            let scaf = scaffold(cx.src, b);
            if d.trusted || forced {
                let (_, bb) = rng(b.brace_token.span.close());
                ed.rep(ba, bb, "{ unimplemented!() }");
                if forced {
                    pre.push_str("#[verifier::external_body]\n");
                    cx.soft.push((label.to_string(), "not accepted by the verifier; body left out in this run".into()));
                }
                cx.scaf.insert(label.to_string(), scaf);
                return pre + ed.apply(cx.src, a, full.1).trim_start();
            }
            let mut d2 = d.clone();
            if std::env::var("EXTRACT_MUSTFAIL").is_ok() {
                d2.start = format!("assert(false);\n{}", d2.start);
            }
            cx.scaf.insert(label.to_string(), scaf);
            let nrules = cx.rules.len();
            SOFT.with(|s| s.set(true));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut ed2 = Edits { list: ed.list.clone(), n: ed.n };
                body_edits(cx, &mut ed2, b, &d2, label);
                ed2.apply(cx.src, a, full.1).trim_start().to_string()
            }));
            SOFT.with(|s| s.set(false));
            match r {
                Ok(t) => pre + &t,
                Err(e) => {
                    let msg = match e.downcast_ref::<LostSoft>() {
                        Some(m) => m.0.clone(),
                        None => "extractor panic".to_string(),
                    };
                    cx.rules.truncate(nrules);
                    cx.soft.push((label.to_string(), msg));
                    let (_, bb) = rng(b.brace_token.span.close());
                    ed.rep(ba, bb, "{ unimplemented!() }");
                    pre.push_str("#[verifier::external_body]\n");
                    pre + ed.apply(cx.src, a, full.1).trim_start()
                }
            }
        }
        None => {
            // trait fn without body: insert the spec before `;`
            let semi = full.1 - 1;
            ed.ins(semi, spec);
            pre + ed.apply(cx.src, a, full.1).trim_start()
        }
    }
}

/// R16: a `macro_rules!` macro with a single arm, expanded textually into a function:
/// parts = file, `macro NAME`, `$param=replacement`.., function signature
fn expand_macro(src: &str, parts: &[&str], rules: &mut Vec<String>) -> String {
    let name = parts[1].trim().strip_prefix("macro ").unwrap_or_else(|| lost(format!("bad file directive {}", parts[1]))).trim();
    let head = format!("macro_rules! {}", name);
    let at = src.find(&head).unwrap_or_else(|| lost(format!("macro {} missing", name)));
    let open = at + src[at..].find('{').unwrap_or_else(|| lost(format!("macro {}", name)));
    let close_of = |from: usize| -> usize {
        let mut d = 0;
        for (i, c) in src[from..].char_indices() {
            match c {
                '{' => d += 1,
                '}' => {
                    d -= 1;
                    if d == 0 {
                        return from + i;
                    }
                }
                _ => {}
            }
        }
        lost(format!("macro {} unbalanced", name))
    };
    let end = close_of(open);
    let arms = src[open..end].matches("=>").count();
    if arms != 1 {
        lost(format!("macro {} has {} arms", name, arms));
    }
    let arrow = open + src[open..end].find("=>").unwrap();
    let params = &src[open + 1..arrow];
    let bo = arrow + src[arrow..].find('{').unwrap();
    let bc = close_of(bo);
    let mut body = src[bo + 1..bc].to_string();
    for p in &parts[2..parts.len() - 1] {
        let (k, v) = p.split_once('=').unwrap_or_else(|| lost(format!("bad macro parameter {}", p)));
        let k = k.trim();
        if !params.contains(&format!("{}:", k)) && !params.contains(&format!("{} :", k)) {
            lost(format!("macro {} has no parameter {}", name, k));
        }
        body = body.replace(k, v.trim());
    }
    if body.contains('$') {
        lost(format!("macro {}: unexpanded parameter", name));
    }
    rules.push(format!("R16 macro {} expanded with {} as `{}`", name, parts[2..parts.len() - 1].join(", "), parts[parts.len() - 1]));
    format!("{} {{ {} }}\n", parts[parts.len() - 1], body)
}

/// R10/R12: rewriting of side-effecting closures whose result is unused, to a fixpoint
fn desugar(mut src: String, file: &str, rules: &mut Vec<String>) -> String {
    for _ in 0..200 {
        let ast = match syn::parse_file(&src) {
            Ok(a) => a,
            Err(e) => lost(format!("file {} does not parse: {}", file, e)),
        };
        let mut d = Desugar { src: &src, edits: vec![], rule: String::new() };
        d.visit_file(&ast);
        if d.edits.is_empty() {
            break;
        }
        let r = format!("{} in {}", d.rule, file);
        let mut ed = d.edits;
        ed.sort_by(|a, b| b.0.cmp(&a.0));
        let mut n = src.clone();
        for (a, b, t) in ed {
            n.replace_range(a..b, &t);
        }
        src = n;
        if !rules.contains(&r) {
            rules.push(r);
        }
    }
    src
}
/// R21, then R20
fn desugar_bytes(mut src: String, file: &str, rules: &mut Vec<String>) -> String {
    if !src.contains("b\"") {
        return src;
    }
    for matches in [true, false] {
        for _ in 0..200 {
            let ast = match syn::parse_file(&src) {
                Ok(a) => a,
                Err(e) => lost(format!("file {} does not parse: {}", file, e)),
            };
            let mut d = ByteLits { src: &src, edits: vec![], matches };
            d.visit_file(&ast);
            if d.edits.is_empty() {
                break;
            }
            let mut ed = d.edits;
            ed.sort_by(|a, b| b.0.cmp(&a.0));
            if matches {
                ed.truncate(1);
            }
            let mut n = src.clone();
            for (a, b, t) in ed {
                n.replace_range(a..b, &t);
            }
            src = n;
            let r = format!("{} in {}", if matches { "R21 match on byte strings -> if chain" } else { "R20 byte string literal -> byte array" }, file);
            if !rules.contains(&r) {
                rules.push(r);
            }
        }
    }
    src
}
/// `t"xyz"` in contract text
fn text_literals(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("t\"") {
        let prev = rest[..i].chars().last();
        if prev.map_or(false, |c| c.is_alphanumeric() || c == '_' || c == '"') {
            out.push_str(&rest[..i + 2]);
            rest = &rest[i + 2..];
            continue;
        }
        out.push_str(&rest[..i]);
        let body = &rest[i + 1..];
        let mut end = 1;
        let b = body.as_bytes();
        while b[end] != b'"' {
            end += if b[end] == b'\\' { 2 } else { 1 };
        }
        let lit: syn::LitStr = syn::parse_str(&body[..end + 1]).expect("text literal");
        let v: Vec<String> = lit.value().bytes().map(|x| format!("{}u8", x)).collect();
        out.push_str(&format!("seq![{}]", v.join(", ")));
        rest = &body[end + 1..];
    }
    out + rest
}
/// R22
fn desugar_strings(mut src: String, file: &str, rules: &mut Vec<String>) -> String {
    let mut any = false;
    for _ in 0..3000 {
        let ast = match syn::parse_file(&src) {
            Ok(a) => a,
            Err(e) => lost(format!("file {} does not parse: {}", file, e)),
        };
        let mut d = Strings { src: &src, edit: None };
        d.visit_file(&ast);
        let (a, b, t) = match d.edit {
            Some(e) => e,
            None => break,
        };
        src.replace_range(a..b, &t);
        any = true;
    }
    let r = format!("R22 text operations -> functions under contract in {}", file);
    if any && !rules.contains(&r) {
        rules.push(r);
    }
    src
}
/// R26
fn desugar_visitors(mut src: String, file: &str, names: &[String], rules: &mut Vec<String>) -> String {
    let mut any = false;
    for _ in 0..1000 {
        let ast = match syn::parse_file(&src) {
            Ok(a) => a,
            Err(e) => lost(format!("file {} does not parse: {}", file, e)),
        };
        let mut d = Visitors { src: &src, names, edits: vec![] };
        d.visit_file(&ast);
        if d.edits.is_empty() {
            break;
        }
        let mut ed = d.edits;
        ed.sort_by(|a, b| b.0.cmp(&a.0));
        let mut n = src.clone();
        for (a, b, t) in ed {
            n.replace_range(a..b, &t);
        }
        src = n;
        any = true;
    }
    let r = format!("R26 visited values -> recorded in a list, then a loop over it, in {}", file);
    if any && !rules.contains(&r) {
        rules.push(r);
    }
    src
}
struct Visitors<'s> {
    src: &'s str,
    names: &'s [String],
    edits: Vec<(usize, usize, String)>,
}
/// the T of FnMut(&T)
fn fnmut_arg(p: &syn::Path) -> Option<&syn::Type> {
    let l = p.segments.last()?;
    if l.ident != "FnMut" {
        return None;
    }
    match &l.arguments {
        syn::PathArguments::Parenthesized(a) if a.inputs.len() == 1 => match &a.inputs[0] {
            syn::Type::Reference(r) if r.mutability.is_none() => Some(&*r.elem),
            _ => None,
        },
        _ => None,
    }
}
fn bound_arg<'a>(bs: impl Iterator<Item = &'a syn::TypeParamBound>) -> Option<&'a syn::Type> {
    for b in bs {
        if let syn::TypeParamBound::Trait(t) = b {
            if let Some(x) = fnmut_arg(&t.path) {
                return Some(x);
            }
        }
    }
    None
}
impl<'s> Visitors<'s> {
    fn txt(&self, x: impl Spanned) -> String {
        let (a, b) = rng(x);
        self.src[a..b].to_string()
    }
    /// a closure body with `return` or `?` is no loop body
    fn leaves(&self, c: &syn::ExprClosure) -> bool {
        let t = self.txt(&*c.body);
        t.contains("return") || t.contains('?')
    }
    fn is_visit(&self, m: &syn::ExprMethodCall) -> bool {
        !m.args.is_empty() && self.names.iter().any(|n| m.method == n.as_str())
    }
    fn function(&mut self, sig: &syn::Signature, body: Option<&syn::Block>) -> bool {
        if !self.names.iter().any(|n| sig.ident == n.as_str()) {
            return false;
        }
        for i in &sig.inputs {
            let t = match i { syn::FnArg::Typed(t) => t, _ => continue };
            let (name, r) = match (&*t.pat, &*t.ty) { (syn::Pat::Ident(p), syn::Type::Reference(r)) if r.mutability.is_some() => (p.ident.to_string(), r), _ => continue };
            let mut ed = vec![];
            let elem = match &*r.elem {
                syn::Type::TraitObject(o) => match bound_arg(o.bounds.iter()) { Some(x) => self.txt(x), None => continue },
                syn::Type::Path(p) => {
                    let g = match p.path.get_ident() { Some(g) => g, None => continue };
                    let mut found = None;
                    for q in &sig.generics.params {
                        if let syn::GenericParam::Type(tp) = q {
                            if tp.ident == *g {
                                found = bound_arg(tp.bounds.iter());
                            }
                        }
                    }
                    if let Some(w) = &sig.generics.where_clause {
                        for q in &w.predicates {
                            if let syn::WherePredicate::Type(pt) = q {
                                if matches!(&pt.bounded_ty, syn::Type::Path(p) if p.path.is_ident(g)) {
                                    found = bound_arg(pt.bounds.iter()).or(found);
                                }
                            }
                        }
                        if w.predicates.len() != 1 { continue }
                        let (a, b) = rng(w);
                        ed.push((a, b, String::new()));
                    }
                    if sig.generics.params.len() != 1 { continue }
                    let (a, b) = (rng(sig.generics.lt_token).0, rng(sig.generics.gt_token).1);
                    ed.push((a, b, String::new()));
                    match found { Some(x) => self.txt(x), None => continue }
                }
                _ => continue,
            };
            let (a, b) = rng(&*r.elem);
            ed.push((a, b, format!("Vec<{}>", elem)));
            if let Some(bl) = body {
                let mut c = CallsOf { name: &name, calls: vec![], other: 0 };
                c.visit_block(bl);
                // every mention must be a call or be handed on to another visitor
                for (f, arg) in &c.calls {
                    ed.push((f.0, arg.0, format!("{}.push(keep(", name)));
                    ed.push((arg.1, f.1, "))".to_string()));
                }
            }
            self.edits.extend(ed);
            return true;
        }
        false
    }
}
struct CallsOf<'n> {
    name: &'n str,
    calls: Vec<((usize, usize), (usize, usize))>,
    other: usize,
}
impl<'a, 'n> Visit<'a> for CallsOf<'n> {
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if matches!(&*c.func, syn::Expr::Path(p) if p.path.is_ident(self.name)) && c.args.len() == 1 {
            self.calls.push((rng(c), rng(&c.args[0])));
        }
        syn::visit::visit_expr_call(self, c)
    }
}
impl<'a, 's> Visit<'a> for Visitors<'s> {
    fn visit_item_mod(&mut self, m: &'a syn::ItemMod) {
        if m.ident != "tests" && m.ident != "test" {
            syn::visit::visit_item_mod(self, m)
        }
    }
    fn visit_trait_item_fn(&mut self, f: &'a syn::TraitItemFn) {
        if self.edits.is_empty() && !self.function(&f.sig, f.default.as_ref()) {
            syn::visit::visit_trait_item_fn(self, f)
        }
    }
    fn visit_impl_item_fn(&mut self, f: &'a syn::ImplItemFn) {
        if self.edits.is_empty() && !self.function(&f.sig, Some(&f.block)) {
            syn::visit::visit_impl_item_fn(self, f)
        }
    }
    fn visit_block(&mut self, b: &'a syn::Block) {
        if !self.edits.is_empty() {
            return;
        }
        for (i, s) in b.stmts.iter().enumerate() {
            // x.visit(&mut |p| B);
            if let syn::Stmt::Expr(syn::Expr::MethodCall(m), Some(_)) = s {
                if self.is_visit(m) {
                    if let syn::Expr::Reference(r) = &m.args[m.args.len() - 1] {
                        if let syn::Expr::Closure(c) = &*r.expr {
                            if c.inputs.len() == 1 && !self.leaves(c) {
                                let before: String = m.args.iter().take(m.args.len() - 1).map(|x| format!("{}, ", self.txt(x))).collect();
                                let pat = match &c.inputs[0] { syn::Pat::Type(t) => self.txt(&*t.pat), p => self.txt(p) };
                                let body = match &*c.body { syn::Expr::Block(x) => self.txt(x), x => format!("{{ {}; }}", self.txt(x)) };
                                let (a, z) = rng(s);
                                let v = format!("v{}__", self.src[self.src[..a].rfind("fn ").unwrap_or(0)..a].matches("__ = Vec::new();").count());
                                self.edits.push((a, z, format!("let mut {v} = Vec::new();\n{x}.{f}({g}&mut {v});\nfor {p} in {v}.iter() {b}", v = v, g = before, x = self.txt(&*m.receiver), f = m.method, p = pat, b = body)));
                                return;
                            }
                        }
                    }
                }
            }
            // let mut f = |p| B; x.visit(&mut f); ..
            if let syn::Stmt::Local(l) = s {
                let (f, init) = match (&l.pat, &l.init) { (syn::Pat::Ident(f), Some(i)) => (f, i), _ => continue };
                let c = match &*init.expr { syn::Expr::Closure(c) if c.inputs.len() == 1 && !self.leaves(c) => c, _ => continue };
                let mut last = i;
                for (k, t) in b.stmts.iter().enumerate().skip(i + 1) {
                    let ok = match t {
                        syn::Stmt::Expr(syn::Expr::MethodCall(m), Some(_)) if self.is_visit(m) => matches!(&m.args[m.args.len() - 1], syn::Expr::Reference(r) if matches!(&*r.expr, syn::Expr::Path(p) if p.path.is_ident(&f.ident))),
                        _ => false,
                    };
                    if !ok { break }
                    last = k;
                }
                if last == i { continue }
                let pat = match &c.inputs[0] { syn::Pat::Type(t) => self.txt(&*t.pat), p => self.txt(p) };
                let body = match &*c.body { syn::Expr::Block(x) => self.txt(x), x => format!("{{ {}; }}", self.txt(x)) };
                let (a, z) = rng(&*init.expr);
                self.edits.push((a, z, "Vec::new()".to_string()));
                let end = rng(&b.stmts[last]).1;
                self.edits.push((end, end, format!("\nfor {} in {}.iter() {}", pat, f.ident, body)));
                return;
            }
        }
        syn::visit::visit_block(self, b)
    }
}
struct Strings<'s> {
    src: &'s str,
    edit: Option<(usize, usize, String)>,
}
fn str_lit(e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => Some(lit_text(&s.value())),
        syn::Expr::Paren(p) => str_lit(&p.expr),
        _ => None,
    }
}
fn lit_text(s: &str) -> String {
    format!("lit(b\"{}\")", s.bytes().map(|b| format!("\\x{:02x}", b)).collect::<String>())
}
/// is this sum a sum of texts?
fn is_text(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::Add(_)) => str_lit(&b.right).is_some() || is_text(&b.left),
        syn::Expr::Paren(p) => is_text(&p.expr),
        syn::Expr::MethodCall(m) => ["to_string", "show", "show_exp", "to_str"].iter().any(|n| m.method == n),
        syn::Expr::Call(c) => matches!(&*c.func, syn::Expr::Path(p) if p.path.is_ident("cat")),
        syn::Expr::Macro(m) => m.mac.path.is_ident("format"),
        _ => false,
    }
}
struct FormatArgs(syn::LitStr, Vec<syn::Expr>);
impl syn::parse::Parse for FormatArgs {
    fn parse(input: syn::parse::ParseStream) -> syn::Result<Self> {
        let l = input.parse()?;
        let mut v = vec![];
        while input.parse::<Option<syn::Token![,]>>()?.is_some() && !input.is_empty() {
            v.push(input.parse()?);
        }
        Ok(FormatArgs(l, v))
    }
}
impl<'s> Strings<'s> {
    fn sum(&self, b: &syn::ExprBinary) -> String {
        let r = str_lit(&b.right).unwrap_or_else(|| self.txt(&*b.right));
        let l = match &*b.left {
            syn::Expr::Binary(x) if matches!(x.op, syn::BinOp::Add(_)) => self.sum(x),
            x => self.txt(x),
        };
        format!("cat({}, {})", l, r)
    }
    fn txt(&self, x: impl Spanned) -> String {
        let (a, b) = rng(x);
        self.src[a..b].to_string()
    }
    fn format(&self, f: &FormatArgs) -> Option<String> {
        let l = f.0.value();
        let mut r = "no_text()".to_string();
        let mut rest = l.as_str();
        let mut args = f.1.iter();
        let mut plain = String::new();
        while !rest.is_empty() {
            if rest.starts_with("{{") || rest.starts_with("}}") {
                plain.push_str(&rest[..1]);
                rest = &rest[2..];
                continue;
            }
            let how = if rest.starts_with("{}") { Some((2, "show")) } else if rest.starts_with("{:e}") { Some((4, "show_exp")) } else { None };
            match how {
                Some((n, m)) => {
                    if !plain.is_empty() {
                        r = format!("cat({}, {})", r, lit_text(&std::mem::take(&mut plain)));
                    }
                    r = format!("cat({}, &({}).{}())", r, self.txt(args.next()?), m);
                    rest = &rest[n..];
                }
                None if rest.starts_with('{') || rest.starts_with('}') => return None,
                None => {
                    let c = rest.chars().next().unwrap();
                    plain.push(c);
                    rest = &rest[c.len_utf8()..];
                }
            }
        }
        if !plain.is_empty() {
            r = format!("cat({}, {})", r, lit_text(&plain));
        }
        if args.next().is_some() { None } else { Some(r) }
    }
}
impl<'a, 's> Visit<'a> for Strings<'s> {
    fn visit_item_mod(&mut self, m: &'a syn::ItemMod) {
        if m.ident != "test" && m.ident != "tests" {
            syn::visit::visit_item_mod(self, m)
        }
    }
    fn visit_expr(&mut self, e: &'a syn::Expr) {
        if self.edit.is_some() {
            return;
        }
        let new = match e {
            syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::Add(_)) && is_text(e) => Some(self.sum(b)),
            syn::Expr::MethodCall(m) if m.args.is_empty() => {
                let to = if m.method == "to_string" { "show" } else if m.method == "as_bytes" { "octets" } else if m.method == "to_be_bytes" { "be_octets" } else { "" };
                if to.is_empty() { None } else { Some(format!("{}.{}()", str_lit(&m.receiver).unwrap_or_else(|| self.txt(&*m.receiver)), to)) }
            }
            syn::Expr::Macro(m) if m.mac.path.is_ident("format") => match m.mac.parse_body::<FormatArgs>() {
                Ok(f) => self.format(&f),
                Err(_) => None,
            },
            _ => None,
        };
        match new {
            Some(t) => {
                let (a, b) = rng(e);
                self.edit = Some((a, b, t));
            }
            None => syn::visit::visit_expr(self, e),
        }
    }
}
struct ByteLits<'s> {
    src: &'s str,
    edits: Vec<(usize, usize, String)>,
    matches: bool,
}
fn byte_pats(p: &syn::Pat) -> Option<Vec<&syn::LitByteStr>> {
    match p {
        syn::Pat::Lit(l) => match &l.lit {
            syn::Lit::ByteStr(b) => Some(vec![b]),
            _ => None,
        },
        syn::Pat::Or(o) => {
            let mut r = vec![];
            for c in &o.cases {
                r.extend(byte_pats(c)?);
            }
            Some(r)
        }
        _ => None,
    }
}
impl<'a, 's> Visit<'a> for ByteLits<'s> {
    fn visit_item_mod(&mut self, m: &'a syn::ItemMod) {
        if m.ident != "test" && m.ident != "tests" {
            syn::visit::visit_item_mod(self, m)
        }
    }
    fn visit_expr_match(&mut self, m: &'a syn::ExprMatch) {
        if self.matches && m.arms.len() > 1 && m.arms.iter().all(|a| a.guard.is_none()) {
            let (last, firsts) = m.arms.split_last().unwrap();
            let pats: Vec<_> = firsts.iter().map(|a| byte_pats(&a.pat)).collect();
            if matches!(last.pat, syn::Pat::Wild(_)) && pats.iter().all(|p| p.is_some()) {
                let (a, b) = rng(&*m.expr);
                let mut t = format!("{{ let m__ = {}; ", &self.src[a..b]);
                for (arm, p) in firsts.iter().zip(pats) {
                    let c: Vec<String> = p.unwrap().iter().map(|l| { let (a, b) = rng(*l); format!("is_bytes(m__, {})", &self.src[a..b]) }).collect();
                    let (a, b) = rng(&*arm.body);
                    t.push_str(&format!("if {} {{ {} }} else ", c.join(" || "), &self.src[a..b]));
                }
                let (a, b) = rng(&*last.body);
                t.push_str(&format!("{{ {} }} }}", &self.src[a..b]));
                let (a, b) = rng(m);
                self.edits.push((a, b, t));
                return;
            }
        }
        syn::visit::visit_expr_match(self, m)
    }
    fn visit_expr_lit(&mut self, l: &'a syn::ExprLit) {
        if let (false, syn::Lit::ByteStr(b)) = (self.matches, &l.lit) {
            let v: Vec<String> = b.value().iter().map(|x| format!("{}u8", x)).collect();
            let (a, e) = rng(l);
            self.edits.push((a, e, format!("({{ let l__: &[u8; {}] = &[{v}]; PROOF__! {{ assert(l__@ =~= seq![{v}]) ; }} l__ }})", v.len(), v = v.join(", "))));
        }
    }
}
struct Desugar<'s> {
    src: &'s str,
    edits: Vec<(usize, usize, String)>,
    rule: String,
}
fn closure1(e: &syn::Expr) -> Option<&syn::ExprClosure> {
    let e = match e {
        syn::Expr::Reference(r) => &*r.expr,
        e => e,
    };
    match e {
        syn::Expr::Closure(c) if c.inputs.len() == 1 && c.capture.is_none() => Some(c),
        _ => None,
    }
}
impl<'s> Desugar<'s> {
    fn txt(&self, x: impl Spanned) -> String {
        let (a, b) = rng(x);
        self.src[a..b].to_string()
    }
    fn pat(&self, c: &syn::ExprClosure) -> String {
        match &c.inputs[0] {
            syn::Pat::Type(t) => self.txt(&*t.pat),
            p => self.txt(p),
        }
    }
    fn map_call<'a>(&self, e: &'a syn::Expr) -> Option<(&'a syn::Expr, &'a syn::ExprClosure)> {
        if let syn::Expr::MethodCall(m) = e {
            if (m.method == "map" || m.method == "and_then") && m.args.len() == 1 {
                if let Some(c) = closure1(&m.args[0]) {
                    return Some((&m.receiver, c));
                }
            }
        }
        None
    }
}
#[derive(Default)]
struct Assigns<'a>(Vec<&'a syn::ExprBinary>);
impl<'a> Visit<'a> for Assigns<'a> {
    fn visit_expr_binary(&mut self, e: &'a syn::ExprBinary) {
        use syn::BinOp::*;
        if matches!(e.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_)) {
            self.0.push(e)
        }
        syn::visit::visit_expr_binary(self, e)
    }
}
struct Calls<'n> {
    name: &'n str,
    hits: Vec<(usize, usize, (usize, usize))>,
    other: usize,
}
impl<'a, 'n> Visit<'a> for Calls<'n> {
    fn visit_expr_call(&mut self, e: &'a syn::ExprCall) {
        if let syn::Expr::Path(p) = &*e.func {
            if p.path.is_ident(self.name) && e.args.len() == 1 {
                let (a, b) = rng(e);
                self.hits.push((a, b, rng(&e.args[0])));
                syn::visit::visit_expr(self, &e.args[0]);
                return;
            }
        }
        syn::visit::visit_expr_call(self, e)
    }
    fn visit_expr_path(&mut self, e: &'a syn::ExprPath) {
        if e.path.is_ident(self.name) {
            self.other += 1
        }
    }
}
struct HasJump(bool);
impl<'a> Visit<'a> for HasJump {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.0 = true
    }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
        self.0 = true
    }
    fn visit_expr_break(&mut self, _: &'a syn::ExprBreak) {
        self.0 = true
    }
    fn visit_expr_continue(&mut self, _: &'a syn::ExprContinue) {
        self.0 = true
    }
}
fn jumps(e: &syn::Expr) -> bool {
    let mut h = HasJump(false);
    h.visit_expr(e);
    h.0
}
impl<'a, 's> Visit<'a> for Desugar<'s> {
    fn visit_item_mod(&mut self, m: &'a syn::ItemMod) {
        if m.ident != "test" && m.ident != "tests" {
            syn::visit::visit_item_mod(self, m)
        }
    }
    fn visit_block(&mut self, b: &'a syn::Block) {
        for (k, s) in b.stmts.iter().enumerate() {
            if !self.edits.is_empty() {
                return;
            }
            // R12: local FnMut closure with one parameter, inlined at its calls
            if let syn::Stmt::Local(l) = s {
                if let (syn::Pat::Ident(id), Some(init)) = (&l.pat, &l.init) {
                    if let (Some(_), syn::Expr::Closure(c)) = (&id.mutability, &*init.expr) {
                        if c.inputs.len() == 1 && c.capture.is_none() && !jumps(&c.body) {
                            let name = id.ident.to_string();
                            let mut calls = Calls { name: &name, hits: vec![], other: 0 };
                            for t in &b.stmts[k + 1..] {
                                calls.visit_stmt(t);
                            }
                            if calls.other == 0 && !calls.hits.is_empty() {
                                let p = self.pat(c);
                                let body = self.txt(&*c.body);
                                for (a, e, (x, y)) in calls.hits {
                                    let arg = self.src[x..y].to_string();
                                    self.edits.push((a, e, format!("({{ let {} = {}; {} }})", p, arg, body)));
                                }
                                let (a, e) = rng(s);
                                self.edits.push((a, e, String::new()));
                                self.rule = format!("R12 closure `{}` inlined at its calls", name);
                                return;
                            }
                        }
                    }
                }
            }
            let (a, e) = rng(s);
            let mut unused: Option<&syn::Expr> = None;
            match s {
                syn::Stmt::Local(l) => {
                    if let (syn::Pat::Wild(_), Some(init)) = (&l.pat, &l.init) {
                        unused = Some(&init.expr)
                    }
                }
                syn::Stmt::Expr(x, Some(_)) => unused = Some(x),
                _ => {}
            }
            if let Some(x) = unused {
                if let Some((r, c)) = self.map_call(x) {
                    if !jumps(&c.body) {
                        self.rule = "R10 `E.map(|p| B);` -> `if let Some(p) = E { B; }`".into();
                        let t = format!("if let Some({}) = {} {{ {}; }}", self.pat(c), self.txt(r), self.txt(&*c.body));
                        self.edits.push((a, e, t));
                        return;
                    }
                }
                if let syn::Expr::Try(t) = x {
                    if let Some((r, c)) = self.map_call(&t.expr) {
                        if !jumps(&c.body) {
                            self.rule = "R10 `E.map(|p| B)?;` -> `{ let p = E?; B; }`".into();
                            let t = format!("{{ let {} = {}?; {}; }}", self.pat(c), self.txt(r), self.txt(&*c.body));
                            self.edits.push((a, e, t));
                            return;
                        }
                    }
                    if let syn::Expr::MethodCall(m) = &*t.expr {
                        if m.method == "ok_or" && m.args.len() == 1 {
                            if let Some((r, c)) = self.map_call(&m.receiver) {
                                if !jumps(&c.body) {
                                    self.rule = "R10 `E.map(|p| B).ok_or(K)?;` -> `{ let p = E.ok_or(K)?; B; }`".into();
                                    let t = format!("{{ let {} = {}.ok_or({})?; {}; }}", self.pat(c), self.txt(r), self.txt(&m.args[0]), self.txt(&*c.body));
                                    self.edits.push((a, e, t));
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }
        syn::visit::visit_block(self, b)
    }
}
fn env_list(n: &str) -> Vec<String> {
    std::env::var(n).unwrap_or_default().split('\u{1}').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect()
}
/// the shape of a body that loop/closure annotations are attached to
fn scaffold(src: &str, b: &syn::Block) -> String {
    let mut f = Finder::default();
    f.visit_block(b);
    f.loops.sort_by_key(|l| l.0);
    let mut o = String::new();
    for (_, l) in &f.loops {
        let (k, r) = match l {
            LoopAst::For(e) => ("for", (rng(&e.pat).0, rng(&*e.expr).1)),
            LoopAst::While(e) => ("while", rng(&*e.cond)),
            LoopAst::Loop(_) => ("loop", (0, 0)),
            LoopAst::MapCollect(_, m, _) | LoopAst::FilterCollect(_, m, _) => ("collect", rng(&*m.receiver)),
            LoopAst::ExtendMap(_, m, _) => ("extend", rng(&*m.receiver)),
            LoopAst::Any(e, _) => ("any", rng(&*e.receiver)),
        };
        o.push_str(k);
        o.push(' ');
        o.push_str(&norm(&src[r.0..r.1]));
        o.push(';');
    }
    format!("{}closures {}", o, f.closures.len())
}

fn collect_items<'a>(items: &'a [syn::Item], out: &mut Vec<&'a syn::Item>) {
    for i in items {
        out.push(i);
        if let syn::Item::Mod(m) = i {
            if let Some((_, c)) = &m.content {
                collect_items(c, out)
            }
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() != 5 {
        eprintln!("usage: extract REPO CONTRACT OUT.rs OUT.map.json");
        std::process::exit(2)
    }
    let repo = &args[1];
    let contract = std::fs::read_to_string(&args[2]).expect("contract");
    let base = std::path::Path::new(&args[2]).parent().unwrap().to_path_buf();
    // textual includes of shared contract text: `//@include name`
    let mut full = String::new();
    for l in contract.lines() {
        if let Some(n) = l.trim().strip_prefix("//@include ") {
            full.push_str(&std::fs::read_to_string(base.join(n.trim())).expect("include"));
        } else {
            full.push_str(l);
        }
        full.push('\n');
    }
    let full = text_literals(&full);
    let strings = full.lines().any(|l| l.trim() == "//@ strings");
    let visitors: Vec<String> = full.lines().filter_map(|l| l.trim().strip_prefix("//@ visitors ")).flat_map(|l| l.split_whitespace()).map(|x| x.to_string()).collect();
    let pieces = parse_contract(&full);
    let mut out = Out { text: String::new(), map: vec![] };
    let mut rules: Vec<String> = vec![];
    let mut soft: Vec<(String, String)> = vec![];
    let mut scaf: BTreeMap<String, String> = BTreeMap::new();
    std::panic::set_hook(Box::new(|_| {}));
    let mut fns_under_contract: Vec<(String, bool)> = vec![];
    for p in pieces {
        let it = match p {
            Piece::Text(t) => {
                out.text.push_str(&t);
                continue;
            }
            Piece::Item(i) => i,
        };
        let parts: Vec<&str> = it.file.split(" | ").collect();
        let path = format!("{}/{}", repo, parts[0]);
        let src = match std::fs::read_to_string(&path) {
            Ok(s) => s,
            Err(_) => lost(format!("file {} missing", it.file)),
        };
        let src = if parts.len() > 1 { expand_macro(&src, &parts, &mut rules) } else { src };
        let src = desugar(src, &it.file, &mut rules);
        let src = if strings { desugar_strings(src, &it.file, &mut rules) } else { src };
        let src = if visitors.is_empty() { src } else { desugar_visitors(src, &it.file, &visitors, &mut rules) };
        let src = desugar_bytes(src, &it.file, &mut rules);
        let ast = match syn::parse_file(&src) {
            Ok(a) => a,
            Err(e) => lost(format!("file {} does not parse: {}", it.file, e)),
        };
        let mut items = vec![];
        collect_items(&ast.items, &mut items);
        let mut cx = Ctx { src: &src, rules: vec![], soft: vec![], scaf: BTreeMap::new() };
        let lbl = |n: &str| format!("{}::{}::{}", it.file, it.sel, n);
        match it.kind {
            Kind::Struct | Kind::Enum => {
                let mut found = false;
                for i in &items {
                    match i {
                        syn::Item::Struct(s) if s.ident == it.sel.as_str() && matches!(it.kind, Kind::Struct) => {
                            let fr = rng(s);
                            let a = strip_attr_start(&s.attrs, fr);
                            let mut ed = Edits::new();
                            let at = match &s.vis {
                                syn::Visibility::Inherited => rng(&s.struct_token).0,
                                v => rng(v).0,
                            };
                            vis_edit(&mut ed, &s.vis, at);
                            fields_edit(&mut ed, &s.fields);
                            let mut t = it.attrs.clone() + ed.apply(&src, a, fr.1).trim_start();
                            for (o, n, why) in &it.replaces {
                                if !t.contains(o) { lost(format!("{}: `{}`", it.sel, o)) }
                                t = t.replace(o.as_str(), n);
                                cx.rules.push(format!("R5 {}: `{}` => `{}` ({})", it.sel, o, n, why));
                            }
                            out.add(&t, &it.file, &lbl(""));
                            found = true;
                        }
                        syn::Item::Enum(s) if s.ident == it.sel.as_str() && matches!(it.kind, Kind::Enum) => {
                            let fr = rng(s);
                            let a = strip_attr_start(&s.attrs, fr);
                            let mut ed = Edits::new();
                            let at = match &s.vis {
                                syn::Visibility::Inherited => rng(&s.enum_token).0,
                                v => rng(v).0,
                            };
                            vis_edit(&mut ed, &s.vis, at);
                            for v in &s.variants {
                                let vr = rng(v);
                                let a = strip_attr_start(&v.attrs, vr);
                                if a > vr.0 {
                                    ed.rep(vr.0, a, "");
                                }
                            }
                            let mut t = it.attrs.clone() + ed.apply(&src, a, fr.1).trim_start();
                            for (o, n, why) in &it.replaces {
                                if !t.contains(o) { lost(format!("{}: `{}`", it.sel, o)) }
                                t = t.replace(o.as_str(), n);
                                cx.rules.push(format!("R5 {}: `{}` => `{}` ({})", it.sel, o, n, why));
                            }
                            out.add(&t, &it.file, &lbl(""));
                            found = true;
                        }
                        _ => {}
                    }
                }
                if !found {
                    lost(format!("{} {} not found", it.file, it.sel))
                }
            }
            Kind::Const => {
                let mut found = false;
                for i in &items {
                    if let syn::Item::Const(c) = i {
                        if c.ident == it.sel.as_str() {
                            let fr = rng(c);
                            let a = strip_attr_start(&c.attrs, fr);
                            let mut ed = Edits::new();
                            let at = match &c.vis {
                                syn::Visibility::Inherited => rng(&c.const_token).0,
                                v => rng(v).0,
                            };
                            vis_edit(&mut ed, &c.vis, at);
                            let t = it.attrs.clone() + ed.apply(&src, a, fr.1).trim_start();
                            out.add(&t, &it.file, &lbl(""));
                            found = true;
                        }
                    }
                }
                if !found {
                    lost(format!("{} const {} not found", it.file, it.sel))
                }
            }
            Kind::FreeFn => {
                let mut found = false;
                for i in &items {
                    if let syn::Item::Fn(f) = i {
                        if f.sig.ident == it.sel.as_str() {
                            let d = &it.fns[0];
                            let label = lbl("");
                            let t = emit_fn(&mut cx, &f.attrs, rng(f), Some(&f.vis), &f.sig, Some(&f.block), d, &label, &it.replaces);
                            out.add(&t, &it.file, &label);
                            fns_under_contract.push((label, d.trusted));
                            found = true;
                        }
                    }
                }
                if !found {
                    lost(format!("{} fn {} not found", it.file, it.sel))
                }
            }
            Kind::Trait => {
                let mut found = false;
                for i in &items {
                    if let syn::Item::Trait(t) = i {
                        if t.ident != it.sel.as_str() {
                            continue;
                        }
                        found = true;
                        let fr = rng(t);
                        let a = strip_attr_start(&t.attrs, fr);
                        let (bo, _) = rng(t.brace_token.span.open());
                        let mut ed = Edits::new();
                        let at = match &t.vis {
                            syn::Visibility::Inherited => rng(&t.trait_token).0,
                            v => rng(v).0,
                        };
                        vis_edit(&mut ed, &t.vis, at);
                        let mut head = match &it.header {
                            Some(h) => {
                                cx.rules.push(format!("R5 trait {}: header restated as `{}`", it.sel, h));
                                h.clone()
                            }
                            None => ed.apply(&src, a, bo).trim_start().to_string(),
                        };
                        for (o, n, why) in &it.replaces {
                            if !head.contains(o) { lost(format!("{}: `{}`", it.sel, o)) }
                            head = head.replace(o.as_str(), n);
                            cx.rules.push(format!("R5 {}: `{}` => `{}` ({})", it.sel, o, n, why));
                        }
                        out.add(&(it.attrs.clone() + &head + "{\n" + &it.ghost), &it.file, &lbl("<head>"));
                        let mut dropped = vec![];
                        let mut seen = vec![];
                        for ti in &t.items {
                            if let syn::TraitItem::Fn(f) = ti {
                                let n = f.sig.ident.to_string();
                                match it.fns.iter().find(|d| d.name == n) {
                                    None => dropped.push(n),
                                    Some(d) => {
                                        seen.push(n.clone());
                                        let label = lbl(&n);
                                        let s = emit_fn(&mut cx, &f.attrs, rng(f), None, &f.sig, f.default.as_ref(), d, &label, &[]);
                                        out.add(&s, &it.file, &label);
                                        fns_under_contract.push((label, d.trusted || f.default.is_none()));
                                    }
                                }
                            } else if let syn::TraitItem::Type(ty) = ti {
                                if it.types.iter().any(|x| ty.ident == x.as_str()) {
                                    let (ta, tb) = rng(ty);
                                    let ta = strip_attr_start(&ty.attrs, (ta, tb));
                                    out.add(src[ta..tb].trim_start(), &it.file, &lbl("<type>"));
                                }
                            }
                        }
                        for d in &it.fns {
                            if !seen.contains(&d.name) {
                                lost(format!("trait {} has no fn {}", it.sel, d.name))
                            }
                        }
                        if !dropped.is_empty() {
                            cx.rules.push(format!("R6 trait {}: not extracted: {}", it.sel, dropped.join(", ")));
                        }
                        out.add("}\n", &it.file, &lbl("<end>"));
                    }
                }
                if !found {
                    lost(format!("{} trait {} not found", it.file, it.sel))
                }
            }
            Kind::Impl => {
                // selector: "Type" or "Trait for Type"; generics are ignored unless given
                let want = norm(&it.sel);
                let mut seen: Vec<String> = vec![];
                let mut first = true;
                let mut dropped = vec![];
                // a selector that names one impl exactly does not also select more general look-alikes
                let exact = want.contains("for")
                    && items.iter().any(|i| match i {
                        syn::Item::Impl(im) => match &im.trait_ {
                            Some((_, p, _)) => {
                                let ((ta, tb), (sa, sb)) = (rng(p), rng(&*im.self_ty));
                                format!("{}for{}", norm(&src[ta..tb]), norm(&src[sa..sb])) == want
                            }
                            None => false,
                        },
                        _ => false,
                    });
                for i in &items {
                    let im = match i {
                        syn::Item::Impl(im) => im,
                        _ => continue,
                    };
                    let (sa, sb) = rng(&*im.self_ty);
                    let st = norm(&src[sa..sb]);
                    let st_short = st.split('<').next().unwrap().to_string();
                    let (full_sel, short_sel) = match &im.trait_ {
                        None => (st.clone(), st_short),
                        Some((_, p, _)) => {
                            let (ta, tb) = rng(p);
                            let ts = norm(&src[ta..tb]);
                            let ts_short = ts.split('<').next().unwrap().to_string();
                            (format!("{}for{}", ts, st), format!("{}for{}", ts_short, st_short))
                        }
                    };
                    if want != full_sel && (want != short_sel || exact) {
                        continue;
                    }
                    let fr = rng(im);
                    let a = strip_attr_start(&im.attrs, fr);
                    let (bo, _) = rng(im.brace_token.span.open());
                    let wanted: Vec<&syn::ImplItemFn> = im
                        .items
                        .iter()
                        .filter_map(|x| match x {
                            syn::ImplItem::Fn(f) => {
                                let n = f.sig.ident.to_string();
                                if it.fns.iter().any(|d| d.name == n) {
                                    Some(f)
                                } else {
                                    dropped.push(n);
                                    None
                                }
                            }
                            _ => None,
                        })
                        .collect();
                    if wanted.is_empty() && !(it.fns.is_empty() && first) {
                        continue;
                    }
                    let mut head = match &it.header {
                        Some(h) => {
                            cx.rules.push(format!("R5 impl {}: header restated as `{}`", it.sel, h));
                            h.clone()
                        }
                        None => src[a..bo].trim_start().to_string(),
                    };
                    for (o, n, why) in &it.replaces {
                        if !head.contains(o) { lost(format!("{}: `{}`", it.sel, o)) }
                        head = head.replace(o.as_str(), n);
                        cx.rules.push(format!("R5 {}: `{}` => `{}` ({})", it.sel, o, n, why));
                    }
                    let ghost = if first { it.ghost.clone() } else { String::new() };
                    out.add(&(it.attrs.clone() + &head + "{\n" + &ghost), &it.file, &lbl("<head>"));
                    first = false;
                    for x in &im.items {
                        if let syn::ImplItem::Type(ty) = x {
                            if it.types.iter().any(|x| ty.ident == x.as_str()) {
                                let (ta, tb) = rng(ty);
                                out.add(&src[ta..tb], &it.file, &lbl("<type>"));
                            }
                        }
                    }
                    for f in wanted {
                        let n = f.sig.ident.to_string();
                        let d = it.fns.iter().find(|d| d.name == n).unwrap();
                        if seen.contains(&n) {
                            lost(format!("impl {}: fn {} found twice", it.sel, n));
                        }
                        seen.push(n.clone());
                        let label = lbl(&n);
                        let vis = if im.trait_.is_none() { Some(&f.vis) } else { None };
                        let s = emit_fn(&mut cx, &f.attrs, rng(f), vis, &f.sig, Some(&f.block), d, &label, &[]);
                        out.add(&s, &it.file, &label);
                        fns_under_contract.push((label, d.trusted));
                    }
                    out.add("}\n", &it.file, &lbl("<end>"));
                }
                for d in &it.fns {
                    if !seen.contains(&d.name) {
                        lost(format!("{}: impl {} has no fn {}", it.file, it.sel, d.name))
                    }
                }
                if first {
                    lost(format!("{}: impl {} not found", it.file, it.sel))
                }
                if !dropped.is_empty() {
                    cx.rules.push(format!("R6 impl {}: not extracted: {}", it.sel, dropped.join(", ")));
                }
            }
        }
        rules.extend(cx.rules);
        soft.extend(cx.soft);
        scaf.extend(cx.scaf);
    }
    std::fs::write(&args[3], out.text.replace("PROOF__! {", "proof {")).expect("write");
    let mut j = String::from("{\"map\":[");
    for (k, (a, b, f, l)) in out.map.iter().enumerate() {
        let _ = write!(j, "{}[{},{},{},{}]", if k > 0 { "," } else { "" }, a, b, js(f), js(l));
    }
    j.push_str("],\"functions\":[");
    for (k, (l, t)) in fns_under_contract.iter().enumerate() {
        let _ = write!(j, "{}[{},{},{}]", if k > 0 { "," } else { "" }, js(l), t, js(scaf.get(l).map(|s| s.as_str()).unwrap_or("")));
    }
    j.push_str("],\"rules\":[");
    for (k, r) in rules.iter().enumerate() {
        let _ = write!(j, "{}{}", if k > 0 { "," } else { "" }, js(r));
    }
    j.push_str("],\"lost\":[");
    for (k, (l, m)) in soft.iter().enumerate() {
        let _ = write!(j, "{}[{},{}]", if k > 0 { "," } else { "" }, js(l), js(m));
    }
    j.push_str("]}\n");
    std::fs::write(&args[4], j).expect("write map");
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
