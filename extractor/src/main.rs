//! vx: mechanical extraction of function text from /repo (and from the pinned
//! `binary-merge` dependency) into a Verus file.
//!
//! usage: vx <template.vrs> <out.rs> <map.json> --repo <dir> --dep <dir> [--external fn,fn]
//!
//! A template is ordinary Verus text; lines starting with `//@` are directives.  Everything
//! executable that is under contract comes from the source tree, byte for byte, apart from the
//! edits listed in the map (`drops`): visibility/attributes/doc comments are stripped, the return
//! value is named, contracts/invariants/ghost code are inserted, and the listed syntactic rewrites
//! are applied.
use proc_macro2::{Delimiter, Span, TokenStream, TokenTree};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::ops::Range;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

struct Src {
    text: String,
    ast: syn::File,
}

fn br(s: Span) -> Range<usize> {
    s.byte_range()
}

fn fail(msg: String) -> ! {
    println!("VX-ERROR {}", msg);
    std::process::exit(3)
}

type Edit = (usize, usize, u32, String);

#[derive(Clone)]
struct Tok {
    s: String,
    r: Range<usize>,
    /// index of the matching close token if this is an open delimiter
    close: usize,
}

fn flatten(ts: TokenStream, out: &mut Vec<Tok>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                let i = out.len();
                out.push(Tok { s: o.into(), r: br(g.span_open()), close: 0 });
                flatten(g.stream(), out);
                let j = out.len();
                out.push(Tok { s: c.into(), r: br(g.span_close()), close: j });
                out[i].close = j;
            }
            t => {
                let i = out.len();
                out.push(Tok { s: t.to_string(), r: br(t.span()), close: i });
            }
        }
    }
}

fn toks_at(text: &str, base: usize) -> Vec<Tok> {
    // lexing a fresh string gives spans relative to a new source file, so shift them
    let ts: TokenStream = match text.parse() {
        Ok(t) => t,
        Err(e) => fail(format!("cannot lex {:?}: {}", text, e)),
    };
    let mut v = Vec::new();
    flatten(ts, &mut v);
    if v.is_empty() {
        return v;
    }
    for t in v.iter_mut() {
        t.r.start += base;
        t.r.end += base;
    }
    v
}

/// match a token pattern with metavariables `$x` (one token tree) and `$$x` (shortest run of trees)
fn match_at(
    toks: &[Tok],
    mut i: usize,
    pat: &[Tok],
    mut p: usize,
    b: &mut HashMap<String, Range<usize>>,
) -> Option<usize> {
    while p < pat.len() {
        if pat[p].s == "$" {
            if p + 1 < pat.len() && pat[p + 1].s == "$" {
                let name = pat[p + 2].s.clone();
                let mut k = i;
                loop {
                    let mut b2 = b.clone();
                    let r = if k > i { toks[i].r.start..toks[k - 1].r.end } else { let s = if i < toks.len() { toks[i].r.start } else { toks[i-1].r.end }; s..s };
                    b2.insert(name.clone(), r);
                    if let Some(e) = match_at(toks, k, pat, p + 3, &mut b2) {
                        *b = b2;
                        return Some(e);
                    }
                    if k >= toks.len() || matches!(toks[k].s.as_str(), ")" | "}" | "]" | ";") {
                        return None;
                    }
                    k = toks[k].close + 1;
                }
            }
            let name = pat[p + 1].s.clone();
            if i >= toks.len() || matches!(toks[i].s.as_str(), ")" | "}" | "]") {
                return None;
            }
            let e = toks[i].close;
            b.insert(name, toks[i].r.start..toks[e].r.end);
            i = e + 1;
            p += 2;
        } else {
            // a trailing comma before a closing delimiter changes nothing
            if i + 1 < toks.len() && toks[i].s == "," && matches!(pat[p].s.as_str(), ")" | "}" | "]") && toks[i + 1].s == pat[p].s {
                i += 1;
            }
            if i >= toks.len() || toks[i].s != pat[p].s {
                return None;
            }
            i += 1;
            p += 1;
        }
    }
    Some(i)
}

fn subst(rep: &str, b: &HashMap<String, Range<usize>>, text: &str) -> String {
    let mut out = rep.to_string();
    let mut names: Vec<_> = b.keys().cloned().collect();
    names.sort_by_key(|n| std::cmp::Reverse(n.len()));
    for n in names {
        out = out.replace(&format!("${}", n), &text[b[&n].clone()]);
    }
    out
}

fn norm(s: &str) -> String {
    let ts: TokenStream = match s.parse() {
        Ok(t) => t,
        Err(e) => fail(format!("cannot lex selector {:?}: {}", s, e)),
    };
    let mut v = Vec::new();
    flatten(ts, &mut v);
    v.iter().map(|t| t.s.clone()).collect::<Vec<_>>().join("")
}

fn bare(s: &str) -> String {
    // drop generic arguments and path prefixes of a normalised path
    let mut depth = 0;
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '<' => depth += 1,
            '>' => depth -= 1,
            c if depth == 0 => o.push(c),
            _ => {}
        }
    }
    o.rsplit("::").next().unwrap().to_string()
}

struct FnRef<'a> {
    sig: &'a syn::Signature,
    block: Option<&'a syn::Block>,
}

impl Src {
    fn load(path: &str) -> Src {
        let text = match std::fs::read_to_string(path) {
            Ok(t) => t,
            Err(e) => fail(format!("cannot read {}: {}", path, e)),
        };
        // syn's span-locations count from the start of the parsed string
        let ast = match syn::parse_file(&text) {
            Ok(a) => a,
            Err(e) => fail(format!("cannot parse {}: {}", path, e)),
        };
        Src { text, ast }
    }

    fn impl_matches(i: &syn::ItemImpl, sel: &str, text: &str, base: usize) -> bool {
        let self_ty = norm(&text[rel(br(i.self_ty.span()), base)]);
        match &i.trait_ {
            Some((_, p, _)) => {
                let tr = norm(&text[rel(br(p.span()), base)]);
                if let Some((t, s)) = sel.split_once(" for ") {
                    let (t, s) = (norm(t), norm(s));
                    let tm = if t.contains('<') { t == tr } else { t == bare(&tr) };
                    let sm = if s.contains('<') { s == self_ty } else { s == bare(&self_ty) };
                    tm && sm
                } else {
                    false
                }
            }
            None => {
                if sel.contains(" for ") {
                    return false;
                }
                let s = norm(sel);
                if s.contains('<') { s == self_ty } else { s == bare(&self_ty) }
            }
        }
    }

    /// proc_macro2 byte ranges are relative to the parsed file
    fn base(&self) -> usize {
        0
    }

    fn items(&self) -> Vec<&syn::Item> {
        // all items that are not test-only, including those of inline modules
        fn walk<'a>(is: &'a [syn::Item], v: &mut Vec<&'a syn::Item>) {
            for i in is {
                if is_test(i) {
                    continue;
                }
                v.push(i);
                if let syn::Item::Mod(m) = i {
                    if let Some((_, c)) = &m.content {
                        walk(c, v);
                    }
                }
            }
        }
        let mut v = Vec::new();
        walk(&self.ast.items, &mut v);
        v
    }

    fn is_exact(&self, i: &syn::ItemImpl, sel: &str) -> bool {
        match (&i.trait_, sel.split_once(" for ")) {
            (Some((_, p, _)), Some((t, _))) => norm(&self.text[rel(br(p.span()), self.base())]) == norm(t),
            _ => false,
        }
    }

    /// `Serialize for X` also matches `rkyv::Serialize<S> for X` by its last segment: the literal trait path is preferred
    fn exact_trait(&self, sel: &str) -> bool {
        let sel = sel.split_once('#').map(|x| x.0.trim()).unwrap_or(sel);
        let mut n = 0;
        let mut ex = 0;
        for it in self.items() {
            if let syn::Item::Impl(i) = it {
                if Self::impl_matches(i, sel, &self.text, self.base()) {
                    n += 1;
                    if self.is_exact(i, sel) { ex += 1; }
                }
            }
        }
        n > ex && ex > 0
    }

    fn find_fn(&self, sel: &str, name: &str) -> Option<FnRef<'_>> {
        let base = self.base();
        let exact = self.exact_trait(sel);
        let mut found = Vec::new();
        for it in self.items() {
            match it {
                syn::Item::Fn(f) if sel == "-" && f.sig.ident == name => {
                    found.push(FnRef { sig: &f.sig, block: Some(&f.block) })
                }
                syn::Item::Impl(i) if Self::impl_matches(i, sel, &self.text, base) && (!exact || self.is_exact(i, sel)) => {
                    for x in &i.items {
                        if let syn::ImplItem::Fn(f) = x {
                            if f.sig.ident == name {
                                found.push(FnRef { sig: &f.sig, block: Some(&f.block) })
                            }
                        }
                    }
                }
                syn::Item::Trait(t) if sel.strip_prefix("trait ").map(|n| t.ident == n).unwrap_or(false) => {
                    for x in &t.items {
                        if let syn::TraitItem::Fn(f) = x {
                            if f.sig.ident == name {
                                found.push(FnRef { sig: &f.sig, block: f.default.as_ref() })
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        if found.len() == 1 { found.pop() } else { None }
    }

    fn find_impl(&self, sel: &str) -> Option<&syn::ItemImpl> {
        let base = self.base();
        let (sel, has) = match sel.split_once('#') {
            Some((a, b)) => (a.trim(), Some(b.trim())),
            None => (sel, None),
        };
        let mut v: Vec<_> = self
            .items()
            .into_iter()
            .filter_map(|i| match i {
                syn::Item::Impl(i) if Self::impl_matches(i, sel, &self.text, base) => match has {
                    Some(h) => {
                        if i.items.iter().any(|x| matches!(x, syn::ImplItem::Fn(f) if f.sig.ident == h)) { Some(i) } else { None }
                    }
                    None => Some(i),
                },
                _ => None,
            })
            .collect();
        if v.len() > 1 && self.exact_trait(sel) {
            v.retain(|i| self.is_exact(i, sel));
        }
        if v.len() == 1 { v.pop() } else { None }
    }
}

fn rel(r: Range<usize>, base: usize) -> Range<usize> {
    r.start - base..r.end - base
}

fn is_test(i: &syn::Item) -> bool {
    let attrs = match i {
        syn::Item::Mod(m) => &m.attrs,
        syn::Item::Fn(m) => &m.attrs,
        syn::Item::Impl(m) => &m.attrs,
        _ => return false,
    };
    attrs.iter().any(|a| {
        let s = quote::quote!(#a).to_string().replace(' ', "");
        s.contains("cfg(test)")
    })
}

#[derive(Default, Clone)]
struct FnSpec {
    ret: Option<String>,
    name: Option<String>,
    spec: String,
    start: String,
    end: String,
    loops: Vec<(usize, Option<String>, String)>,
    /// `for` loops turned into `loop { match it.next() { .. } }`
    for_loops: Vec<(usize, String)>,
    loop_starts: Vec<(usize, String)>,
    loop_ends: Vec<(usize, String)>,
    closures: Vec<(usize, String)>,
    before: Vec<(String, String)>,
    after: Vec<(String, String)>,
    rw: Vec<(String, String)>,
    sigrw: Vec<(String, String)>,
    attrs: String,
    ghost_params: String,
    decl: bool,
}

#[derive(Default)]
struct Collect<'a> {
    loops: Vec<(&'a syn::Expr, usize, usize, usize, usize)>, // expr, open brace, after open, close brace, iter-expr start (for)
    closures: Vec<&'a syn::ExprClosure>,
    depth_stmts: Vec<Range<usize>>, // all statements
    breaks: Vec<(&'a syn::ExprBreak, Option<usize>)>, // with index of the innermost loop
    stack: Vec<usize>,
}

impl<'a> Visit<'a> for Collect<'a> {
    fn visit_expr(&mut self, e: &'a syn::Expr) {
        let mut pushed = false;
        match e {
            syn::Expr::ForLoop(l) => {
                self.stack.push(self.loops.len());
                pushed = true;
                self.loops.push((e, br(l.body.brace_token.span.open()).start, br(l.body.brace_token.span.open()).end, br(l.body.brace_token.span.close()).start, br(l.expr.span()).start));
            }
            syn::Expr::While(l) => {
                self.stack.push(self.loops.len());
                pushed = true;
                self.loops.push((e, br(l.body.brace_token.span.open()).start, br(l.body.brace_token.span.open()).end, br(l.body.brace_token.span.close()).start, 0));
            }
            syn::Expr::Loop(l) => {
                self.stack.push(self.loops.len());
                pushed = true;
                self.loops.push((e, br(l.body.brace_token.span.open()).start, br(l.body.brace_token.span.open()).end, br(l.body.brace_token.span.close()).start, 0));
            }
            syn::Expr::Closure(c) => self.closures.push(c),
            syn::Expr::Break(b) => self.breaks.push((b, self.stack.last().cloned())),
            _ => {}
        }
        visit::visit_expr(self, e);
        if pushed {
            self.stack.pop();
        }
    }
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        self.depth_stmts.push(br(s.span()));
        visit::visit_stmt(self, s);
    }
}

fn apply(text: &str, base: usize, mut edits: Vec<Edit>) -> String {
    edits.sort_by_key(|e| (e.0, e.2, e.1));
    let mut out = String::new();
    let mut pos = base;
    for (s, e, _, rep) in edits {
        if s < pos {
            fail(format!("overlapping edits near {:?}", rep));
        }
        out.push_str(&text[pos - base..s - base]);
        out.push_str(&rep);
        pos = e;
    }
    out.push_str(&text[pos - base..]);
    out
}

fn subst_word(t: &str, a: &str, b: &str) -> String {
    let id = |c: char| c.is_alphanumeric() || c == '_';
    let mut o = String::new();
    let mut rest = t;
    let mut prev = ' ';
    while let Some(p) = rest.find(a) {
        let before = rest[..p].chars().last().unwrap_or(prev);
        let after = rest[p + a.len()..].chars().next().unwrap_or(' ');
        o.push_str(&rest[..p]);
        o.push_str(if id(before) || id(after) { a } else { b });
        prev = a.chars().last().unwrap();
        rest = &rest[p + a.len()..];
    }
    o.push_str(rest);
    o
}

struct Gen {
    repo: String,
    dep: String,
    srcs: HashMap<String, Src>,
    out: String,
    map: Vec<serde_json::Value>,
    external: Vec<String>,
    skip: Vec<String>,
    tdir: String,
    included: Vec<String>,
    subst: Vec<(String, String)>,
    alias: Vec<(String, String)>,
    defs: Vec<String>,
    vacuity: bool,
    tag: String,
    tags: Vec<(usize, String)>,
}

impl Gen {
    fn src(&mut self, f: &str) -> &Src {
        if !self.srcs.contains_key(f) {
            let path = match f.strip_prefix("dep:") {
                Some(p) => format!("{}/{}", self.dep, p),
                None => format!("{}/{}", self.repo, f),
            };
            let s = Src::load(&path);
            self.srcs.insert(f.to_string(), s);
        }
        &self.srcs[f]
    }

    fn line(&self) -> usize {
        self.out.matches('\n').count() + 1
    }

    fn emit_fn(&mut self, file: &str, sel: &str, name: &str, sp: &FnSpec) {
        let external = {
            let key = format!("{}|{}|{}", file, sel, name);
            self.external.iter().any(|e| *e == key)
        };
        let start_line = self.line();
        let vacuity = self.vacuity;
        let mut notes: Vec<String> = Vec::new();
        let mut shape: Vec<String> = Vec::new();
        let text;
        let src_line;
        let has_body;
        if self.skip.iter().any(|e| *e == format!("{}|{}|{}", file, sel, name)) {
            return;
        }
        {
            let src = self.src(file);
            let base = src.base();
            let f = match src.find_fn(sel, name) {
                Some(f) => f,
                None => fail(format!("anchor-lost {}|{}|{}", file, sel, name)),
            };
            let t = &src.text;
            let get = |r: Range<usize>| t[rel(r, base)].to_string();
            has_body = f.block.is_some();
            src_line = f.sig.span().start().line;
            let mut o = String::new();
            let sig = f.sig;
            if sig.unsafety.is_some() {
                notes.push("unsafe fn keyword dropped".into());
            }
            // signature
            let mut s = String::new();
            let g = &sig.generics;
            let gen_txt = if g.lt_token.is_some() {
                get(br(g.lt_token.unwrap().span).start..br(g.gt_token.unwrap().span).end)
            } else {
                String::new()
            };
            let prange = br(sig.paren_token.span.open()).end..br(sig.paren_token.span.close()).start;
            let mut pedits: Vec<Edit> = Vec::new();
            for (k, a) in sig.inputs.iter().enumerate() {
                if let syn::FnArg::Typed(pt) = a {
                    if let syn::Pat::Wild(w) = &*pt.pat {
                        let r = br(w.underscore_token.span);
                        pedits.push((r.start, r.end, 0, format!("_vx{}", k)));
                    }
                }
            }
            let mut params = apply(&get(prange.clone()), prange.start, pedits);
            if !sp.ghost_params.trim().is_empty() {
                params = format!("{}, {}", params.trim_end().trim_end_matches(','), sp.ghost_params.trim());
            }
            let _ = write!(s, "fn {}{}({})", sp.name.clone().unwrap_or(name.to_string()), gen_txt, params);
            if let syn::ReturnType::Type(_, ty) = &sig.output {
                let ty = get(br(ty.span()));
                match &sp.ret {
                    Some(r) => {
                        let _ = write!(s, " -> ({}: {})", r, ty);
                    }
                    None => {
                        let _ = write!(s, " -> {}", ty);
                    }
                }
            }
            if let Some(w) = &g.where_clause {
                let _ = write!(s, " {}", get(br(w.span())));
            }
            for (p, r) in &sp.sigrw {
                let (s2, n) = rewrite(&s, p, r);
                if n == 0 {
                    shape.push(format!("signature rewrite `{}` does not apply", p));
                }
                notes.push(format!("signature: `{}` => `{}`", p, r));
                s = s2;
            }
            if external {
                o.push_str("#[verifier::external_body] ");
            }
            o.push_str(&sp.attrs);
            o.push_str(&s);
            o.push('\n');
            o.push_str(&sp.spec);
            if let (Some(b), false) = (f.block, sp.decl) {
                let mut edits: Vec<Edit> = Vec::new();
                let bopen = br(b.brace_token.span.open());
                let bclose = br(b.brace_token.span.close());
                let mut c = Collect::default();
                for st in &b.stmts {
                    c.visit_stmt(st);
                }
                // break-with-value in a tail loop -> return
                let tail_loop = match b.stmts.last() {
                    Some(syn::Stmt::Expr(e, None)) => c.loops.iter().position(|l| std::ptr::eq(l.0, e)),
                    _ => None,
                };
                for (brk, inner) in &c.breaks {
                    if brk.expr.is_some() && brk.label.is_none() && *inner == tail_loop && tail_loop.is_some() {
                        let r = br(brk.break_token.span);
                        edits.push((r.start, r.end, 5, "return".into()));
                        notes.push("`break v` in a tail-position loop => `return v`".into());
                    }
                }
                for (k, itn, inv) in &sp.loops {
                    match c.loops.get(*k) {
                        Some(l) => {
                            if let Some(n) = itn {
                                edits.push((l.4, l.4, 4, format!("{}: ", n)));
                            }
                            edits.push((l.1, l.1, 5, format!("\n{}\n", inv)));
                        }
                        None => shape.push(format!("loop {} not found", k)),
                    }
                }
                for (k, inv) in &sp.for_loops {
                    match c.loops.get(*k) {
                        Some((syn::Expr::ForLoop(l), bo, _, bc, es)) if l.label.is_none() => {
                            let f0 = br(l.for_token.span).start;
                            let pat = get(br(l.pat.span()));
                            let ee = br(l.expr.span()).end;
                            edits.push((f0, *es, 5, format!("{{ let mut vx_it{} = ", k)));
                            edits.push((ee, *bo, 5, format!(";\nlet ghost vx_s{0} = vx_it{0}.remaining();\nloop\n{1}\n{{ match vx_it{0}.next() {{ Some({2}) => ", k, inv, pat)));
                            edits.push((*bc + 1, *bc + 1, 5, " None => break } } }".into()));
                            notes.push("`for p in e {..}` => `loop { match it.next() { Some(p) => {..} None => break } }`".into());
                        }
                        _ => shape.push(format!("for loop {} not found", k)),
                    }
                }
                if c.loops.len() > sp.loops.len() + sp.for_loops.len() && c.loops.len() > 0 {
                    shape.push(format!("{} loops, contract covers {}", c.loops.len(), sp.loops.len() + sp.for_loops.len()));
                }
                for (k, tx) in &sp.loop_starts {
                    match c.loops.get(*k) {
                        Some(l) => edits.push((l.2, l.2, 5, format!("\n{}\n", tx))),
                        None => shape.push(format!("loop {} not found", k)),
                    }
                }
                for (k, tx) in &sp.loop_ends {
                    match c.loops.get(*k) {
                        Some(l) => edits.push((l.3, l.3, 5, format!("\n;\n{}\n", tx))),
                        None => shape.push(format!("loop {} not found", k)),
                    }
                }
                for (k, tx) in &sp.closures {
                    match c.closures.get(*k) {
                        Some(cl) => {
                            let s0 = br(cl.span()).start;
                            let b0 = br(cl.body.span());
                            edits.push((s0, b0.start, 4, format!("{} {{ ", tx)));
                            edits.push((b0.end, b0.end, 6, " }".into()));
                        }
                        None => shape.push(format!("closure {} not found", k)),
                    }
                }
                if c.closures.len() > sp.closures.len() {
                    notes.push(format!("{} closure(s) without contract", c.closures.len() - sp.closures.len()));
                }
                // token patterns
                let body_toks = {
                    let whole = &t[rel(bopen.start..bclose.end, base)];
                    toks_at(whole, bopen.start)
                };
                for (kind, list) in [(0, &sp.before), (1, &sp.after)] {
                    for (p, tx) in list {
                        let pt = toks_at(p, 0);
                        let mut hit = None;
                        for i in 0..body_toks.len() {
                            let mut bb = HashMap::new();
                            if let Some(e) = match_at(&body_toks, i, &pt, 0, &mut bb) {
                                hit = Some(body_toks[i].r.start..body_toks[e - 1].r.end);
                                break;
                            }
                        }
                        match hit {
                            Some(h) => {
                                let st = c
                                    .depth_stmts
                                    .iter()
                                    .filter(|s| s.start <= h.start && s.end >= h.end)
                                    .min_by_key(|s| s.end - s.start);
                                match st {
                                    Some(s) if kind == 0 => edits.push((s.start, s.start, 3, format!("\n{}\n", tx))),
                                    Some(s) => edits.push((s.end, s.end, 7, format!("\n{}\n", tx))),
                                    None => shape.push(format!("no statement for `{}`", p)),
                                }
                            }
                            None => shape.push(format!("anchor `{}` not found", p)),
                        }
                    }
                }
                for (p, r) in &sp.rw {
                    let pt = toks_at(p, 0);
                    let mut i = 0;
                    let mut n = 0;
                    while i < body_toks.len() {
                        let mut bb = HashMap::new();
                        if let Some(e) = match_at(&body_toks, i, &pt, 0, &mut bb) {
                            if e > i {
                                // shift ranges so that subst can slice the text
                                let bb2 = bb.into_iter().map(|(k, v)| (k, rel(v, base))).collect();
                                edits.push((body_toks[i].r.start, body_toks[e - 1].r.end, 5, subst(r, &bb2, t)));
                                n += 1;
                                i = e;
                                continue;
                            }
                        }
                        i += 1;
                    }
                    if n > 0 {
                        notes.push(format!("rewrite `{}` => `{}` ({}x)", p, r, n));
                    } else {
                        notes.push(format!("rewrite `{}` does not apply", p));
                    }
                }
                if !sp.end.trim().is_empty() {
                    let has_ret = body_toks.iter().any(|t| t.s == "return" || t.s == "?");
                    if has_ret {
                        shape.push("early return with an end-block".into());
                    }
                    edits.push((bopen.end, bopen.end, 9, format!("\n{}\nlet vx_r = {{", sp.start)));
                    edits.push((bclose.start, bclose.start, 9, format!("}};\n{}\nvx_r\n", sp.end)));
                } else {
                    edits.push((bopen.end, bopen.end, 9, format!("\n{}\n", sp.start)));
                }
                let whole = &t[rel(bopen.start..bclose.end, base)];
                if vacuity {
                    edits.push((bopen.end, bopen.end, 10, " proof { assert(false); } ".into()));
                }
                if external {
                    o.push_str("{ unimplemented!() }\n");
                } else {
                    o.push_str(&apply(whole, bopen.start, edits));
                }
                o.push('\n');
            } else {
                o.push_str(";\n");
            }
            text = o;
        }
        self.out.push_str(&text);
        let end_line = self.line();
        self.map.push(serde_json::json!({
            "file": file, "sel": sel, "name": name, "src_line": src_line,
            "out_start": start_line, "out_end": end_line, "external": external, "decl": sp.decl || !has_body,
            "notes": notes, "shape": shape, "tag": self.tag,
        }));
    }

    fn set_tag(&mut self, t: String) {
        self.tag = t.clone();
        let l = self.line();
        self.tags.push((l, t));
    }

    fn run(&mut self, path: &str) {
        let tpl = match std::fs::read_to_string(path) {
            Ok(t) => t,
            Err(e) => fail(format!("cannot read template {}: {}", path, e)),
        };
        // `subst` rewrites whole words of the contract text (never of the extracted source)
        let tpl = self.subst.iter().fold(tpl, |t, (a, b)| subst_word(&t, a, b));
        // `unless X` .. `endunless` and `when X` .. `endwhen` select parts of the contract text by what was `define`d
        let mut keep = true;
        let mut kept = Vec::new();
        for l in tpl.lines() {
            let d = l.trim();
            if let Some(x) = d.strip_prefix("//@ unless ") {
                keep = !self.defs.iter().any(|y| y == x.trim());
            } else if let Some(x) = d.strip_prefix("//@ when ") {
                keep = self.defs.iter().any(|y| y == x.trim());
            } else if d == "//@ endunless" || d == "//@ endwhen" {
                keep = true;
            } else if keep {
                kept.push(l);
            }
        }
        let lines: Vec<&str> = kept;
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i];
            let tl = l.trim_start();
            if !tl.starts_with("//@") {
                self.out.push_str(l);
                self.out.push('\n');
                i += 1;
                continue;
            }
            let d = tl[3..].trim();
            if let Some(f) = d.strip_prefix("include ") {
                let f = f.trim().to_string();
                let f = self.alias.iter().find(|(a, _)| *a == f).map(|(_, b)| b.clone()).unwrap_or(f);
                let key = format!("{} {:?}", f, self.subst);
                if !self.included.contains(&key) {
                    self.included.push(key);
                    let p = format!("{}/{}", self.tdir, f);
                    let tag = self.tag.clone();
                    self.run(&p);
                    self.set_tag(tag);
                }
                i += 1;
            } else if let Some(x) = d.strip_prefix("define ") {
                self.defs.push(x.trim().to_string());
                i += 1;
            } else if let Some(x) = d.strip_prefix("unsubst ") {
                self.subst.retain(|(a, _)| !x.split_whitespace().any(|y| y == a));
                i += 1;
            } else if d == "unsubst" {
                self.subst.clear();
                i += 1;
            } else if let Some(r) = d.strip_prefix("subst ") {
                let (a, b) = r.trim().split_once(' ').unwrap();
                self.subst.push((a.to_string(), b.trim().to_string()));
                i += 1;
            } else if let Some(r) = d.strip_prefix("alias ") {
                let (a, b) = r.trim().split_once(' ').unwrap();
                self.alias.push((a.to_string(), b.trim().to_string()));
                i += 1;
            } else if let Some(r) = d.strip_prefix("struct ") {
                // struct <file> <name> [rw...]
                let mut it = r.split_whitespace();
                let (f, n) = (it.next().unwrap().to_string(), it.next().unwrap().to_string());
                let mut o = String::new();
                {
                    let src = self.src(&f);
                    let base = src.base();
                    let mut found = false;
                    for item in src.items() {
                        match item {
                            syn::Item::Struct(s) if s.ident == n => {
                                found = true;
                                let from = br(s.struct_token.span).start;
                                let to = br(s.span()).end;
                                o = strip_vis(&src.text[rel(from..to, base)]);
                            }
                            syn::Item::Enum(s) if s.ident == n => {
                                found = true;
                                let from = br(s.enum_token.span).start;
                                let to = br(s.span()).end;
                                o = strip_vis(&src.text[rel(from..to, base)]);
                            }
                            _ => {}
                        }
                    }
                    if !found {
                        fail(format!("anchor-lost {}|struct|{}", f, n));
                    }
                }
                i += 1;
                while i < lines.len() && lines[i].trim_start().starts_with("//@ rw ") {
                    let (p, r) = parse_rw(lines[i].trim_start()[3..].trim().strip_prefix("rw ").unwrap());
                    o = rewrite(&o, &p, &r).0;
                    i += 1;
                }
                self.out.push_str(&o);
                self.out.push('\n');
            } else if let Some(r) = d.strip_prefix("head ") {
                let (f, sel) = r.split_once(' ').unwrap();
                let (f, sel) = (f.trim().to_string(), sel.trim().to_string());
                let mut o;
                {
                    let src = self.src(&f);
                    let base = src.base();
                    let im = match src.find_impl(&sel) {
                        Some(im) => im,
                        None => fail(format!("anchor-lost {}|head|{}", f, sel)),
                    };
                    let from = br(im.impl_token.span).start;
                    let to = br(im.brace_token.span.open()).end;
                    o = src.text[rel(from..to, base)].to_string();
                }
                i += 1;
                while i < lines.len() && lines[i].trim_start().starts_with("//@ rw ") {
                    let (p, r) = parse_rw(lines[i].trim_start()[3..].trim().strip_prefix("rw ").unwrap());
                    // the header ends in an open brace; rewrite without it
                    let h = o.trim_end().trim_end_matches('{').to_string();
                    o = format!("{} {{", rewrite(&h, &p, &r).0);
                    i += 1;
                }
                self.out.push_str(&o);
                self.out.push('\n');
            } else if let Some(r) = d.strip_prefix("types ") {
                // associated types of an impl, verbatim
                let (f, sel) = r.split_once(' ').unwrap();
                let (f, sel) = (f.trim().to_string(), sel.trim().to_string());
                let mut o = String::new();
                {
                    let src = self.src(&f);
                    let base = src.base();
                    let im = match src.find_impl(&sel) {
                        Some(im) => im,
                        None => fail(format!("anchor-lost {}|types|{}", f, sel)),
                    };
                    for x in &im.items {
                        if let syn::ImplItem::Type(t) = x {
                            o.push_str(&src.text[rel(br(t.type_token.span).start..br(t.semi_token.span).end, base)]);
                            o.push('\n');
                        }
                    }
                }
                self.out.push_str(&o);
                i += 1;
            } else if let Some(r) = d.strip_prefix("fn ") {
                let parts: Vec<String> = r.split('|').map(|s| s.trim().to_string()).collect();
                if parts.len() != 3 {
                    fail(format!("bad fn directive {:?}", r));
                }
                i += 1;
                let mut sp = FnSpec::default();
                // sections
                let mut cur: Option<(String, String)> = None;
                macro_rules! flush {
                    () => {
                        if let Some((k, body)) = cur.take() {
                            add_section(&mut sp, &k, body);
                        }
                    };
                }
                loop {
                    if i >= lines.len() {
                        fail(format!("unterminated fn {:?}", r));
                    }
                    let l = lines[i];
                    let tl = l.trim_start();
                    i += 1;
                    if let Some(d) = tl.strip_prefix("//@") {
                        let d = d.trim();
                        flush!();
                        if d == "endfn" {
                            break;
                        }
                        cur = Some((d.to_string(), String::new()));
                    } else {
                        match &mut cur {
                            Some((_, b)) => {
                                b.push_str(l);
                                b.push('\n');
                            }
                            None => {
                                sp.spec.push_str(l);
                                sp.spec.push('\n');
                            }
                        }
                    }
                }
                self.emit_fn(&parts[0], &parts[1], &parts[2], &sp);
            } else if let Some(r) = d.strip_prefix("forbid ") {
                // forbid <file> <Trait>[/<Type>] name name...: no impl of Trait in file may define these methods
                let mut it = r.split_whitespace();
                let f = it.next().unwrap().to_string();
                let tr = it.next().unwrap().to_string();
                let names: Vec<String> = it.map(|s| s.to_string()).collect();
                {
                    let src = self.src(&f);
                    for item in src.items() {
                        if let syn::Item::Impl(im) = item {
                            if let Some((_, p, _)) = &im.trait_ {
                                let (tn, sn) = tr.split_once('/').unwrap_or((&tr, ""));
                                let own = if let syn::Type::Path(t) = &*im.self_ty { t.path.segments.last().unwrap().ident.to_string() } else { String::new() };
                                if p.segments.last().unwrap().ident == tn && (sn.is_empty() || sn == own) {
                                    for x in &im.items {
                                        let id = match x {
                                            syn::ImplItem::Fn(f) => f.sig.ident.to_string(),
                                            syn::ImplItem::Const(f) => f.ident.to_string(),
                                            _ => continue,
                                        };
                                        if names.contains(&id) {
                                            fail(format!("unsupported {}|{} overrides {}", f, tr, id));
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                i += 1;
            } else if let Some(r) = d.strip_prefix("tag ") {
                self.set_tag(r.trim().to_string());
                i += 1;
            } else if d.starts_with("#") || d.is_empty() {
                i += 1;
            } else {
                fail(format!("unknown directive {:?}", d));
            }
        }
    }
}

fn strip_vis(s: &str) -> String {
    let toks = toks_at(s, 0);
    let mut edits: Vec<Edit> = Vec::new();
    let mut i = 0;
    while i < toks.len() {
        if toks[i].s == "pub" {
            let st = toks[i].r.start;
            let mut en = toks[i].r.end;
            if i + 1 < toks.len() && toks[i + 1].s == "(" && i + 2 < toks.len() && matches!(toks[i + 2].s.as_str(), "crate" | "super" | "self") {
                en = toks[toks[i + 1].close].r.end;
                i = toks[i + 1].close;
            }
            edits.push((st, en, 0, String::new()));
        }
        if toks[i].s == "#" && i + 1 < toks.len() && toks[i + 1].s == "[" {
            let c = toks[i + 1].close;
            edits.push((toks[i].r.start, toks[c].r.end, 0, String::new()));
            i = c;
        }
        i += 1;
    }
    apply(s, 0, edits)
}

fn rewrite(s: &str, p: &str, r: &str) -> (String, usize) {
    let toks = toks_at(s, 0);
    let pt = toks_at(p, 0);
    let mut edits: Vec<Edit> = Vec::new();
    let mut i = 0;
    while i < toks.len() {
        let mut bb = HashMap::new();
        if let Some(e) = match_at(&toks, i, &pt, 0, &mut bb) {
            if e > i {
                edits.push((toks[i].r.start, toks[e - 1].r.end, 0, subst(r, &bb, s)));
                i = e;
                continue;
            }
        }
        i += 1;
    }
    let n = edits.len();
    (apply(s, 0, edits), n)
}

fn parse_rw(s: &str) -> (String, String) {
    let v: Vec<&str> = s.split('`').collect();
    if v.len() < 4 {
        fail(format!("bad rw {:?}", s));
    }
    (v[1].to_string(), v[3].to_string())
}

fn add_section(sp: &mut FnSpec, k: &str, body: String) {
    let w: Vec<&str> = k.split_whitespace().collect();
    match w[0] {
        "ret" => {
            sp.ret = Some(w[1].to_string());
            sp.spec.push_str(&body);
        }
        "name" => {
            sp.name = Some(w[1].to_string());
            sp.spec.push_str(&body);
        }
        "ghost" => {
            sp.ghost_params = k["ghost".len()..].to_string();
            sp.spec.push_str(&body);
        }
        "attr" => {
            sp.attrs.push_str(&k["attr".len()..]);
            sp.attrs.push(' ');
            sp.spec.push_str(&body);
        }
        "spec" => sp.spec.push_str(&body),
        "decl" => {
            sp.decl = true;
            sp.spec.push_str(&body);
        }
        "start" => sp.start.push_str(&body),
        "end" => sp.end.push_str(&body),
        "loop" => {
            let n: usize = w[1].parse().unwrap();
            let it = if w.get(2) == Some(&"iter") { Some(w[3].to_string()) } else { None };
            sp.loops.push((n, it, body))
        }
        "forloop" => sp.for_loops.push((w[1].parse().unwrap(), body)),
        "loopstart" => sp.loop_starts.push((w[1].parse().unwrap(), body)),
        "loopend" => sp.loop_ends.push((w[1].parse().unwrap(), body)),
        "closure" => {
            let rest = k.splitn(3, ' ').nth(2).unwrap_or("").to_string();
            sp.closures.push((w[1].parse().unwrap(), format!("{}{}", rest, body)));
        }
        "before" => {
            let p: Vec<&str> = k.split('`').collect();
            sp.before.push((p[1].to_string(), body));
        }
        "after" => {
            let p: Vec<&str> = k.split('`').collect();
            sp.after.push((p[1].to_string(), body));
        }
        "rw" => {
            sp.rw.push(parse_rw(k));
            sp.spec.push_str(&body);
        }
        "sigrw" => {
            sp.sigrw.push(parse_rw(k));
            sp.spec.push_str(&body);
        }
        _ => fail(format!("unknown section {:?}", k)),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut repo = "/repo".to_string();
    let mut dep = String::new();
    let mut external = Vec::new();
    let mut vacuity = false;
    let mut skip = Vec::new();
    let mut pos = Vec::new();
    let mut it = args.into_iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--repo" => repo = it.next().unwrap(),
            "--dep" => dep = it.next().unwrap(),
            "--vacuity" => vacuity = true,
            "--skip" => skip = it.next().unwrap().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
            "--external" => external = it.next().unwrap().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
            _ => pos.push(a),
        }
    }
    let tdir = std::path::Path::new(&pos[0]).parent().unwrap().to_str().unwrap().to_string();
    let mut g = Gen { repo, dep, srcs: HashMap::new(), out: String::new(), map: vec![], external, skip, tdir, included: vec![], subst: vec![], alias: vec![], defs: vec![], vacuity, tag: "base".into(), tags: vec![(1, "base".into())] };
    g.run(&pos[0]);
    std::fs::write(&pos[1], &g.out).unwrap();
    std::fs::write(&pos[2], serde_json::to_string_pretty(&serde_json::json!({"functions": g.map, "tags": g.tags})).unwrap()).unwrap();
}
