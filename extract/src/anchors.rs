//! Places proof hints relative to what the code does.
//!
//! Anchors: `start`, `end` (before the tail expression or at the end), `loop K before|start|end|after`,
//! `call NAME N before|after` (the statement that contains the N-th call of NAME, 1-based, `*` for all),
//! `let NAME N after` (the N-th binding of NAME), `arm TEXT N start|end` (N-th match arm whose pattern starts with TEXT),
//! `return N before`, `ok N before` (the N-th statement that returns or evaluates to Ok(..)).
use crate::Report;
use quote::ToTokens;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// Where an anchor was on the verified tree: the statement's text without nested blocks, its rank among the equal ones,
/// its depth and rank at that depth. The N-th call of a changed function need not be the same call.
#[derive(Clone, Default)]
pub struct Place {
    pub text: String,
    pub ord: usize,
    pub depth: usize,
    pub rank: usize,
}

pub fn attach(fid: &str, block: &mut Block, hooks: &[(String, String, Option<Place>)], report: &mut Report) {
    for (anchor, hook, place) in hooks {
        let w: Vec<&str> = anchor.split_whitespace().collect();
        let stmt: Stmt = parse_quote!(vx_hook!(#hook););
        let placed = match w[0] {
            "start" => {
                block.stmts.insert(0, stmt);
                true
            }
            "end" => {
                insert_end(block, stmt);
                true
            }
            "loop" => {
                let mut v = LoopAt { want: format!("{}#{}", fid, w[1]), place: w[2].into(), stmt, done: false };
                v.visit_block_mut(block);
                v.done
            }
            "arm" => {
                let mut v = ArmAt { text: w[1].into(), n: w[2].parse().unwrap_or(1), seen: 0, end: w[3] == "end", stmt, done: false };
                v.visit_block_mut(block);
                v.done
            }
            "then" | "else" => {
                // then NAME N: the branch of the N-th if whose condition calls or mentions NAME
                let mut v = IfAt { text: w[1].into(), n: w[2].parse().unwrap_or(1), seen: 0, els: w[0] == "else", stmt, done: false };
                v.visit_block_mut(block);
                v.done
            }
            "call" | "let" | "return" | "assign" => {
                let (name, n, side) = if w[0] == "return" { ("", w[1], "before") } else { (w[1], w[2], w[3]) };
                let mut v = StmtAt {
                    kind: w[0].into(),
                    name: name.into(),
                    n: if n == "*" { 0 } else { n.parse().unwrap_or(1) },
                    seen: 0,
                    before: side == "before",
                    stmt,
                    done: false,
                };
                if v.n != 0 {
                    v.locate(fid, anchor, block, place.as_ref(), report);
                }
                v.visit_block_mut(block);
                v.done
            }
            _ => false,
        };
        if !placed {
            report.missing.push(format!("{fid}: {anchor}"));
        }
    }
}

fn insert_end(b: &mut Block, s: Stmt) {
    let n = b.stmts.len();
    let tail = match b.stmts.last() {
        Some(Stmt::Expr(_, None)) => true,
        Some(Stmt::Expr(Expr::Return(_) | Expr::Continue(_) | Expr::Break(_), _)) => true,
        _ => false,
    };
    if tail {
        // a loop or an if as last expression is no value
        if let Some(Stmt::Expr(Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_), None)) = b.stmts.last() {
            b.stmts.push(s);
            return;
        }
        b.stmts.insert(n - 1, s);
    } else {
        b.stmts.push(s);
    }
}

struct LoopAt {
    want: String,
    place: String,
    stmt: Stmt,
    done: bool,
}

fn loop_id(b: &Block) -> Option<String> {
    if let Some(Stmt::Macro(m)) = b.stmts.first() {
        if m.mac.path.is_ident("vx_loop") {
            let s: LitStr = m.mac.parse_body().ok()?;
            return Some(s.value());
        }
    }
    None
}

fn expr_loop_id(e: &Expr) -> Option<String> {
    match e {
        Expr::While(w) => loop_id(&w.body),
        Expr::Loop(w) => loop_id(&w.body),
        _ => None,
    }
}

impl VisitMut for LoopAt {
    fn visit_block_mut(&mut self, b: &mut Block) {
        if !self.done && (self.place == "before" || self.place == "after") {
            for k in 0..b.stmts.len() {
                let id = match &b.stmts[k] {
                    Stmt::Expr(e, _) => expr_loop_id(e),
                    _ => None,
                };
                if id.as_deref() == Some(&self.want) {
                    let at = if self.place == "before" { k } else { k + 1 };
                    b.stmts.insert(at, self.stmt.clone());
                    self.done = true;
                    return;
                }
            }
        }
        if !self.done && (self.place == "start" || self.place == "end") && loop_id(b).as_deref() == Some(&self.want) {
            if self.place == "start" {
                // after the generated bindings of the loop
                let mut k = 1;
                while k < b.stmts.len() {
                    let t = b.stmts[k].to_token_stream().to_string();
                    if t.starts_with("let ") && t.contains("vx_i") || t.starts_with("vx_i") {
                        k += 1;
                    } else {
                        break;
                    }
                }
                b.stmts.insert(k, self.stmt.clone());
            } else {
                insert_end(b, self.stmt.clone());
            }
            self.done = true;
            return;
        }
        visit_mut::visit_block_mut(self, b);
    }
}

struct ArmAt {
    text: String,
    n: usize,
    seen: usize,
    end: bool,
    stmt: Stmt,
    done: bool,
}

impl VisitMut for ArmAt {
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        let t = a.pat.to_token_stream().to_string().replace(' ', "");
        if !self.done && (t.starts_with(&self.text) || t.contains(&format!("::{}(", self.text))) {
            self.seen += 1;
            if self.seen == self.n {
                let s = self.stmt.clone();
                match &mut *a.body {
                    Expr::Block(b) => {
                        if self.end {
                            insert_end(&mut b.block, s);
                        } else {
                            b.block.stmts.insert(0, s);
                        }
                    }
                    other => {
                        let e = other.clone();
                        *other = parse_quote!({ #s #e });
                    }
                }
                self.done = true;
                return;
            }
        }
        visit_mut::visit_arm_mut(self, a);
    }
}

struct IfAt {
    text: String,
    n: usize,
    seen: usize,
    els: bool,
    stmt: Stmt,
    done: bool,
}

impl VisitMut for IfAt {
    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
        let t = i.cond.to_token_stream().to_string().replace(' ', "");
        if !self.done && t.contains(&self.text) {
            self.seen += 1;
            if self.seen == self.n {
                let s = self.stmt.clone();
                if self.els {
                    match &mut i.else_branch {
                        Some((_, e)) => match &mut **e {
                            Expr::Block(b) => {
                                b.block.stmts.insert(0, s);
                                self.done = true;
                            }
                            _ => {}
                        },
                        None => {
                            i.else_branch = Some((Default::default(), Box::new(parse_quote!({ #s }))));
                            self.done = true;
                        }
                    }
                } else {
                    i.then_branch.stmts.insert(0, s);
                    self.done = true;
                }
                return;
            }
        }
        visit_mut::visit_expr_if_mut(self, i);
    }
}

struct StmtAt {
    kind: String,
    name: String,
    n: usize,
    seen: usize,
    before: bool,
    stmt: Stmt,
    done: bool,
}

struct Count<'a> {
    name: &'a str,
    found: usize,
}

impl<'ast> Visit<'ast> for Count<'_> {
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        visit::visit_expr_method_call(self, m);
        if m.method == self.name {
            self.found += 1;
        }
    }
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        visit::visit_expr_call(self, c);
        let t = c.func.to_token_stream().to_string().replace(' ', "");
        let base = t.split("::<").next().unwrap_or("").to_string();
        if base == self.name || base.ends_with(&format!("::{}", self.name)) {
            self.found += 1;
        }
    }
    // blocks have statements of their own
    fn visit_block(&mut self, _: &'ast Block) {}
}

/// the text of a statement with its nested blocks left out
fn skeleton(t: proc_macro2::TokenStream, out: &mut String) {
    for t in t {
        match t {
            proc_macro2::TokenTree::Group(g) if g.delimiter() == proc_macro2::Delimiter::Brace => out.push_str("{} "),
            proc_macro2::TokenTree::Group(g) => {
                out.push_str(if g.delimiter() == proc_macro2::Delimiter::Bracket { "[ " } else { "( " });
                skeleton(g.stream(), out);
                out.push_str(") ");
            }
            t => {
                out.push_str(&t.to_string());
                out.push(' ');
            }
        }
    }
}

struct Cands<'a> {
    at: &'a StmtAt,
    depth: usize,
    seen: usize,
    /// calls before, calls in it, text, depth
    list: Vec<(usize, usize, String, usize)>,
}

impl VisitMut for Cands<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.depth += 1;
        for s in &mut b.stmts {
            let found = self.at.here(s);
            if found > 0 {
                let mut t = String::new();
                skeleton(s.to_token_stream(), &mut t);
                self.list.push((self.seen, found, t.replace('\t', " ").replace('\n', " "), self.depth));
            }
            self.seen += found;
            visit_mut::visit_stmt_mut(self, s);
        }
        self.depth -= 1;
    }
}

impl StmtAt {
    /// which call is meant
    fn locate(&mut self, fid: &str, anchor: &str, block: &mut Block, place: Option<&Place>, report: &mut Report) {
        let mut c = Cands { at: self, depth: 0, seen: 0, list: vec![] };
        c.visit_block_mut(block);
        let list = c.list;
        let mut pick = list.iter().position(|x| x.0 < self.n && x.0 + x.1 >= self.n);
        if let Some(p) = place {
            let same: Vec<usize> = (0..list.len()).filter(|&k| list[k].2 == p.text && list[k].3 == p.depth).collect();
            let level: Vec<usize> = (0..list.len()).filter(|&k| list[k].3 == p.depth).collect();
            if let Some(&k) = same.get(p.ord - 1) {
                pick = Some(k);
            } else if let Some(&k) = level.get(p.rank - 1) {
                pick = Some(k);
            }
        }
        if let Some(k) = pick {
            let (before, _, text, depth) = &list[k];
            let ord = list[..=k].iter().filter(|x| x.2 == *text && x.3 == *depth).count();
            let rank = list[..=k].iter().filter(|x| x.3 == *depth).count();
            report.places.push(format!("{fid}\t{anchor}\t{text}\t{ord}\t{depth}\t{rank}"));
            // the statement is found by any call in it
            let own = self.n > *before && self.n <= before + list[k].1;
            if !own {
                self.n = before + 1;
            }
        }
    }

    fn here(&self, s: &Stmt) -> usize {
        match self.kind.as_str() {
            "call" => {
                let mut c = Count { name: &self.name, found: 0 };
                c.visit_stmt(s);
                c.found
            }
            "let" => match s {
                Stmt::Local(l) => {
                    let t = l.pat.to_token_stream().to_string();
                    t.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == self.name) as usize
                }
                _ => 0,
            },
            "assign" => match s {
                Stmt::Expr(Expr::Assign(a), _) => {
                    let t = a.left.to_token_stream().to_string().replace(' ', "");
                    (t == self.name) as usize
                }
                _ => 0,
            },
            "return" => match s {
                Stmt::Expr(Expr::Return(_), _) => 1,
                _ => 0,
            },
            _ => 0,
        }
    }
}

impl VisitMut for StmtAt {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut k = 0;
        while k < b.stmts.len() {
            if self.done && self.n != 0 {
                return;
            }
            let found = self.here(&b.stmts[k]);
            let hit = found > 0 && (self.n == 0 || self.seen < self.n && self.seen + found >= self.n);
            self.seen += found;
            if hit {
                self.done = true;
                if self.before {
                    b.stmts.insert(k, self.stmt.clone());
                    k += 1;
                    if self.n == 0 {
                        visit_mut::visit_stmt_mut(self, &mut b.stmts[k]);
                    }
                } else {
                    if self.n == 0 {
                        visit_mut::visit_stmt_mut(self, &mut b.stmts[k]);
                    }
                    b.stmts.insert(k + 1, self.stmt.clone());
                    k += 1;
                }
            } else {
                visit_mut::visit_stmt_mut(self, &mut b.stmts[k]);
            }
            k += 1;
        }
    }
}
