//! mutate SRCDIR LIST [DISABLED]: rewrites every source file of the crate in place so that it holds all
//! mutants at once, each switched on by MT=<number> in the environment, and writes the list of
//! mutants. Used to measure the checks (see DESIGN.md), never by a check.
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::HashSet;
use syn::spanned::Spanned;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct M {
    file: String,
    next: u32,
    off: HashSet<u32>,
    list: Vec<String>,
    func: String,
}
impl M {
    fn id(&mut self, sp: Span, what: String) -> Option<Expr> {
        let i = self.next;
        self.next += 1;
        if self.off.contains(&i) {
            return None;
        }
        let w: String = what.split_whitespace().collect::<Vec<_>>().join(" ");
        self.list.push(format!("{}\t{}:{}\t{}\t{}", i, self.file, sp.start().line, self.func, w.chars().take(160).collect::<String>()));
        let l = LitInt::new(&format!("{}u32", i), Span::call_site());
        Some(parse_quote!(crate::mt(#l)))
    }
}
fn s(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string()
}
fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = s(a);
        t.contains("cfg (test)") || t.contains("cfg(test)")
    })
}
fn op(t: TokenStream) -> BinOp {
    parse2(t).unwrap()
}
fn has_let(e: &Expr) -> bool {
    s(e).contains("let ")
}
impl VisitMut for M {
    fn visit_item_mod_mut(&mut self, i: &mut ItemMod) {
        if !is_test(&i.attrs) {
            visit_mut::visit_item_mod_mut(self, i)
        }
    }
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        if let Some((_, p, _)) = &i.trait_ {
            let n = p.segments.last().unwrap().ident.to_string();
            if n == "Debug" || n == "Display" {
                return;
            }
        }
        visit_mut::visit_item_impl_mut(self, i)
    }
    fn visit_item_fn_mut(&mut self, i: &mut ItemFn) {
        if is_test(&i.attrs) || i.attrs.iter().any(|a| s(a).contains("test")) {
            return;
        }
        self.func = i.sig.ident.to_string();
        visit_mut::visit_item_fn_mut(self, i)
    }
    fn visit_impl_item_fn_mut(&mut self, i: &mut ImplItemFn) {
        self.func = i.sig.ident.to_string();
        visit_mut::visit_impl_item_fn_mut(self, i)
    }
    fn visit_trait_item_fn_mut(&mut self, i: &mut TraitItemFn) {
        self.func = i.sig.ident.to_string();
        visit_mut::visit_trait_item_fn_mut(self, i)
    }
    fn visit_item_const_mut(&mut self, _: &mut ItemConst) {}
    fn visit_item_static_mut(&mut self, _: &mut ItemStatic) {}
    fn visit_item_macro_mut(&mut self, _: &mut ItemMacro) {}
    fn visit_type_mut(&mut self, _: &mut Type) {}
    fn visit_generic_argument_mut(&mut self, _: &mut GenericArgument) {}
    fn visit_pat_mut(&mut self, _: &mut Pat) {}
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_expr_repeat_mut(&mut self, e: &mut ExprRepeat) {
        self.visit_expr_mut(&mut e.expr)
    }
    fn visit_stmt_mut(&mut self, st: &mut Stmt) {
        let orig = st.clone();
        visit_mut::visit_stmt_mut(self, st);
        let del = match &orig {
            Stmt::Expr(e, Some(_)) => matches!(e, Expr::Call(_) | Expr::MethodCall(_) | Expr::Try(_) | Expr::Assign(_) | Expr::Binary(_)),
            Stmt::Expr(e, None) => matches!(e, Expr::ForLoop(_)),
            Stmt::Macro(m) => !["println", "eprintln", "print"].iter().any(|n| m.mac.path.is_ident(n)),
            _ => false,
        };
        if del {
            if let Some(c) = self.id(orig.span(), format!("delete: {}", s(&orig))) {
                let inner = st.clone();
                *st = parse_quote!(if !#c { #inner });
            }
        }
    }
    fn visit_expr_if_mut(&mut self, e: &mut ExprIf) {
        let orig = e.cond.clone();
        visit_mut::visit_expr_if_mut(self, e);
        if !has_let(&orig) {
            if let Some(c) = self.id(orig.span(), format!("if true: {}", s(&orig))) {
                let x = e.cond.clone();
                e.cond = parse_quote!((#c || (#x)));
            }
            if let Some(c) = self.id(orig.span(), format!("if false: {}", s(&orig))) {
                let x = e.cond.clone();
                e.cond = parse_quote!((!#c && (#x)));
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let orig = e.clone();
        visit_mut::visit_expr_mut(self, e);
        let mut alts: Vec<Expr> = vec![];
        match &orig {
            Expr::Binary(b) => {
                let (l, r) = (&b.left, &b.right);
                let mut ops = vec![];
                let mut drop = false;
                match b.op {
                    BinOp::Lt(_) => ops.push(op(quote!(<=))),
                    BinOp::Le(_) => ops.push(op(quote!(<))),
                    BinOp::Gt(_) => ops.push(op(quote!(>=))),
                    BinOp::Ge(_) => ops.push(op(quote!(>))),
                    BinOp::Eq(_) => ops.push(op(quote!(!=))),
                    BinOp::Ne(_) => ops.push(op(quote!(==))),
                    BinOp::Add(_) => {
                        ops.push(op(quote!(-)));
                        drop = true
                    }
                    BinOp::Sub(_) => {
                        ops.push(op(quote!(+)));
                        drop = true
                    }
                    BinOp::Mul(_) => drop = true,
                    BinOp::Div(_) => ops.push(op(quote!(%))),
                    BinOp::Rem(_) => ops.push(op(quote!(/))),
                    BinOp::Shl(_) => ops.push(op(quote!(>>))),
                    BinOp::Shr(_) => ops.push(op(quote!(<<))),
                    BinOp::And(_) => ops.push(op(quote!(||))),
                    BinOp::Or(_) => ops.push(op(quote!(&&))),
                    BinOp::BitAnd(_) => ops.push(op(quote!(|))),
                    BinOp::BitOr(_) => ops.push(op(quote!(&))),
                    BinOp::AddAssign(_) => ops.push(op(quote!(-=))),
                    BinOp::SubAssign(_) => ops.push(op(quote!(+=))),
                    BinOp::ShlAssign(_) => ops.push(op(quote!(>>=))),
                    BinOp::ShrAssign(_) => ops.push(op(quote!(<<=))),
                    _ => {}
                }
                for o in ops {
                    alts.push(parse_quote!((#l) #o (#r)));
                }
                if drop {
                    alts.push((**l).clone());
                }
            }
            Expr::Unary(u) if !matches!(u.op, UnOp::Deref(_)) => alts.push((*u.expr).clone()),
            Expr::Lit(l) => match &l.lit {
                Lit::Int(n) => {
                    if let Ok(v) = n.base10_parse::<u64>() {
                        let sfx = n.suffix();
                        let mk = |v: u64| -> Expr {
                            let l = LitInt::new(&format!("{}{}", v, sfx), Span::call_site());
                            parse_quote!(#l)
                        };
                        if v < u64::MAX {
                            alts.push(mk(v + 1));
                        }
                        if v > 0 {
                            alts.push(mk(v - 1));
                        }
                    }
                }
                Lit::Bool(b) => {
                    let n = LitBool::new(!b.value, Span::call_site());
                    alts.push(parse_quote!(#n));
                }
                _ => {}
            },
            Expr::Range(r) => {
                if let Some(st) = &r.start {
                    if !matches!(**st, Expr::Lit(_)) {
                        let mut x = r.clone();
                        x.start = Some(Box::new(parse_quote!(((#st) + 1))));
                        alts.push(Expr::Range(x));
                    }
                }
                if let Some(en) = &r.end {
                    if !matches!(**en, Expr::Lit(_)) {
                        for t in [quote!(((#en) - 1)), quote!(((#en) + 1))] {
                            let mut x = r.clone();
                            x.end = Some(Box::new(parse2(t).unwrap()));
                            alts.push(Expr::Range(x));
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                for (a, b) in [("min", "max"), ("first", "last"), ("all", "any"), ("lock", "unlock"), ("floor", "ceil"), ("push", "insert"), ("is_some", "is_none")] {
                    for (a, b) in [(a, b), (b, a)] {
                        if n == a {
                            let mut x = m.clone();
                            x.method = Ident::new(b, Span::call_site());
                            alts.push(Expr::MethodCall(x));
                        }
                    }
                }
                if m.args.is_empty() && ["not", "rev", "double", "square", "negate", "neg"].contains(&n.as_str()) {
                    alts.push((*m.receiver).clone());
                }
                if n == "enforce" && m.args.len() == 4 {
                    let zero: Expr = parse_quote!(|lc| lc);
                    for k in 1..4 {
                        if s(&m.args[k]) != s(&zero) {
                            let mut x = m.clone();
                            x.args[k] = zero.clone();
                            alts.push(Expr::MethodCall(x));
                        }
                    }
                    if s(&m.args[1]) != s(&m.args[3]) {
                        let mut x = m.clone();
                        let (a, b) = (x.args[1].clone(), x.args[3].clone());
                        x.args[1] = b;
                        x.args[3] = a;
                        alts.push(Expr::MethodCall(x));
                    }
                } else {
                    for k in 1..m.args.len() {
                        if s(&m.args[k]) != s(&m.args[k - 1]) && !s(&m.args[k - 1]).contains('|') {
                            let mut x = m.clone();
                            let (a, b) = (x.args[k - 1].clone(), x.args[k].clone());
                            x.args[k - 1] = b;
                            x.args[k] = a;
                            alts.push(Expr::MethodCall(x));
                        }
                    }
                }
            }
            Expr::Call(c) => {
                for k in 1..c.args.len() {
                    if s(&c.args[k]) != s(&c.args[k - 1]) && !s(&c.args[k - 1]).contains('|') {
                        let mut x = c.clone();
                        let (a, b) = (x.args[k - 1].clone(), x.args[k].clone());
                        x.args[k - 1] = b;
                        x.args[k] = a;
                        alts.push(Expr::Call(x));
                    }
                }
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    for (a, b) in [("and", "or"), ("min", "max"), ("and", "xor")] {
                        for (a, b) in [(a, b), (b, a)] {
                            if n == a {
                                let mut x = c.clone();
                                if let Expr::Path(q) = &mut *x.func {
                                    q.path.segments.last_mut().unwrap().ident = Ident::new(b, Span::call_site());
                                }
                                alts.push(Expr::Call(x));
                            }
                        }
                    }
                }
            }
            _ => {}
        }
        for a in alts {
            if let Some(c) = self.id(orig.span(), format!("{}  ==>  {}", s(&orig), s(&a))) {
                let x = e.clone();
                *e = parse_quote!((if #c { #a } else { #x }));
            }
        }
    }
}
fn files(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let mut v: Vec<_> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap().path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            files(&p, out)
        } else if p.extension().map_or(false, |x| x == "rs") {
            out.push(p)
        }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let off: HashSet<u32> = a.get(3).map(|f| std::fs::read_to_string(f).unwrap_or_default().split_whitespace().map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    let mut fs = vec![];
    files(std::path::Path::new(&a[1]), &mut fs);
    let mut m = M { file: String::new(), next: 1, off, list: vec![], func: String::new() };
    for f in fs {
        let name = f.file_name().unwrap().to_str().unwrap().to_string();
        if ["test_helpers.rs", "verif_hash.rs", "hash_target.rs", "prev_block_hash.rs", "mod.rs"].contains(&name.as_str()) {
            continue;
        }
        m.file = name.clone();
        let mut t = parse_file(&std::fs::read_to_string(&f).unwrap()).unwrap();
        m.visit_file_mut(&mut t);
        let mut out = t.to_token_stream().to_string().replace("crate :: mt (", "\ncrate :: mt (");
        if name == "lib.rs" {
            out.push_str("\npub fn mt(i: u32) -> bool { static M: std::sync::OnceLock<u32> = std::sync::OnceLock::new(); *M.get_or_init(|| std::env::var(\"MT\").ok().and_then(|s| s.parse().ok()).unwrap_or(0)) == i }\n");
        }
        std::fs::write(&f, out).unwrap();
    }
    std::fs::write(&a[2], m.list.join("\n") + "\n").unwrap();
    println!("{} mutants of {}", m.list.len(), m.next - 1);
}
