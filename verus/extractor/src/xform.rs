use crate::edit::Edits;
use crate::spec::{FnSpec, Specs};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::parse::Parser;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

const RENAME: &[&str] = &[
    "iter", "into_iter", "iter_mut", "map", "unwrap", "expect", "unwrap_or", "unwrap_or_default", "unwrap_or_else", "ok_or", "ok_or_else",
    "and_then", "transpose", "flatten", "as_deref", "as_ref", "as_mut", "cloned", "copied", "collect", "sum", "fold", "try_fold", "position", "filter",
    "all", "any", "find", "chain", "enumerate", "zip", "rev", "take", "filter_map", "flat_map", "unzip", "sort_by", "retain", "clone",
    "into", "try_into", "to_string", "map_err", "next", "last", "first", "skip", "or", "or_else", "ok", "is_some_and", "then", "then_some", "sort", "dedup",
    "concat", "fold", "for_each", "map_or", "map_or_else", "unwrap_err", "err", "extend", "to_vec", "to_owned", "min_by", "max_by", "sort_unstable", "count", "keys", "values", "as_bytes", "split", "parse", "try_into", "step_by", "windows", "chunks", "join", "find_map", "partition", "get_or_insert_with", "max_by_key", "min_by_key", "sort_by_key", "contains", "is_none_or", "saturating_sub", "saturating_add", "remove_item", "zip_with", "peekable", "product", "last_mut", "first_mut", "drain", "into_boxed_slice", "as_slice", "iter_sum", "swap_remove", "entry", "or_insert", "or_default", "or_insert_with", "take_while", "skip_while", "cmp", "partial_cmp", "min", "max", "pow", "checked_add", "checked_sub", "checked_mul", "checked_div", "abs_diff", "get_mut", "nth", "copied", "reverse", "trim_end_matches", "starts_with",
    "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "trim", "trim_start", "trim_end", "trim_start_matches", "ends_with", "strip_prefix", "strip_suffix", "replace", "rsplit_once", "split_once", "eq_ignore_ascii_case", "chars", "bytes", "repeat", "swap", "binary_search", "xor", "rem_euclid", "is_power_of_two",
];

pub struct Gen {
    pub specs: Specs,
    pub degrade: BTreeSet<String>,
    pub remap: serde_json::Map<String, serde_json::Value>,
    pub externs: BTreeSet<String>,
    pub shadow: BTreeSet<String>,
    pub notes: Vec<Value>,
    pub fns: BTreeMap<String, Value>,
    pub used: BTreeSet<String>,
    pub all_fns: BTreeSet<String>,
    pub cur_mod: String,
    pub cur_crate: String,
    pub pkg: String,
    pub ver: String,
    pub derive_out: String,
    pub files: Vec<String>,
    pub uses: String,
    pub auto: String,
    pub path: Vec<String>,
    pub strs: BTreeMap<String, String>,
    pub keys: Vec<(String, String)>,
}

struct Src { text: String, line_off: Vec<usize> }
impl Src {
    fn new(text: String) -> Self {
        let mut line_off = vec![0];
        for (i, c) in text.char_indices() { if c == '\n' { line_off.push(i + 1); } }
        Src { text, line_off }
    }
    fn pos(&self, lc: proc_macro2::LineColumn) -> usize {
        let l = self.line_off[lc.line - 1];
        // column is in chars
        self.text[l..].char_indices().nth(lc.column).map(|x| l + x.0).unwrap_or(self.text.len())
    }
    fn rng(&self, s: proc_macro2::Span) -> (usize, usize) { (self.pos(s.start()), self.pos(s.end())) }
}


impl Gen {
    pub fn file(&mut self, src: &str, path: &str, modname: &str, parent: &str, skip: &BTreeSet<String>) -> Result<String, String> {
        let full = format!("{src}/{path}");
        let text = std::fs::read_to_string(&full).map_err(|e| format!("{full}: {e}"))?;
        let f = syn::parse_file(&text).map_err(|e| format!("{full}: {e}"))?;
        self.files.push(full.clone());
        let s = Src::new(text);
        let file_id = format!("{}/{}", self.cur_crate, path);
        let dir = if path.ends_with("lib.rs") || path.ends_with("mod.rs") { path.rsplit_once('/').map(|x| x.0.to_string()).unwrap_or_default() } else { path.trim_end_matches(".rs").to_string() };
        let mut out = String::new();
        // a crate name hidden by a nested import (`use ibcx_interface::core;`)
        fn leaves(t: &syn::UseTree, nested: bool, o: &mut BTreeSet<String>) {
            match t {
                syn::UseTree::Path(p) => leaves(&p.tree, true, o),
                syn::UseTree::Name(n) => { if nested { o.insert(n.ident.to_string()); } }
                syn::UseTree::Rename(n) => { if nested { o.insert(n.rename.to_string()); } }
                syn::UseTree::Group(g) => for t in &g.items { leaves(t, nested, o) },
                syn::UseTree::Glob(_) => {}
            }
        }
        let mut sh = BTreeSet::new();
        for item in &f.items { if let syn::Item::Use(u) = item { leaves(&u.tree, false, &mut sh); } }
        let outer = std::mem::replace(&mut self.shadow, sh.clone());
        for item in &f.items { out.push_str(&self.item(&s, item, &file_id, src, &dir, skip)?); out.push('\n'); self.shadow = sh.clone(); }
        self.shadow = outer;
        if let Some(r) = self.specs.raw.get(&file_id) { out.push_str("// ---- specification text\n"); out.push_str(r); }
        let _ = (modname, parent);
        Ok(out)
    }

    // storage namespaces of the crate are pairwise distinct
    pub fn key_lemma(&mut self) -> String {
        let mut ks = self.keys.clone();
        ks.push(("\"contract_info\"".into(), "contract_info".into()));
        let id = format!("{}/vx_keys", self.cur_crate);
        let mut o = format!("/*@F:{id}@*/ pub proof fn vx_keys()\n ensures ");
        for i in 0..ks.len() { for j in i + 1..ks.len() { o.push_str(&format!("{}@ != {}@,\n", ks[i].0, ks[j].0)); } }
        if ks.len() < 2 { o.push_str("true,"); }
        o.push_str("{\n");
        for (n, v) in &ks { o.push_str(&format!("reveal_strlit({v:?}); assert({n}@ == {v:?}@);\n")); }
        for i in 0..ks.len() { for j in i + 1..ks.len() {
            let (a, b): (Vec<char>, Vec<char>) = (ks[i].1.chars().collect(), ks[j].1.chars().collect());
            if a.len() == b.len() { if let Some(p) = (0..a.len()).find(|p| a[*p] != b[*p]) { o.push_str(&format!("assert({}@[{p}] != {}@[{p}]);\n", ks[i].0, ks[j].0)); } }
            else { o.push_str(&format!("assert({}@.len() != {}@.len());\n", ks[i].0, ks[j].0)); }
        } }
        o.push_str(&format!("}} /*@E:{id}@*/\n"));
        self.fns.insert(id, json!({"line": 0, "contract": true, "degraded": false, "clauses": [], "props": ["*"], "lost": []}));
        self.keys.clear();
        o
    }

    fn cfg_test(attrs: &[syn::Attribute]) -> bool {
        attrs.iter().any(|a| a.path().is_ident("test") || (a.path().is_ident("cfg") && { let t = ts(&a.meta); t.contains("(test") && !t.contains("not(test") }))
    }

    fn item(&mut self, s: &Src, item: &syn::Item, fid: &str, src: &str, dir: &str, skip: &BTreeSet<String>) -> Result<String, String> {
        use syn::Item::*;
        let a0 = item.span();
        let (a, b) = s.rng(a0);
        let mut ed = Edits::default();
        match item {
            Mod(m) => {
                if Self::cfg_test(&m.attrs) { return Ok(String::new()); }
                let n = m.ident.to_string();
                let p1 = if dir.is_empty() { format!("{n}.rs") } else { format!("{dir}/{n}.rs") };
                let p2 = if dir.is_empty() { format!("{n}/mod.rs") } else { format!("{dir}/{n}/mod.rs") };
                if skip.contains(&p1) || skip.contains(&p2) || skip.contains(&n) { return Ok(String::new()); }
                if let Some((_, items)) = &m.content {
                    let mut o = String::new();
                    self.path.push(n.clone());
                    for i in items { o.push_str(&self.item(s, i, fid, src, dir, skip)?); o.push('\n'); }
                    self.path.pop();
                    return Ok(format!("pub mod {n} {{\nuse crate::vx::*;\nuse vstd::prelude::*;\n{}\n{o}\n}}\n", self.uses));
                }
                let p = if std::path::Path::new(&format!("{src}/{p1}")).exists() { p1 } else { p2 };
                self.path.push(n.clone());
                let t = self.file(src, &p, &n, dir, skip);
                self.path.pop();
                Ok(format!("pub mod {n} {{\nuse crate::vx::*;\nuse vstd::prelude::*;\n{}\n{}\n}}\n", self.uses, t?))
            }
            Use(u) => {
                if Self::cfg_test(&u.attrs) { return Ok(String::new()); }
                for at in &u.attrs { let (x, y) = s.rng(at.span()); ed.rep(x, y, ""); }
                self.use_tree(s, &u.tree, &mut ed);
                Ok(ed.apply(&s.text, a, b))
            }
            Struct(st) => {
                if Self::cfg_test(&st.attrs) { return Ok(String::new()); }
                if self.specs.skip.contains_key(&format!("{fid}::{}", st.ident)) { return Ok(String::new()); }
                self.data_attrs(s, &st.attrs, &mut ed);
                self.vis(s, &st.vis, st.struct_token.span(), &mut ed);
                for f in &st.fields { self.field(s, f, true, &mut ed); }
                let mut o = ed.apply(&s.text, a, b);
                o.push('\n');
                o.push_str(&self.derives(s, &st.attrs, &st.ident, &st.generics, Some(&st.fields), None));
                Ok(o)
            }
            Enum(en) => {
                if Self::cfg_test(&en.attrs) { return Ok(String::new()); }
                if self.specs.skip.contains_key(&format!("{fid}::{}", en.ident)) { return Ok(String::new()); }
                self.data_attrs(s, &en.attrs, &mut ed);
                self.vis(s, &en.vis, en.enum_token.span(), &mut ed);
                for v in &en.variants {
                    for at in &v.attrs { let (x, y) = s.rng(at.span()); ed.rep(x, y, ""); }
                    for f in &v.fields { self.field(s, f, false, &mut ed); }
                }
                let mut o = ed.apply(&s.text, a, b);
                o.push('\n');
                o.push_str(&self.derives(s, &en.attrs, &en.ident, &en.generics, None, Some(en)));
                Ok(o)
            }
            Type(t) => {
                if Self::cfg_test(&t.attrs) || self.specs.skip.contains_key(&format!("{fid}::{}", t.ident)) { return Ok(String::new()); }
                for at in &t.attrs { let (x, y) = s.rng(at.span()); ed.rep(x, y, ""); }
                self.vis(s, &t.vis, t.type_token.span(), &mut ed);
                self.ty(s, &t.ty, &mut ed);
                Ok(ed.apply(&s.text, a, b))
            }
            Const(c) => {
                if Self::cfg_test(&c.attrs) || self.specs.skip.contains_key(&format!("{fid}::{}", c.ident)) { return Ok(String::new()); }
                for at in &c.attrs { let (x, y) = s.rng(at.span()); ed.rep(x, y, ""); }
                let tyt = { let (x, y) = s.rng(c.ty.span()); s.text[x..y].to_string() };
                let mut v = Vis::new(self, s, None, String::new());
                v.visit_expr(&c.expr);
                let et = { let (x, y) = s.rng(c.expr.span()); v.ed.apply(&s.text, x, y) };
                let mut e2 = Edits::default();
                self.ty(s, &c.ty, &mut e2);
                let (x, y) = s.rng(c.ty.span());
                let ty = e2.apply(&s.text, x, y).replace("&str", "&'static str");
                let n = &c.ident;
                if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. }) = &*c.expr { self.strs.insert(format!("crate::{}::{n}", self.path.join("::")), l.value()); }
                if tyt.starts_with("Item<") || tyt.starts_with("Map<") {
                    if let syn::Expr::Call(call) = &*c.expr {
                        if call.args.len() == 1 {
                            let (x, y) = s.rng(call.args[0].span());
                            let arg = s.text[x..y].to_string();
                            let full = format!("crate::{}::{arg}", self.path.join("::"));
                            if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. }) = &call.args[0] { self.keys.push((arg.clone(), l.value())); }
                            else if let Some(v) = self.strs.get(&full) { self.keys.push((full.clone(), v.clone())); }
                            return Ok(format!("pub exec const {n}: {ty} ensures {n}.ns() == {arg}@ {{ {et} }}\n"));
                        }
                    }
                }
                
                if let Some(sp) = self.specs.fns.get(&format!("{fid}::const {n}")) {
                    self.used.insert(format!("{fid}::const {n}"));
                    let ens: Vec<String> = sp.enss.iter().map(|e| e.1.clone()).collect();
                    return Ok(format!("pub exec const {n}: {ty} ensures {} {{ {et} }}\n", ens.join(", ")));
                }
                Ok(format!("pub const {n}: {ty} = {et};\n"))
            }
            Fn(f) => {
                if Self::cfg_test(&f.attrs) { return Ok(String::new()); }
                let id = format!("{fid}::{}", f.sig.ident);
                if self.specs.skip.contains_key(&id) { return Ok(String::new()); }
                Ok(self.func(s, &id, &f.attrs, Some((&f.vis, f.sig.span())), &f.sig, Some(&f.block), false, false))
            }
            Impl(im) => {
                if Self::cfg_test(&im.attrs) { return Ok(String::new()); }
                self.impl_(s, im, fid)
            }
            Trait(t) => {
                if Self::cfg_test(&t.attrs) { return Ok(String::new()); }
                if self.specs.skip.contains_key(&format!("{fid}::{}", t.ident)) { return Ok(String::new()); }
                self.trait_(s, t, fid)
            }
            Macro(_) | ExternCrate(_) => Ok(String::new()),
            _ => { self.notes.push(json!({"unsupported_item": fid, "text": s.text[a..b.min(a + 80)].to_string()})); Ok(String::new()) }
        }
    }

    fn use_tree(&self, s: &Src, t: &syn::UseTree, ed: &mut Edits) {
        match t {
            syn::UseTree::Path(p) => self.root_ident(s, &p.ident, ed),
            // a bare `use name;` of a crate
            syn::UseTree::Name(n) => { if self.externs.contains(&n.ident.to_string()) { self.root_ident(s, &n.ident, ed) } }
            syn::UseTree::Group(g) => for t in &g.items { self.use_tree(s, t, ed) },
            _ => {}
        }
    }
    fn root_ident(&self, s: &Src, id: &syn::Ident, ed: &mut Edits) {
        let n = id.to_string();
        let (x, y) = s.rng(id.span());
        if self.shadow.contains(&n) { return; }
        if n == "crate" { ed.rep(x, y, format!("crate::{}", self.cur_crate)); }
        else if n == "std" || n == "core" && !self.externs.contains("core") { ed.rep(x, y, "crate::vxstd"); }
        else if self.externs.contains(&n) { ed.rep(x, y, format!("crate::{n}")); }
    }
    fn vis(&self, s: &Src, v: &syn::Visibility, next: proc_macro2::Span, ed: &mut Edits) {
        match v {
            syn::Visibility::Inherited => ed.open(s.rng(next).0, "pub "),
            syn::Visibility::Restricted(r) => { let (x, y) = s.rng(r.span()); ed.rep(x, y, "pub") }
            _ => {}
        }
    }
    fn data_attrs(&self, s: &Src, at: &[syn::Attribute], ed: &mut Edits) { for a in at { let (x, y) = s.rng(a.span()); ed.rep(x, y, ""); } }
    fn field(&self, s: &Src, f: &syn::Field, pubs: bool, ed: &mut Edits) {
        for a in &f.attrs { let (x, y) = s.rng(a.span()); ed.rep(x, y, ""); }
        if pubs { let nx = f.ident.as_ref().map(|i| i.span()).unwrap_or(f.ty.span()); self.vis(s, &f.vis, nx, ed); }
        self.ty(s, &f.ty, ed);
    }
    fn ty(&self, s: &Src, t: &syn::Type, ed: &mut Edits) {
        let mut v = TyVis { g: self, s, ed };
        v.visit_type(t);
    }

    fn derives(&self, s: &Src, attrs: &[syn::Attribute], id: &syn::Ident, gen: &syn::Generics, fields: Option<&syn::Fields>, en: Option<&syn::ItemEnum>) -> String {
        let mut names = BTreeSet::new();
        for a in attrs {
            if a.path().is_ident("derive") { for w in ts(&a.meta).split(|c: char| !c.is_alphanumeric()) { names.insert(w.to_string()); } }
            if a.path().is_ident("cw_serde") { names.insert("Clone".into()); names.insert("PartialEq".into()); names.insert("Serialize".into()); }
        }
        let mut o = String::new();
        let (gp, ga) = if gen.params.is_empty() { (String::new(), String::new()) } else {
            let (x, y) = s.rng(gen.span());
            let mut args = vec![];
            for p in &gen.params { match p { syn::GenericParam::Type(t) => args.push(t.ident.to_string()), syn::GenericParam::Lifetime(l) => args.push(l.lifetime.to_string()), syn::GenericParam::Const(c) => args.push(c.ident.to_string()) } }
            (s.text[x..y].to_string(), format!("<{}>", args.join(", ")))
        };
        if names.contains("Clone") {
            if names.contains("Copy") { o.push_str(&format!("impl{gp} Copy for {id}{ga} {{}}\nimpl{gp} Clone for {id}{ga} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n")); }
            o.push_str(&format!("impl{gp} VxClone for {id}{ga} {{ #[verifier::external_body] fn vx_clone(&self) -> (r: Self) {{ unimplemented!() }} }}\n"));
        }
        if names.contains("PartialEq") {
            o.push_str(&format!("impl{gp} VxEq<{id}{ga}> for {id}{ga} {{ open spec fn vx_eqs(&self, o: &Self) -> bool {{ *self == *o }} #[verifier::external_body] fn vx_eq(&self, o: &Self) -> (r: bool) {{ unimplemented!() }} }}\n"));
        }
        if names.contains("Error") {
            // the text of an error is left open
            o.push_str(&format!("impl{gp} VxDisplay for {id}{ga} {{ uninterp spec fn vx_disp(&self) -> Seq<char>; }}\n"));
        }
        if names.contains("Default") {
            let mut cs = vec![];
            if let Some(fs) = fields {
                for (i, f) in fs.iter().enumerate() {
                    let mut ed = Edits::default();
                    self.ty(s, &f.ty, &mut ed);
                    let (x, y) = s.rng(f.ty.span());
                    let t = ed.apply(&s.text, x, y);
                    let n = f.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string());
                    cs.push(format!("<{t} as VxDefault>::vx_is_default(r.{n})"));
                }
            }
            let c = if cs.is_empty() { "true".to_string() } else { cs.join(" && ") };
            o.push_str(&format!("impl{gp} VxDefault for {id}{ga} {{ open spec fn vx_is_default(r: Self) -> bool {{ {c} }} #[verifier::external_body] fn vx_default() -> (r: Self) {{ unimplemented!() }} }}\n"));
        }
        if let Some(en) = en {
            for v in &en.variants { for f in &v.fields { if f.attrs.iter().any(|a| a.path().is_ident("from")) {
                let mut ed = Edits::default();
                self.ty(s, &f.ty, &mut ed);
                let (x, y) = s.rng(f.ty.span());
                let t = ed.apply(&s.text, x, y);
                let vn = &v.ident;
                o.push_str(&format!("impl From<{t}> for {id} {{ #[verifier::external_body] fn from(e: {t}) -> (r: Self) {{ unimplemented!() }} }}\nimpl VxFrom<{t}> for {id} {{ open spec fn vx_from_spec(a: {t}, r: Self) -> bool {{ r == {id}::{vn}(a) }} #[verifier::external_body] fn vx_from(a: {t}) -> (r: Self) {{ unimplemented!() }} }}\n"));
            } } }
        }
        o
    }

    fn impl_(&mut self, s: &Src, im: &syn::ItemImpl, fid: &str) -> Result<String, String> {
        let (a, _b) = s.rng(im.span());
        let mut ed = Edits::default();
        for at in &im.attrs { let (x, y) = s.rng(at.span()); ed.rep(x, y, ""); }
        let selfname = nospace(&tys(s, &im.self_ty));
        let mut tn = String::new();
        let mut key = selfname.clone();
        if let Some((_, p, _)) = &im.trait_ {
            let (x, y) = s.rng(p.span());
            tn = p.segments.last().unwrap().ident.to_string();
            let last = nospace(&s.text[s.rng(p.segments.last().unwrap().span()).0..y]);
            key = format!("{selfname}@{last}");
            let _ = x;
        }
        if self.specs.skip.contains_key(&format!("{fid}::{key}")) { return Ok(String::new()); }
        if ["Display", "Debug", "Error"].contains(&tn.as_str()) { return Ok(String::new()); }
        // header
        if !im.generics.params.is_empty() { for p in &im.generics.params { if let syn::GenericParam::Type(t) = p { for b in &t.bounds { let mut v = TyVis { g: self, s, ed: &mut ed }; v.visit_type_param_bound(b); } } } }
        let mut inherent = im.trait_.is_none();
        if let Some((_, p, _)) = &im.trait_ {
            let mut v = TyVis { g: self, s, ed: &mut ed };
            v.visit_path(p);
            let seg = p.segments.last().unwrap();
            let (x, y) = s.rng(seg.ident.span());
            let (ps, pe) = s.rng(p.span());
            let fors = s.rng(im.self_ty.span()).0;
            match tn.as_str() {
                "From" => ed.rep(x, y, "VxFrom"),
                "Default" => ed.rep(x, y, "VxDefault"),
                "IntoIterator" => ed.rep(x, y, "VxSrc"),
                "Deref" | "DerefMut" | "FromIterator" | "Extend" => { ed.rep(ps, fors, ""); inherent = true; }
                "FromStr" | "ToString" => { ed.rep(ps, fors, ""); inherent = true; }
                "TryFrom" => { ed.rep(x, y, "VxTryFrom") }
                _ => {}
            }
            let _ = pe;
        }
        self.ty(s, &im.self_ty, &mut ed);
        let brace = s.rng(im.brace_token.span.open()).0;
        let head = ed.apply(&s.text, a, brace);
        let mut body = String::new();
        // target / item types of the std traits
        let mut assoc: BTreeMap<String, String> = BTreeMap::new();
        for it in &im.items { if let syn::ImplItem::Type(t) = it { assoc.insert(t.ident.to_string(), self.ty_text(s, &t.ty)); } }
        for it in &im.items {
            match it {
                syn::ImplItem::Fn(f) => {
                    if Self::cfg_test(&f.attrs) { continue; }
                    let id = format!("{fid}::{key}::{}", f.sig.ident);
                    if self.specs.skip.contains_key(&id) { continue; }
                    let vis = if inherent { Some((&f.vis, f.sig.span())) } else { None };
                    let mut t = self.func_t(s, &id, &f.attrs, vis, &f.sig, Some(&f.block), tn == "From" || tn == "Default" || tn == "TryFrom" , !inherent, &tn, &assoc);
                    t.push('\n');
                    body.push_str(&t);
                }
                syn::ImplItem::Type(t) => {
                    if inherent { continue; }
                    let n = t.ident.to_string();
                    let ty = assoc[&n].clone();
                    if tn == "IntoIterator" { if n == "Item" { body.push_str(&format!("type VxItem = {ty};\n")); } }
                    else { body.push_str(&format!("type {n} = {ty};\n")); }
                }
                syn::ImplItem::Const(c) => { let (x, y) = s.rng(c.span()); body.push_str(&s.text[x..y]); body.push('\n'); }
                _ => {}
            }
        }
        let ik = format!("{fid}::{key}");
        let mut raw = self.specs.implraw.get(&ik).cloned().unwrap_or_default();
        if raw.is_empty() {
            if tn == "From" || tn == "TryFrom" {
                // default: nothing is known about the conversion
                if let Some((_, p, _)) = &im.trait_ { if let syn::PathArguments::AngleBracketed(ab) = &p.segments.last().unwrap().arguments { if let Some(syn::GenericArgument::Type(t)) = ab.args.first() {
                    let tt = self.ty_text(s, t);
                    if tn == "From" { raw = format!("open spec fn vx_from_spec(a: {tt}, r: Self) -> bool {{ true }}\n"); }
                } } }
            }
            if tn == "Default" { raw = "open spec fn vx_is_default(r: Self) -> bool { true }\n".into(); }
        }
        let mut o = format!("{head}{{\n{raw}{body}}}\n");
        if tn == "From" && !self.specs.skip.contains_key(&format!("{ik}#native")) {
            // `?` needs the native trait
            if let Some((_, p, _)) = &im.trait_ { if selfname.ends_with("Error") {
                if let syn::PathArguments::AngleBracketed(ab) = &p.segments.last().unwrap().arguments { if let Some(syn::GenericArgument::Type(t)) = ab.args.first() {
                    let tt = self.ty_text(s, t);
                    o.push_str(&format!("impl From<{tt}> for {selfname} {{ #[verifier::external_body] fn from(e: {tt}) -> (r: Self) {{ unimplemented!() }} }}\n"));
                } }
            } }
        }
        Ok(o)
    }

    fn trait_(&mut self, s: &Src, t: &syn::ItemTrait, fid: &str) -> Result<String, String> {
        let n = &t.ident;
        let mut body = self.specs.implraw.get(&format!("{fid}::{n}")).cloned().unwrap_or_default();
        for it in &t.items {
            match it {
                syn::TraitItem::Fn(f) => {
                    let id = format!("{fid}::{n}::{}", f.sig.ident);
                    if self.specs.skip.contains_key(&id) { continue; }
                    body.push_str(&self.func(s, &id, &f.attrs, None, &f.sig, f.default.as_ref(), false, true));
                    body.push('\n');
                }
                syn::TraitItem::Type(ty) => { let (x, y) = s.rng(ty.span()); body.push_str(&s.text[x..y]); body.push('\n'); }
                _ => {}
            }
        }
        let (x, y) = s.rng(t.generics.span());
        let g = if t.generics.params.is_empty() { String::new() } else { s.text[x..y].to_string() };
        let byval = t.items.iter().any(|it| match it { syn::TraitItem::Fn(f) => f.sig.receiver().map(|r| r.reference.is_none()).unwrap_or(true), _ => true });
        let sized = if byval { ": Sized" } else { "" };
        Ok(format!("pub trait {n}{g}{sized} {{\n{body}}}\n"))
    }

    fn ty_text(&self, s: &Src, t: &syn::Type) -> String {
        let mut ed = Edits::default();
        self.ty(s, t, &mut ed);
        let (x, y) = s.rng(t.span());
        ed.apply(&s.text, x, y)
    }

    fn func(&mut self, s: &Src, id: &str, attrs: &[syn::Attribute], vis: Option<(&syn::Visibility, proc_macro2::Span)>, sig: &syn::Signature, block: Option<&syn::Block>, _x: bool, in_trait: bool) -> String {
        self.func_t(s, id, attrs, vis, sig, block, false, in_trait, "", &BTreeMap::new())
    }

    #[allow(clippy::too_many_arguments)]
    fn func_t(&mut self, s: &Src, id: &str, attrs: &[syn::Attribute], vis: Option<(&syn::Visibility, proc_macro2::Span)>, sig: &syn::Signature, block: Option<&syn::Block>, conv: bool, in_trait: bool, tn: &str, assoc: &BTreeMap<String, String>) -> String {
        self.all_fns.insert(id.to_string());
        let spec = self.specs.fns.get(id).cloned();
        let mut ed = Edits::default();
        let (sa, sb) = s.rng(sig.span());
        let _ = attrs;
        // signature
        let mut pre = String::new();
        if let Some((v, sp)) = vis { match v { syn::Visibility::Public(_) => pre.push_str("pub "), _ => { let _ = sp; pre.push_str("pub ") } } }
        for p in &sig.generics.params { if let syn::GenericParam::Type(t) = p { for b in &t.bounds { let mut v = TyVis { g: self, s, ed: &mut ed }; v.visit_type_param_bound(b); } } }
        let mut names = vec![];
        let mut pats = vec![];
        let mut muts = vec![];
        for inp in &sig.inputs {
            match inp {
                syn::FnArg::Typed(pt) => {
                    self.ty(s, &pt.ty, &mut ed);
                    match &*pt.pat {
                        syn::Pat::Ident(pi) => {
                            names.push(pi.ident.to_string());
                            if let Some(m) = &pi.mutability { let (x, y) = s.rng(m.span()); ed.rep(x, y + 1, ""); muts.push(pi.ident.to_string()); }
                        }
                        p => { let (x, y) = s.rng(p.span()); let n = format!("vx_arg{}", names.len()); pats.push((s.text[x..y].to_string(), n.clone())); ed.rep(x, y, n.clone()); names.push(n); }
                    }
                }
                syn::FnArg::Receiver(r) => { if r.reference.is_none() { if let Some(m) = &r.mutability { let (x, y) = s.rng(m.span()); ed.rep(x, y + 1, ""); muts.push("self".into()); } } }
            }
        }
        let ret = spec.as_ref().map(|x| x.ret.clone()).unwrap_or("r".into());
        let ret = if spec.is_none() && names.contains(&ret) { "vx_r".to_string() } else { ret };
        if let syn::ReturnType::Type(_, t) = &sig.output {
            self.ty(s, t, &mut ed);
            let (x, y) = s.rng(t.span());
            // a boxed closure is returned unboxed
            if let Some(o) = boxed_fn(t) { let (p, _) = s.rng(o.span()); ed.rep(x, p, "impl "); let (_, q) = s.rng(o.span()); ed.rep(q, y, ""); }
            let isimpl = matches!(&**t, syn::Type::ImplTrait(_));
            if !isimpl { ed.open(x, format!("({ret}: ")); ed.close(y, ")"); }
        }
        if let Some(w) = &sig.generics.where_clause { for p in &w.predicates { if let syn::WherePredicate::Type(t) = p { for b in &t.bounds { let mut v = TyVis { g: self, s, ed: &mut ed }; v.visit_type_param_bound(b); } } } }
        if tn == "From" || tn == "Default" || tn == "IntoIterator" || tn == "FromIterator" || tn == "TryFrom" || tn == "ToString" || (tn != "Iterator" && sig.receiver().is_some() && RENAME.contains(&sig.ident.to_string().as_str()) && !(sig.ident == "collect" && sig.inputs.len() > 1)) {
            let (x, y) = s.rng(sig.ident.span());
            ed.rep(x, y, format!("vx_{}", sig.ident));
        }
        let mut sigt = ed.apply(&s.text, sa, sb);
        let _ = conv;
        match tn {
            "IntoIterator" => { let o = sigt.find("->").unwrap(); sigt = format!("{} -> ({ret}: VxIter<{}>)", &sigt[..o], assoc.get("Item").cloned().unwrap_or_default()); }
            "Deref" | "DerefMut" => { if let Some(t) = assoc.get("Target") { sigt = sigt.replace("Self::Target", t); } }
            "FromStr" => { if let Some(t) = assoc.get("Err") { sigt = sigt.replace("Self::Err", t); } }
            _ => {}
        }
        let degraded = self.degrade.contains(id);
        let mut fnote = json!({"line": sig.span().start().line, "contract": spec.is_some(), "degraded": degraded});
        let Some(mut spec) = spec else {
            // no contract: only the signature is needed; nothing is assumed about the result
            self.fns.insert(id.to_string(), fnote);
            if block.is_none() { return format!("{pre}{sigt};"); }
            if tn == "IntoIterator" || tn == "From" || tn == "TryFrom" || tn == "Default" { return format!("#[verifier::external_body] {pre}{sigt} {{ unimplemented!() }}"); }
            let sb = stub_body(s, sig);
            return format!("#[verifier::external_body] {pre}{sigt} {{ {sb} }}");
        };
        self.used.insert(id.to_string());
        // closures and loops that kept their text but got another number since the contract was written
        if let Some(r) = self.remap.get(id).cloned() {
            let mv = |k: &String| r["clo"][k.as_str()].as_str().map(|x| x.to_string()).unwrap_or(k.clone());
            spec.closures = spec.closures.iter().map(|(k, v)| (mv(k), v.clone())).collect();
            spec.lifts = spec.lifts.iter().map(|(k, v)| (mv(k), v.clone())).collect();
            let lm: BTreeMap<usize, usize> = r["loop"].as_object().map(|o| o.iter().map(|(k, v)| (k.parse().unwrap(), v.as_u64().unwrap() as usize)).collect()).unwrap_or_default();
            if !lm.is_empty() {
                let names: Vec<(String, String)> = lm.iter().flat_map(|(a, b)| ["vx_i", "vx_it", "vx_acc", "vx_out", "vx_o"].iter().map(move |n| (format!("{n}{a}"), format!("{n}{b}")))).collect();
                for m in [&mut spec.loops, &mut spec.lstart, &mut spec.lend] { *m = m.iter().map(|(k, v)| (*lm.get(k).unwrap_or(k), subst(v, &names))).collect(); }
                spec.tail = subst(&spec.tail, &names);
                for (_, c) in spec.before.iter_mut().chain(spec.after.iter_mut()) { *c = subst(c, &names); }
                for (_, c) in spec.closures.iter_mut() { c.1 = subst(&c.1, &names); }
            }
        }
        // positional parameter names
        let sp: Vec<String> = spec.params.iter().filter(|p| !p.ends_with("self")).cloned().collect();
        let mut ok = sp.len() == names.len();
        let map: Vec<(String, String)> = sp.iter().cloned().zip(names.iter().cloned()).filter(|(a, b)| a != b && a != "_").collect();
        let sub = |t: &str| -> String { subst(t, &map) };
        for (_, e) in spec.enss.iter_mut() { *e = sub(e); }
        for e in spec.reqs.iter_mut() { *e = sub(e); }
        for (_, c) in spec.closures.iter_mut() { c.0 = sub(&c.0); c.1 = sub(&c.1); }
        for (_, c) in spec.loops.iter_mut().chain(spec.lstart.iter_mut()).chain(spec.lend.iter_mut()) { *c = sub(c); }
        spec.start = sub(&spec.start); spec.tail = sub(&spec.tail);
        for (_, c) in spec.before.iter_mut() { *c = sub(c); }
        for (_, c) in spec.after.iter_mut() { *c = sub(c); }
        let mut contract = String::new();
        if !spec.reqs.is_empty() { contract.push_str("\n    requires\n"); for r in &spec.reqs { contract.push_str(&format!("        {r},\n")); } }
        let mut cl = vec![];
        if !spec.enss.is_empty() {
            contract.push_str("\n    ensures\n");
            for (i, (p, e)) in spec.enss.iter().enumerate() {
                contract.push_str(&format!("        /*@C:{id}:{i}@*/ ({e}),\n"));
                cl.push(json!({"props": p, "text": e}));
            }
        }
        fnote["clauses"] = json!(cl);
        fnote["props"] = json!(spec.props);
        if let Some(t) = &spec.trust { fnote["trusted"] = json!(t.trim()); }
        if !ok { fnote["anchor"] = json!(format!("parameters changed: {:?} vs {:?}", spec.params, names)); }
        let mut lost: Vec<String> = vec![];
        if let Some(block) = block {
            let ext = degraded || spec.trust.is_some() || !ok;
            if ext {
                ok = false;
                let _ = ok;
                if !spec.params.is_empty() && sp.len() != names.len() { contract.clear(); }
                self.fns.insert(id.to_string(), fnote);
                let sb = stub_body(s, sig);
                return format!("/*@F:{id}@*/ #[verifier::external_body] {pre}{sigt}{contract} {{ {sb} }} /*@E:{id}@*/");
            }
            let (bt, nclo, nloop, l2, lifted, cseq, lseq) = {
                let mut v = Vis::new(self, s, Some(spec.clone()), id.to_string());
                v.mutself = muts.iter().any(|m| m == "self");
                v.visit_block(block);
                let (x, y) = s.rng(block.span());
                // start
                let mut st = String::new();
                for m in &muts { if m == "self" { st.push_str("let mut vx_self = self;\n"); } else { st.push_str(&format!("let mut {m} = {m};\n")); } }
                for (p, n) in &pats { st.push_str(&format!("let {p} = {n};\n")); }
                if !self.auto.is_empty() { st.push_str(&format!("proof {{ {} }}\n", self.auto)); }
                if !spec.start.trim().is_empty() {
                    let (g, p): (Vec<&str>, Vec<&str>) = spec.start.lines().partition(|l| l.trim_start().starts_with("let ghost"));
                    st.push_str(&g.join("\n")); st.push('\n');
                    if !p.join("").trim().is_empty() { st.push_str(&format!("proof {{ {} }}\n", p.join("\n"))); }
                }
                if !st.is_empty() { v.ed.open(x + 1, format!("\n{st}")); }
                // tail
                if !spec.tail.trim().is_empty() {
                    if let Some(syn::Stmt::Expr(e, None)) = block.stmts.last() {
                        let (p, q) = s.rng(e.span());
                        let rt = sigt.rfind(&format!("-> ({}: ", spec.ret)).map(|i| { let t = sigt[i + 6 + spec.ret.len()..].trim(); let e = t.rfind(')').unwrap_or(t.len()); t[..e].to_string() }).filter(|t| !t.contains("impl ") && !t.contains("where")).map(|t| format!(": {t}")).unwrap_or_default();
                        v.ed.open(p, format!("let vx_ret{rt} = "));
                        v.ed.close(q, format!(";\nproof {{ {} }}\nvx_ret", spec.tail.replace("$r", "vx_ret")));
                    } else if matches!(sig.output, syn::ReturnType::Default) {
                        v.ed.close(y - 1, format!("proof {{ {} }}\n", spec.tail));
                    } else { v.lost.push("tail".into()); }
                }
                let t = v.ed.apply(&s.text, x, y);
                (t, v.seen_clo.clone(), v.nloop, v.lost.clone(), v.lifted.clone(), v.clo_seq.clone(), v.loop_seq.clone())
            };
            lost.extend(l2);
            for k in spec.closures.keys() { if !nclo.contains(k) { lost.push(format!("closure {k}")); } }
            for k in spec.after.keys() { if !nclo.contains(&format!("#after {k}")) { lost.push(format!("after {k}")); } }
            for k in spec.before.keys() { if !nclo.contains(&format!("#before {k}")) { lost.push(format!("before {k}")); } }
            for k in spec.lifts.keys() { if !nclo.contains(k) { lost.push(format!("lift {k}")); } }
            for k in spec.loops.keys() { if *k >= nloop { lost.push(format!("loop {k}")); } }
            if nloop > spec.loops.len() && spec.loops.len() > 0 { lost.push("extra loop".into()); }
            let xs: Vec<String> = nclo.iter().filter(|k| !k.starts_with('#') && !spec.closures.contains_key(*k) && !spec.lifts.contains_key(*k)).cloned().collect();
            fnote["plain_closures"] = json!(xs);
            fnote["lost"] = json!(lost);
            fnote["nloop"] = json!(nloop);
            fnote["clo_seq"] = json!(cseq); fnote["loop_seq"] = json!(lseq);
            self.fns.insert(id.to_string(), fnote);
            let mut attr = String::from("#[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause] ");
            if !spec.attrs.is_empty() { attr.push_str(&spec.attrs); }
            let mut o = String::new();
            if in_trait && vis.is_none() { attr = attr.replace("#[verifier::exec_allows_no_decreases_clause] ", if spec.loops.is_empty() { "" } else { "#[verifier::exec_allows_no_decreases_clause] " }); }
            o.push_str(&format!("/*@F:{id}@*/ {attr}{pre}{sigt}{contract}{bt} /*@E:{id}@*/\n"));
            o.push_str(&lifted);
            o
        } else {
            self.fns.insert(id.to_string(), fnote);
            format!("/*@F:{id}@*/ {pre}{sigt}{contract}; /*@E:{id}@*/")
        }
    }
}

// Box<dyn Fn(..) -> ..>: the function bound
fn boxed_fn(t: &syn::Type) -> Option<&syn::TypeParamBound> {
    let syn::Type::Path(p) = t else { return None };
    let l = p.path.segments.last()?;
    if l.ident != "Box" { return None; }
    let syn::PathArguments::AngleBracketed(a) = &l.arguments else { return None };
    let syn::GenericArgument::Type(syn::Type::TraitObject(o)) = a.args.first()? else { return None };
    let b = o.bounds.first()?;
    let syn::TypeParamBound::Trait(tb) = b else { return None };
    let sg = tb.path.segments.last()?;
    if sg.ident.to_string().starts_with("Fn") && matches!(sg.arguments, syn::PathArguments::Parenthesized(_)) { Some(b) } else { None }
}
fn stub_body(s: &Src, sig: &syn::Signature) -> String {
    if let syn::ReturnType::Type(_, t) = &sig.output { if let Some(syn::TypeParamBound::Trait(tb)) = boxed_fn(t) { if let syn::PathArguments::Parenthesized(pa) = &tb.path.segments.last().unwrap().arguments {
        let ps: Vec<String> = pa.inputs.iter().enumerate().map(|(i, t)| format!("vx_a{i}: {}", tys(s, t))).collect();
        let o = match &pa.output { syn::ReturnType::Type(_, t) => format!("-> {} ", tys(s, t)), _ => String::new() };
        return format!("move |{}| {o}{{ unimplemented!() }}", ps.join(", "));
    } } }
    "unimplemented!()".into()
}

pub fn flat(t: &str) -> String { t.split_whitespace().collect::<Vec<_>>().join(" ") }
pub fn subst(t: &str, map: &[(String, String)]) -> String {
    if map.is_empty() { return t.to_string(); }
    let mut out = String::new();
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c.is_alphabetic() || c == '_' {
            let mut j = i;
            while j < cs.len() && (cs[j].is_alphanumeric() || cs[j] == '_') { j += 1; }
            let w: String = cs[i..j].iter().collect();
            let prev_dot = i > 0 && cs[i - 1] == '.' && !(i > 1 && cs[i - 2] == '.');
            match map.iter().find(|m| m.0 == w) { Some(m) if !prev_dot => out.push_str(&m.1), _ => out.push_str(&w) }
            i = j;
        } else if c == '"' {
            out.push(c); i += 1;
            while i < cs.len() && cs[i] != '"' { if cs[i] == '\\' { out.push(cs[i]); i += 1; } out.push(cs[i]); i += 1; }
            if i < cs.len() { out.push('"'); i += 1; }
        } else { out.push(c); i += 1; }
    }
    out
}

fn ts(m: &syn::Meta) -> String { match m { syn::Meta::List(l) => format!("({})", l.tokens), _ => String::new() } }
fn tys(s: &Src, t: &syn::Type) -> String { let (x, y) = s.rng(t.span()); s.text[x..y].to_string() }
fn nospace(t: &str) -> String { t.chars().filter(|c| !c.is_whitespace()).collect() }

// ---- types
struct TyVis<'a, 'b> { g: &'a Gen, s: &'a Src, ed: &'b mut Edits }
impl<'a, 'b, 'ast> Visit<'ast> for TyVis<'a, 'b> {
    fn visit_type_trait_object(&mut self, t: &'ast syn::TypeTraitObject) {
        // the chain interfaces are concrete types here; other trait objects stay trait objects
        let plain = t.bounds.iter().any(|b| match b { syn::TypeParamBound::Trait(tb) => tb.path.segments.last().map(|s| ["Storage", "Api", "Querier"].contains(&s.ident.to_string().as_str())).unwrap_or(false), _ => false });
        if plain { if let Some(d) = &t.dyn_token { let (x, y) = self.s.rng(d.span()); self.ed.rep(x, y + 1, ""); } }
        visit::visit_type_trait_object(self, t);
    }
    fn visit_path(&mut self, p: &'ast syn::Path) {
        if p.segments.len() > 1 { self.g.root_ident(self.s, &p.segments[0].ident, self.ed); }
        if p.segments.len() == 1 {
            let n = p.segments[0].ident.to_string();
            let (x, y) = self.s.rng(p.segments[0].ident.span());
            match n.as_str() { "Into" => self.ed.rep(x, y, "VxInto"), "ToString" => self.ed.rep(x, y, "VxToString"), "IntoIterator" => self.ed.rep(x, y, "VxSrc"), "Clone" => self.ed.rep(x, y, "VxClone"), "AsRef" => self.ed.rep(x, y, "VxAsRef"), _ => {} }
            if n == "IntoIterator" { if let syn::PathArguments::AngleBracketed(ab) = &p.segments[0].arguments { for a in &ab.args { if let syn::GenericArgument::AssocType(t) = a { let (x, y) = self.s.rng(t.ident.span()); self.ed.rep(x, y, "VxItem"); } } } }
        }
        visit::visit_path(self, p);
    }
}

// ---- expressions
pub struct Vis<'a> {
    g: &'a Gen, s: &'a Src, mutself: bool, pub ed: Edits, spec: Option<FnSpec>, id: String,
    meth: Vec<String>, pub seen_clo: BTreeSet<String>, pub clo_seq: Vec<(String, String)>, pub loop_seq: Vec<String>, cnt: BTreeMap<String, usize>, pub nloop: usize, pub lost: Vec<String>, pub lifted: String,
}
impl<'a> Vis<'a> {
    fn new(g: &'a Gen, s: &'a Src, spec: Option<FnSpec>, id: String) -> Self {
        Vis { g, s, ed: Edits::default(), spec, id, meth: vec![], seen_clo: BTreeSet::new(), clo_seq: vec![], loop_seq: vec![], cnt: BTreeMap::new(), nloop: 0, lost: vec![], lifted: String::new(), mutself: false }
    }
    fn render(&mut self, e: &syn::Expr) -> String {
        let saved = std::mem::take(&mut self.ed);
        self.visit_expr(e);
        let (x, y) = self.s.rng(e.span());
        let t = self.ed.apply(&self.s.text, x, y);
        self.ed = saved;
        t
    }
    fn raw(&self, sp: proc_macro2::Span) -> String { let (x, y) = self.s.rng(sp); self.s.text[x..y].to_string() }

    fn mac(&mut self, m: &syn::Macro, stmt_semi: bool) {
        let (x, y) = self.s.rng(m.span());
        let name = m.path.segments.last().unwrap().ident.to_string();
        let args = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated.parse2(m.tokens.clone());
        let _ = stmt_semi;
        match name.as_str() {
            "vec" => {
                match args {
                    Ok(a) => { let ts: Vec<String> = a.iter().map(|e| self.render(e)).collect(); self.ed.rep(x, y, format!("vec![{}]", ts.join(", "))); }
                    Err(_) => self.lost.push("vec! repeat".into()),
                }
            }
            "format" => {
                if let Ok(a) = args {
                    let mut it = a.iter();
                    if let Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. })) = it.next() {
                        let rest: Vec<syn::Expr> = it.cloned().collect();
                        let r = self.fmt(&l.value(), &rest);
                        self.ed.rep(x, y, r);
                        return;
                    }
                }
                self.lost.push("format!".into());
            }
            "println" | "eprintln" | "print" | "dbg" => self.ed.rep(x, y, "()"),
            "panic" | "unreachable" | "unimplemented" | "todo" => self.ed.rep(x, y, "vx_panic()"),
            "assert" => { if let Ok(a) = args { let t = self.render(&a[0]); self.ed.rep(x, y, format!("vx_assert({t})")); } }
            "assert_eq" | "assert_ne" => {
                if let Ok(a) = args { let t = self.render(&a[0]); let u = self.render(&a[1]); let n = if name == "assert_ne" { "!" } else { "" }; self.ed.rep(x, y, format!("vx_assert({n}vx_eq(&({t}), &({u})))")); }
            }
            "env" => {
                let k = m.tokens.to_string();
                let v = if k.contains("CARGO_PKG_NAME") { self.g.pkg.clone() } else { self.g.ver.clone() };
                self.ed.rep(x, y, format!("{v:?}"));
            }
            "matches" => {
                let p = |input: syn::parse::ParseStream| -> syn::Result<(syn::Expr, syn::Pat)> {
                    let e: syn::Expr = input.parse()?; input.parse::<syn::Token![,]>()?; let p = syn::Pat::parse_multi_with_leading_vert(input)?; let _ = input.parse::<proc_macro2::TokenStream>()?; Ok((e, p)) };
                if let Ok((e, _)) = p.parse2(m.tokens.clone()) {
                    let et = self.render(&e);
                    let (_, ee) = self.s.rng(e.span());
                    let rest = self.s.text[ee..y].trim().trim_start_matches(',').trim_end().trim_end_matches(')').to_string();
                    self.ed.rep(x, y, format!("(match {et} {{ {rest} => true, _ => false }})"));
                }
            }
            _ => self.lost.push(format!("macro {name}!")),
        }
    }
    fn fmt(&mut self, f: &str, args: &[syn::Expr]) -> String {
        let mut out = String::from("VxFmt::new()");
        let mut lit = String::new();
        let cs: Vec<char> = f.chars().collect();
        let mut i = 0;
        let mut n = 0;
        while i < cs.len() {
            if cs[i] == '{' && i + 1 < cs.len() && cs[i + 1] == '{' { lit.push('{'); i += 2; continue; }
            if cs[i] == '}' && i + 1 < cs.len() && cs[i + 1] == '}' { lit.push('}'); i += 2; continue; }
            if cs[i] == '{' {
                let j = (i..cs.len()).find(|k| cs[*k] == '}').unwrap();
                let inner: String = cs[i + 1..j].iter().collect();
                let (nm, sp) = inner.split_once(':').unwrap_or((inner.as_str(), ""));
                if !lit.is_empty() { out.push_str(&format!(".lit({lit:?})")); lit.clear(); }
                let e = if nm.is_empty() { n += 1; args.get(n - 1).map(|e| self.render(e)).unwrap_or("()".into()) }
                    else if let Ok(k) = nm.parse::<usize>() { args.get(k).map(|e| self.render(e)).unwrap_or("()".into()) }
                    else {
                        // named argument or captured identifier
                        let mut t = nm.to_string();
                        for a in args { if let syn::Expr::Assign(asg) = a { if self.raw(asg.left.span()) == nm { t = self.render(&asg.right); } } }
                        t
                    };
                if sp.is_empty() { out.push_str(&format!(".arg(&({e}))")); } else { out.push_str(&format!(".dbg(&({e}))")); }
                i = j + 1;
                continue;
            }
            lit.push(cs[i]); i += 1;
        }
        if !lit.is_empty() { out.push_str(&format!(".lit({lit:?})")); }
        out.push_str(".done()");
        out
    }
    fn place_index(e: &syn::Expr) -> Option<&syn::ExprIndex> {
        match e { syn::Expr::Index(i) if !matches!(&*i.index, syn::Expr::Range(_)) => Some(i), syn::Expr::Field(f) => Self::place_index(&f.base), syn::Expr::Paren(p) => Self::place_index(&p.expr), _ => None }
    }
    fn loop_proof(&mut self, n: usize, _ba: usize, bb: usize, body: &syn::Block) {
        if let Some(t) = self.spec.as_ref().and_then(|s| s.lend.get(&n).cloned()) {
            let semi = if matches!(body.stmts.last(), Some(syn::Stmt::Expr(_, None))) { ";" } else { "" };
            self.ed.close(bb - 1, format!("{semi}{}", proof_text(&t)));
        }
    }
    fn loop_texts(&self, n: usize) -> (String, String, String) {
        let sp = self.spec.as_ref().and_then(|s| s.loops.get(&n).cloned()).unwrap_or_default();
        let inv = loop_spec(&sp, Some(n));
        let a = self.spec.as_ref().and_then(|s| s.lstart.get(&n).map(|t| proof_text(t))).unwrap_or_default();
        let b = self.spec.as_ref().and_then(|s| s.lend.get(&n).map(|t| proof_text(t))).unwrap_or_default();
        (inv, a, b)
    }
    // an index in a place that is written: the index value is computed first
    fn hoist_index(&mut self, left: &syn::Expr, idx: &syn::ExprIndex) -> (String, String) {
        let base = self.raw(idx.expr.span());
        let i = self.render(&idx.index);
        let (x, y) = self.s.rng(left.span());
        let (ia, ib) = self.s.rng(idx.index.span());
        let lhs = format!("{}vx_l{}", &self.s.text[x..ia], &self.s.text[ib..y]);
        (format!("let vx_l = vx_idx({i}, {base}.len());"), lhs)
    }
    fn is_num_lit(e: &syn::Expr) -> bool { matches!(e, syn::Expr::Lit(l) if matches!(l.lit, syn::Lit::Int(_))) }
}
impl<'a, 'ast> Visit<'ast> for Vis<'a> {
    fn visit_item(&mut self, i: &'ast syn::Item) {
        if let syn::Item::Use(u) = i { self.g.use_tree(self.s, &u.tree, &mut self.ed); return; }
        self.lost.push("inner item".into());
    }
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) { let (x, y) = self.s.rng(a.span()); self.ed.rep(x, y, ""); }
    fn visit_type(&mut self, t: &'ast syn::Type) { self.g.ty(self.s, t, &mut self.ed); }
    fn visit_path(&mut self, p: &'ast syn::Path) {
        if p.segments.len() > 1 {
            self.g.root_ident(self.s, &p.segments[0].ident, &mut self.ed);
            let l = p.segments.last().unwrap();
            let (x, y) = self.s.rng(l.ident.span());
            match l.ident.to_string().as_str() {
                "default" => self.ed.rep(x, y, "vx_default"),
                "from" => self.ed.rep(x, y, "vx_from"),
                "clone" => self.ed.rep(x, y, "vx_clone"),
                _ => {}
            }
            if p.segments.len() == 2 && p.segments[0].ident == "Default" { let (x, y) = self.s.rng(p.segments[0].ident.span()); self.ed.rep(x, y, "VxDefault"); }
        }
        for seg in &p.segments { if let syn::PathArguments::AngleBracketed(ab) = &seg.arguments { for a in &ab.args { if let syn::GenericArgument::Type(t) = a { self.g.ty(self.s, t, &mut self.ed); } } } }
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) { self.mac(m, false); }
    fn visit_stmt_macro(&mut self, m: &'ast syn::StmtMacro) { self.mac(&m.mac, true); }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        let nm = match &l.pat { syn::Pat::Ident(i) => Some(i.ident.to_string()), syn::Pat::Type(t) => match &*t.pat { syn::Pat::Ident(i) => Some(i.ident.to_string()), _ => None }, _ => None };
        if let (Some(n), Some(sp)) = (&nm, self.spec.clone()) {
            let c = { let e = self.cnt.entry(format!("#let {n}")).or_insert(0); *e += 1; *e - 1 };
            let n = &if c == 0 { n.clone() } else { format!("{n}#{c}") };
            if let Some(t) = sp.after.get(n) { let (_, y) = self.s.rng(l.span()); self.ed.close(y, proof_text(t)); self.seen_clo.insert(format!("#after {n}")); }
            if let Some(t) = sp.before.get(n) { let (x, _) = self.s.rng(l.span()); self.ed.open(x, proof_text(t)); self.seen_clo.insert(format!("#before {n}")); }
            if let Some(t) = sp.lets.get(n) { if let syn::Pat::Ident(i) = &l.pat { let (_, y) = self.s.rng(i.span()); self.ed.close(y, format!(": {t}")); } }
        }
        if let syn::Pat::Type(t) = &l.pat { self.g.ty(self.s, &t.ty, &mut self.ed); }
        if let Some(i) = &l.init { self.meth.push(format!("let:{}", nm.unwrap_or_default())); self.visit_expr(&i.expr); self.meth.pop(); if let Some((_, d)) = &i.diverge { self.visit_expr(d); } }
    }
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        match e {
            // RECV.try_fold(INIT, |acc, x| BODY)? whose closure changes a captured variable, as the loop it stands for
            syn::Expr::Try(t) if lift_fold(&t.expr).is_some() => {
                let (m, c) = lift_fold(&t.expr).unwrap();
                let n = self.nloop; self.nloop += 1; let lt = flat(&self.raw(e.span())); self.loop_seq.push(lt);
                let (x, y) = self.s.rng(e.span());
                let (_, ra) = self.s.rng(m.receiver.span());
                let (ba, bb) = self.s.rng(c.body.span());
                let pacc = self.raw(c.inputs[0].span());
                let pat = self.raw(c.inputs[1].span());
                let init = self.render(&m.args[0]);
                self.ed.open(x, format!("{{ let mut vx_acc{n} = {init}; let vx_it{n} = VxSrc::vx_into_iter("));
                self.meth.push("_".into());
                self.visit_expr(&m.receiver);
                self.meth.pop();
                let (inv, lst, lend) = self.loop_texts(n);
                self.ed.rep(ra, ba, format!("); let mut vx_i{n}: usize = 0; while vx_i{n} < vx_it{n}.vx_len() {inv} {{ let {pacc} = vx_acc{n}; let {pat} = vx_it{n}.vx_at(vx_i{n}); vx_i{n} = vx_i{n} + 1;{lst} vx_acc{n} = ("));
                self.meth.push("_".into());
                self.visit_expr(&c.body);
                self.meth.pop();
                self.ed.rep(bb, y, format!(")?; {lend} }} vx_acc{n} }}"));
            }
            // RECV.map(|x| BODY).collect::<Result<Vec<_>, _>>()? likewise
            syn::Expr::Try(t) if lift_map(&t.expr).is_some() => {
                let (m, c) = lift_map(&t.expr).unwrap();
                let n = self.nloop; self.nloop += 1; let lt = flat(&self.raw(e.span())); self.loop_seq.push(lt);
                let (x, y) = self.s.rng(e.span());
                let (_, ra) = self.s.rng(m.receiver.span());
                let (ba, bb) = self.s.rng(c.body.span());
                let pat = self.raw(c.inputs[0].span());
                self.ed.open(x, format!("{{ let mut vx_out{n} = Vec::new(); let vx_it{n} = VxSrc::vx_into_iter("));
                self.meth.push("_".into());
                self.visit_expr(&m.receiver);
                self.meth.pop();
                let (inv, lst, lend) = self.loop_texts(n);
                self.ed.rep(ra, ba, format!("); let mut vx_i{n}: usize = 0; while vx_i{n} < vx_it{n}.vx_len() {inv} {{ let {pat} = vx_it{n}.vx_at(vx_i{n}); vx_i{n} = vx_i{n} + 1;{lst} let vx_o{n} = ("));
                self.meth.push("_".into());
                self.visit_expr(&c.body);
                self.meth.pop();
                self.ed.rep(bb, y, format!(")?; vx_out{n}.push(vx_o{n}); {lend} }} vx_out{n} }}"));
            }
            syn::Expr::MethodCall(m) if lift_kind(m).is_some() => {
                // a closure that changes a captured variable: the iterator adaptor written as the loop it stands for
                let any = lift_kind(m).unwrap();
                let n = self.nloop; self.nloop += 1; let lt = flat(&self.raw(e.span())); self.loop_seq.push(lt);
                let c = match &m.args[0] { syn::Expr::Closure(c) => c, _ => unreachable!() };
                let (x, y) = self.s.rng(e.span());
                let (_, ra) = self.s.rng(m.receiver.span());
                let (ba, bb) = self.s.rng(c.body.span());
                let pat = self.raw(c.inputs[0].span());
                self.ed.open(x, format!("{{ let vx_it{n} = VxSrc::vx_into_iter("));
                self.meth.push("_".into());
                self.visit_expr(&m.receiver);
                self.meth.pop();
                let sp = self.spec.as_ref().and_then(|s| s.loops.get(&n).cloned()).unwrap_or_default();
                let inv = loop_spec(&sp, Some(n));
                let lst = self.spec.as_ref().and_then(|s| s.lstart.get(&n).map(|t| proof_text(t))).unwrap_or_default();
                let (init, stop, neg) = match any { "all" => ("true", "false", "!"), "any" => ("false", "true", ""), _ => ("false", "false", "") };
                let cond = if any == "for_each" { String::new() } else { format!("vx_b{n} == {init} && ") };
                let pre = if any == "for_each" { String::new() } else { format!("if {neg}(") };
                self.ed.rep(ra, ba, format!("); let mut vx_i{n}: usize = 0; let mut vx_b{n}: bool = {init}; while {cond}vx_i{n} < vx_it{n}.vx_len() {inv} {{ let {pat} = vx_it{n}.vx_at(vx_i{n}); vx_i{n} = vx_i{n} + 1;{lst} {pre}"));
                self.meth.push("_".into());
                self.visit_expr(&c.body);
                self.meth.pop();
                let pr = self.spec.as_ref().and_then(|s| s.lend.get(&n).map(|t| proof_text(t))).unwrap_or_default();
                let post = if any == "for_each" { format!("; {pr} }} }}") } else { format!(") {{ vx_b{n} = {stop}; }} {pr} }} vx_b{n} }}") };
                self.ed.rep(bb, y, post);
            }
            syn::Expr::MethodCall(m) => {
                self.meth.push("_".into());
                self.visit_expr(&m.receiver);
                self.meth.pop();
                let n = m.method.to_string();
                // adaptors called on a range go through its iterator
                if let syn::Expr::Paren(p) = &*m.receiver { if let syn::Expr::Range(r) = &*p.expr { if let (Some(a), Some(b)) = (&r.start, &r.end) { if RENAME.contains(&n.as_str()) && n != "into_iter" && n != "contains" {
                    if let syn::RangeLimits::Closed(_) = r.limits {
                        let (x, y) = self.s.rng(p.span());
                        let (_, ay) = self.s.rng(a.span());
                        let (bx, by) = self.s.rng(b.span());
                        let (ax, _) = self.s.rng(a.span());
                        self.ed.rep(x, ax, "(crate::vx::vx_incl(");
                        self.ed.rep(ay, bx, ", ");
                        self.ed.rep(by, y, "))");
                    } else {
                        let (_, y) = self.s.rng(p.span());
                        self.ed.close(y, ".vx_into_iter()");
                    }
                } } } }
                if RENAME.contains(&n.as_str()) && !(n == "collect" && !m.args.is_empty()) { let (x, y) = self.s.rng(m.method.span()); self.ed.rep(x, y, format!("vx_{n}")); }
                if let Some(t) = &m.turbofish { for a in &t.args { if let syn::GenericArgument::Type(t) = a { self.g.ty(self.s, t, &mut self.ed); } } }
                self.meth.push(n);
                for a in &m.args { self.visit_expr(a); }
                self.meth.pop();
            }
            syn::Expr::Call(c) => {
                let boxed = nospace(&self.raw(c.func.span())) == "Box::new" && c.args.len() == 1 && matches!(c.args[0], syn::Expr::Closure(_));
                if boxed { let (x, y) = self.s.rng(c.func.span()); self.ed.rep(x, y, ""); } else {
                self.visit_expr(&c.func); }
                self.meth.push("call".into());
                for a in &c.args { self.visit_expr(a); }
                self.meth.pop();
            }
            syn::Expr::Binary(b) => {
                use syn::BinOp::*;
                let f = match b.op { Add(_) => "vx_add", Sub(_) => "vx_sub", Mul(_) => "vx_mul", Div(_) => "vx_div", Rem(_) => "vx_rem", Eq(_) => "vx_eq", Ne(_) => "!vx_eq", Lt(_) => "vx_lt", Le(_) => "vx_le", Gt(_) => "vx_gt", Ge(_) => "vx_ge",
                    AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) => "assign", _ => "" };
                let (x, y) = self.s.rng(e.span());
                let (ox, oy) = self.s.rng(b.op.span());
                if f.is_empty() || (Self::is_num_lit(&b.left) && Self::is_num_lit(&b.right)) { self.visit_expr(&b.left); self.visit_expr(&b.right); return; }
                if f == "assign" {
                    let g = match b.op { AddAssign(_) => "vx_add", SubAssign(_) => "vx_sub", MulAssign(_) => "vx_mul", _ => "vx_div" };
                    if let Some(idx) = Self::place_index(&b.left) {
                        let r = self.render(&b.right);
                        let (pre, lhs) = self.hoist_index(&b.left, idx);
                        self.ed.rep(x, y, format!("{{ let vx_a = {r}; {pre} {lhs} = {g}({lhs}, vx_a); }}"));
                        return;
                    }
                    let l = self.render(&b.left);
                    let r = self.render(&b.right);
                    self.ed.rep(x, y, format!("{l} = {g}({l}, {r})"));
                    return;
                }
                let cmp = f.contains("eq") || ["vx_lt", "vx_le", "vx_gt", "vx_ge"].contains(&f);
                if cmp { self.ed.open(x, format!("{f}(&(")); self.ed.rep(ox, oy, "), &("); self.ed.close(y, "))"); }
                else { self.ed.open(x, format!("{f}(")); self.ed.rep(ox, oy, ","); self.ed.close(y, ")"); }
                self.visit_expr(&b.left);
                self.visit_expr(&b.right);
            }
            syn::Expr::Assign(a) if Self::place_index(&a.left).is_some() => {
                let idx = Self::place_index(&a.left).unwrap();
                let (x, y) = self.s.rng(a.span());
                let r = self.render(&a.right);
                let (pre, lhs) = self.hoist_index(&a.left, idx);
                self.ed.rep(x, y, format!("{{ let vx_a = {r}; {pre} {lhs} = vx_a; }}"));
            }
            syn::Expr::Index(i) => {
                if let syn::Expr::Range(rg) = &*i.index {
                    // slicing: x[a..b] as a call returning the sub-slice
                    let base = self.render(&i.expr);
                    let lo = rg.start.as_ref().map(|e| self.render(e)).unwrap_or("0".into());
                    let incl = matches!(rg.limits, syn::RangeLimits::Closed(_));
                    let hi = rg.end.as_ref().map(|e| { let t = self.render(e); if incl { format!("vx_add({t}, 1)") } else { t } }).unwrap_or(format!("{base}.len()"));
                    let (x, y) = self.s.rng(e.span());
                    self.ed.rep(x, y, format!("vx_rng(&{base}, {lo}, {hi})"));
                    return;
                }
                let mut base = self.raw(i.expr.span());
                if base.contains('(') && !base.contains('|') { base = self.render(&i.expr); }
                self.visit_expr(&i.expr);
                let (x, y) = self.s.rng(i.index.span());
                self.ed.open(x, "vx_idx(");
                self.ed.close(y, format!(", {base}.len())"));
                self.visit_expr(&i.index);
            }
            syn::Expr::Closure(c) => self.closure(c),
            syn::Expr::ForLoop(f) => {
                let n = self.nloop; self.nloop += 1; let lt = flat(&self.raw(e.span())); self.loop_seq.push(lt);
                let (x, _) = self.s.rng(f.for_token.span());
                let (ea, eb) = self.s.rng(f.expr.span());
                let (_, pb) = self.s.rng(f.pat.span());
                let pat = self.raw(f.pat.span());
                let _ = pb;
                self.ed.rep(x, ea, format!("{{ let vx_it{n} = VxSrc::vx_into_iter("));
                self.visit_expr(&f.expr);
                let sp = self.spec.as_ref().and_then(|s| s.loops.get(&n).cloned()).unwrap_or_default();
                let (ba, bb) = self.s.rng(f.body.span());
                let inv = loop_spec(&sp, Some(n));
                let lst = self.spec.as_ref().and_then(|s| s.lstart.get(&n).map(|t| proof_text(t))).unwrap_or_default();
                self.ed.rep(eb, ba + 1, format!("); let mut vx_i{n}: usize = 0; while vx_i{n} < vx_it{n}.vx_len() {inv} {{ let {pat} = vx_it{n}.vx_at(vx_i{n}); vx_i{n} = vx_i{n} + 1;{lst}"));
                self.loop_proof(n, ba, bb, &f.body);
                for st in &f.body.stmts { self.visit_stmt(st); }
                self.ed.close(bb, "}");
            }
            syn::Expr::While(w) => {
                let n = self.nloop; self.nloop += 1; let lt = flat(&self.raw(e.span())); self.loop_seq.push(lt);
                self.visit_expr(&w.cond);
                let sp = self.spec.as_ref().and_then(|s| s.loops.get(&n).cloned()).unwrap_or_default();
                let (ba, _) = self.s.rng(w.body.span());
                self.ed.open(ba, loop_spec(&sp, None));
                if let Some(t) = self.spec.as_ref().and_then(|s| s.lstart.get(&n).cloned()) { self.ed.open(ba + 1, proof_text(&t)); }
                let bb = self.s.rng(w.body.span()).1;
                self.loop_proof(n, ba, bb, &w.body);
                self.visit_block(&w.body);
            }
            syn::Expr::Loop(w) => {
                let n = self.nloop; self.nloop += 1; let lt = flat(&self.raw(e.span())); self.loop_seq.push(lt);
                let sp = self.spec.as_ref().and_then(|s| s.loops.get(&n).cloned()).unwrap_or_default();
                let (ba, _) = self.s.rng(w.body.span());
                self.ed.open(ba, loop_spec(&sp, None));
                if let Some(t) = self.spec.as_ref().and_then(|s| s.lstart.get(&n).cloned()) { self.ed.open(ba + 1, proof_text(&t)); }
                let bb = self.s.rng(w.body.span()).1;
                self.loop_proof(n, ba, bb, &w.body);
                self.visit_block(&w.body);
            }
            syn::Expr::Path(p) => { if self.mutself && p.path.is_ident("self") { let (x, y) = self.s.rng(p.span()); self.ed.rep(x, y, "vx_self"); return; } self.visit_path(&p.path); if let Some(q) = &p.qself { self.visit_type(&q.ty); } }
            syn::Expr::Macro(m) => self.mac(&m.mac, false),
            _ => visit::visit_expr(self, e),
        }
    }
}
// iterator adaptors whose closure changes a captured variable
fn lift_kind(m: &syn::ExprMethodCall) -> Option<&'static str> {
    let k = match m.method.to_string().as_str() { "all" => "all", "any" => "any", "for_each" => "for_each", _ => return None };
    if m.args.len() != 1 { return None; }
    let c = match &m.args[0] { syn::Expr::Closure(c) if c.inputs.len() == 1 => c, _ => return None };
    let v = captures(c);
    if v.mutates && !v.exits { Some(k) } else { None }
}
// does a closure change a variable it captures, does it leave early, does it contain a plain return
struct Capt { mutates: bool, exits: bool, returns: bool }
fn captures(c: &syn::ExprClosure) -> Capt {
    struct M { mutates: bool, exits: bool, returns: bool, bound: BTreeSet<String> }
    fn root(e: &syn::Expr) -> Option<String> { match e { syn::Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()), syn::Expr::Field(f) => root(&f.base), syn::Expr::Index(i) => root(&i.expr), syn::Expr::Paren(p) => root(&p.expr), syn::Expr::Unary(u) => root(&u.expr), syn::Expr::MethodCall(m) => root(&m.receiver), _ => None } }
    impl<'ast> Visit<'ast> for M {
        fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) { self.bound.insert(p.ident.to_string()); }
        fn visit_expr(&mut self, e: &'ast syn::Expr) {
            let mut hit = None;
            match e {
                syn::Expr::MethodCall(m) if ["insert", "push", "remove", "get_mut", "iter_mut", "entry", "extend", "pop", "push_str", "retain", "append", "clear", "truncate"].contains(&m.method.to_string().as_str()) => hit = root(&m.receiver),
                syn::Expr::Assign(a) => hit = root(&a.left),
                syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::AddAssign(_) | syn::BinOp::SubAssign(_) | syn::BinOp::MulAssign(_) | syn::BinOp::DivAssign(_)) => hit = root(&b.left),
                syn::Expr::Reference(r) if r.mutability.is_some() => hit = root(&r.expr),
                syn::Expr::Try(_) => self.exits = true,
                syn::Expr::Return(_) => { self.exits = true; self.returns = true; }
                _ => {}
            }
            if let Some(h) = hit { if !self.bound.contains(&h) { self.mutates = true; } }
            visit::visit_expr(self, e);
        }
    }
    let mut v = M { mutates: false, exits: false, returns: false, bound: BTreeSet::new() };
    for p in &c.inputs { v.visit_pat(p); }
    v.visit_expr(&c.body);
    Capt { mutates: v.mutates, exits: v.exits, returns: v.returns }
}
fn unparen(e: &syn::Expr) -> &syn::Expr { match e { syn::Expr::Paren(p) => unparen(&p.expr), e => e } }
fn lift_fold(e: &syn::Expr) -> Option<(&syn::ExprMethodCall, &syn::ExprClosure)> {
    let m = match unparen(e) { syn::Expr::MethodCall(m) if m.method == "try_fold" && m.args.len() == 2 => m, _ => return None };
    let c = match &m.args[1] { syn::Expr::Closure(c) if c.inputs.len() == 2 => c, _ => return None };
    let k = captures(c);
    if k.mutates && !k.returns { Some((m, c)) } else { None }
}
fn lift_map(e: &syn::Expr) -> Option<(&syn::ExprMethodCall, &syn::ExprClosure)> {
    let o = match unparen(e) { syn::Expr::MethodCall(m) if m.method == "collect" && m.args.is_empty() => m, _ => return None };
    let t = match &o.turbofish { Some(t) if t.args.len() == 1 => match &t.args[0] { syn::GenericArgument::Type(syn::Type::Path(p)) => p, _ => return None }, _ => return None };
    let last = t.path.segments.last()?;
    if last.ident != "Result" && last.ident != "StdResult" { return None; }
    let inner = match &last.arguments { syn::PathArguments::AngleBracketed(a) => match a.args.first()? { syn::GenericArgument::Type(syn::Type::Path(p)) => p.path.segments.last()?.ident.to_string(), _ => return None }, _ => return None };
    if inner != "Vec" { return None; }
    let m = match &*o.receiver { syn::Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 => m, _ => return None };
    let c = match &m.args[0] { syn::Expr::Closure(c) if c.inputs.len() == 1 => c, _ => return None };
    let k = captures(c);
    if k.mutates && !k.returns { Some((m, c)) } else { None }
}
// text of a specification proof: ghost definitions stay visible, the rest goes into a proof block
fn proof_text(t: &str) -> String {
    let (g, p): (Vec<&str>, Vec<&str>) = t.lines().partition(|l| l.trim_start().starts_with("let ghost"));
    format!("\n{}\n{}", g.join("\n"), if p.join("").trim().is_empty() { String::new() } else { format!("proof {{ {} }}\n", p.join("\n")) })
}
fn loop_spec(sp: &str, n: Option<usize>) -> String {
    let mut inv = String::new();
    let mut dec = String::new();
    let (a, b) = match sp.find("decreases") { Some(p) => (&sp[..p], &sp[p + 9..]), None => (sp, "") };
    let a = a.trim().trim_start_matches("invariant").trim().trim_end_matches(',');
    if let Some(n) = n { inv.push_str(&format!("vx_i{n} <= vx_it{n}@.len(), ")); if b.trim().is_empty() { dec = format!("vx_it{n}@.len() - vx_i{n}"); } }
    if !a.is_empty() { inv.push_str(a); inv.push(','); }
    if !b.trim().is_empty() { dec = b.trim().trim_end_matches(',').to_string(); }
    let mut o = String::new();
    if !inv.is_empty() { o.push_str(&format!("\n    invariant {inv}\n")); }
    if !dec.is_empty() { o.push_str(&format!("\n    decreases {dec}\n")); }
    o
}
impl<'a> Vis<'a> {
    fn closure(&mut self, c: &syn::ExprClosure) {
        let m = self.meth.last().cloned().unwrap_or("_".into());
        let k = { let e = self.cnt.entry(m.clone()).or_insert(0); *e += 1; *e - 1 };
        let key = if m.starts_with("let:") { m.clone() } else { format!("{m}.{k}") };
        self.seen_clo.insert(key.clone());
        let ct = flat(&self.raw(c.span())); self.clo_seq.push((key.clone(), ct));
        let sp = self.spec.as_ref().and_then(|s| s.closures.get(&key).cloned());
        let (x, y) = self.s.rng(c.span());
        let (ba, bb) = self.s.rng(c.body.span());
        self.meth.push("_".into());
        let isblock = matches!(&*c.body, syn::Expr::Block(_));
        match sp {
            Some((h, cl)) => {
                let want = header_params(&h);
                let mut lets = String::new();
                let mut hh = h.clone();
                if want.len() != c.inputs.len() { self.lost.push(format!("closure {key} arity")); }
                let mut map = vec![];
                for (i, p) in c.inputs.iter().enumerate() {
                    let mut simple = None;
                    let pat = match p { syn::Pat::Type(t) => &*t.pat, p => p };
                    if let syn::Pat::Ident(id) = pat { if id.by_ref.is_none() && id.subpat.is_none() { simple = Some((id.ident.to_string(), id.mutability.is_some())); } }
                    if i >= want.len() { break; }
                    match simple {
                        Some((n, mu)) => { if n != want[i] { map.push((want[i].clone(), n.clone())); } if mu { lets.push_str(&format!("let mut {n} = {n}; ")); } }
                        None => { let t = self.raw(pat.span()); lets.push_str(&format!("let {t} = {}; ", want[i])); }
                    }
                }
                hh = subst(&hh, &map);
                let cl = subst(&cl, &map);
                self.ed.rep(x, ba, format!("{hh} {cl} {{ {lets}"));
                self.ed.close(bb, " }");
                let _ = isblock;
                self.visit_expr(&c.body);
            }
            None => {
                // patterns in closure parameters are not supported by the verifier
                let mut lets = String::new();
                let mut any = false;
                let mut ps = vec![];
                for (i, p) in c.inputs.iter().enumerate() {
                    let pat = match p { syn::Pat::Type(t) => &*t.pat, p => p };
                    let n = format!("vx_c{i}");
                    match pat {
                        syn::Pat::Ident(id) if id.by_ref.is_none() && id.mutability.is_none() => ps.push(self.raw(p.span())),
                        syn::Pat::Wild(_) => { ps.push(n); any = true; }
                        _ => { any = true; lets.push_str(&format!("let {} = {n}; ", self.raw(pat.span()))); match p { syn::Pat::Type(t) => ps.push(format!("{n}: {}", self.raw(t.ty.span()))), _ => ps.push(n) } }
                    }
                }
                if any { let mv = if c.capture.is_some() { "move " } else { "" }; let rt = match &c.output { syn::ReturnType::Type(_, t) => format!(" -> (vx_q: {})", self.g.ty_text(self.s, t)), _ => String::new() }; self.ed.rep(x, ba, format!("{mv}|{}|{rt} {{ {lets}", ps.join(", "))); self.ed.close(bb, " }"); }
                else if let syn::ReturnType::Type(_, t) = &c.output { let (tx, ty) = self.s.rng(t.span()); let tt = self.g.ty_text(self.s, t); self.ed.rep(tx, ty, format!("(vx_q: {tt})")); }
                else { for p in &c.inputs { if let syn::Pat::Type(t) = p { self.g.ty(self.s, &t.ty, &mut self.ed); } } }
                self.visit_expr(&c.body);
            }
        }
        let _ = y;
        self.meth.pop();
    }
}
fn header_params(h: &str) -> Vec<String> {
    let a = h.find('|').unwrap();
    let b = h[a + 1..].find('|').unwrap() + a + 1;
    let inner = &h[a + 1..b];
    let mut out = vec![];
    let mut depth = 0;
    let mut cur = String::new();
    for c in inner.chars() {
        match c { '(' | '<' | '[' => depth += 1, ')' | '>' | ']' => depth -= 1, ',' if depth == 0 => { out.push(cur.clone()); cur.clear(); continue; } _ => {} }
        cur.push(c);
    }
    if !cur.trim().is_empty() { out.push(cur); }
    out.iter().map(|p| p.split(':').next().unwrap().trim().trim_start_matches("mut ").to_string()).collect()
}
