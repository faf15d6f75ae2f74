// .vspec files: contracts keyed by crate-module / file / function.
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct FnSpec {
    pub params: Vec<String>,
    pub ret: String,
    pub props: Vec<String>,
    pub reqs: Vec<String>,
    pub enss: Vec<(Vec<String>, String)>,
    pub closures: BTreeMap<String, (String, String)>, // key -> (header "|p: T| -> (q: R)", clauses)
    pub loops: BTreeMap<usize, String>,
    pub lstart: BTreeMap<usize, String>,
    pub lend: BTreeMap<usize, String>,
    pub start: String,
    pub tail: String,
    pub before: BTreeMap<String, String>,
    pub after: BTreeMap<String, String>,
    pub attrs: String,
    pub trust: Option<String>,
    pub lifts: BTreeMap<String, (String, String)>,
    pub sig: Option<String>,
    pub lets: BTreeMap<String, String>,
}

#[derive(Default)]
pub struct Specs {
    pub fns: BTreeMap<String, FnSpec>,
    pub raw: BTreeMap<String, String>,      // module file id -> raw text
    pub implraw: BTreeMap<String, String>,  // file::impl key -> raw text
    pub skip: BTreeMap<String, bool>,       // file::item
}

impl Specs {
    pub fn load(&mut self, text: &str, path: &str) {
        let mut krate = String::new();
        let mut file = String::new();
        #[derive(PartialEq)]
        enum Ctx { None, Fn(String), Raw, ImplRaw(String) }
        let mut ctx = Ctx::None;
        let mut dir = String::new();
        let mut darg = String::new();
        let mut buf = String::new();
        let lines: Vec<&str> = text.lines().collect();
        let mut i = 0;
        macro_rules! flush { () => {{
            if let Ctx::Fn(k) = &ctx { if !dir.is_empty() {
                let f = self.fns.get_mut(k).unwrap();
                let b = buf.trim().trim_end_matches(',').to_string();
                match dir.as_str() {
                    "props" => f.props.extend((darg.clone() + " " + &b).split_whitespace().map(|s| s.to_string())),
                    "req" => f.reqs.push(b),
                    "ens" => f.enss.push((darg.split([',', ' ']).filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(), b)),
                    "closure" => { let (h, rest) = darg.split_once(' ').unwrap_or((darg.as_str(), "")); f.closures.insert(h.to_string(), (rest.trim().to_string(), b)); }
                    "lift" => { let (h, rest) = darg.split_once(' ').unwrap_or((darg.as_str(), "")); f.lifts.insert(h.to_string(), (rest.trim().to_string(), b)); }
                    "loop" => { let (n, r) = darg.trim().split_once(' ').unwrap_or((darg.trim(), "")); f.loops.insert(n.parse().unwrap(), format!("{r}\n{b}")); }
                    "loopstart" | "loopend" => { let (n, r) = darg.trim().split_once(' ').unwrap_or((darg.trim(), "")); (if dir == "loopstart" { &mut f.lstart } else { &mut f.lend }).insert(n.parse().unwrap(), format!("{r}\n{b}")); }
                    "start" => { f.start.push_str(&darg); f.start.push('\n'); f.start.push_str(&b); f.start.push('\n') }
                    "tail" => { f.tail.push_str(&darg); f.tail.push('\n'); f.tail.push_str(&b); f.tail.push('\n') }
                    "before" => { let (n, r) = darg.trim().split_once(' ').unwrap_or((darg.trim(), "")); f.before.insert(n.to_string(), format!("{r}\n{b}").trim().to_string()); }
                    "after" => { let (n, r) = darg.trim().split_once(' ').unwrap_or((darg.trim(), "")); f.after.insert(n.to_string(), format!("{r}\n{b}").trim().to_string()); }
                    "lettype" => { let (n, r) = darg.trim().split_once(' ').unwrap_or((darg.trim(), "")); f.lets.insert(n.to_string(), format!("{r}\n{b}").trim().to_string()); }
                    "attr" => { f.attrs.push_str(&darg); f.attrs.push_str(&b); f.attrs.push('\n') }
                    "trust" => f.trust = Some(darg.clone() + " " + &b),
                    "sig" => f.sig = Some((darg.clone() + " " + &b).trim().to_string()),
                    d => panic!("{path}: unknown directive @{d}"),
                }
            }}
            dir.clear(); darg.clear(); buf.clear();
        }} }
        while i < lines.len() {
            let l = lines[i];
            i += 1;
            if let Some(r) = l.strip_prefix("@@ ") {
                flush!();
                let (k, a) = r.trim().split_once(' ').unwrap_or((r.trim(), ""));
                let a = a.trim();
                match k {
                    "crate" => { krate = a.into(); ctx = Ctx::None }
                    "file" => { file = format!("{krate}/{a}"); ctx = Ctx::None }
                    "fn" => {
                        // Name(params) [-> ret]
                        let (name, rest) = match find_params(a) { Some(p) => (a[..p].trim().to_string(), &a[p..]), None => (a.to_string(), "()") };
                        let close = rest.rfind(')').unwrap();
                        let ps = rest[1..close].split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
                        let ret = rest[close + 1..].trim().trim_start_matches("->").trim().to_string();
                        let key = format!("{file}::{name}");
                        if self.fns.contains_key(&key) { panic!("{path}: duplicate spec {key}"); }
                        self.fns.insert(key.clone(), FnSpec { params: ps, ret: if ret.is_empty() { "r".into() } else { ret }, ..Default::default() });
                        ctx = Ctx::Fn(key);
                    }
                    "raw" => { ctx = Ctx::Raw }
                    "implraw" => { ctx = Ctx::ImplRaw(format!("{file}::{a}")) }
                    "skip" => { self.skip.insert(format!("{file}::{a}"), true); ctx = Ctx::None }
                    k => panic!("{path}: unknown @@ {k}"),
                }
                continue;
            }
            match &ctx {
                Ctx::Raw => { let e = self.raw.entry(file.clone()).or_default(); e.push_str(l); e.push('\n'); }
                Ctx::ImplRaw(k) => { let e = self.implraw.entry(k.clone()).or_default(); e.push_str(l); e.push('\n'); }
                Ctx::Fn(_) => {
                    if l.trim_start().starts_with("//#") { continue; }
                    if let Some(r) = l.strip_prefix('@') {
                        flush!();
                        let r = r.trim_end();
                        let end = r.find(|c: char| !c.is_alphanumeric()).unwrap_or(r.len());
                        dir = r[..end].to_string();
                        let rest = &r[end..];
                        if dir == "ens" || dir == "req" {
                            if let Some(x) = rest.strip_prefix('[') { let (a, b) = x.split_once(']').unwrap(); darg = a.into(); buf.push_str(b); }
                            else { buf.push_str(rest); }
                        } else { darg = rest.trim().to_string(); }
                        buf.push('\n');
                    } else { buf.push_str(l); buf.push('\n'); }
                }
                Ctx::None => { if !l.trim().is_empty() && !l.trim_start().starts_with("//") { panic!("{path}:{i}: stray line: {l}"); } }
            }
        }
        flush!();
    }
}

// the parameter list starts at the last '(' on the line that is not inside <...> of the impl key
fn find_params(a: &str) -> Option<usize> {
    let mut depth = 0i32;
    let b = a.as_bytes();
    for (i, c) in b.iter().enumerate() {
        match c { b'<' => depth += 1, b'>' if i > 0 && b[i - 1] != b'-' => depth -= 1, b'(' if depth == 0 => return Some(i), _ => {} }
    }
    None
}
