// Span based edits: insertions and replacements over the original text.
#[derive(Clone, Debug)]
pub struct Edit { pub s: usize, pub e: usize, pub t: String, pub class: u8, pub seq: i64 }

#[derive(Default)]
pub struct Edits { pub v: Vec<Edit>, n: i64 }

impl Edits {
    pub fn open(&mut self, at: usize, t: impl Into<String>) { self.n += 1; self.v.push(Edit { s: at, e: at, t: t.into(), class: 1, seq: self.n }); }
    pub fn close(&mut self, at: usize, t: impl Into<String>) { self.n += 1; self.v.push(Edit { s: at, e: at, t: t.into(), class: 0, seq: -self.n }); }
    pub fn rep(&mut self, s: usize, e: usize, t: impl Into<String>) { self.n += 1; if s == e { return self.open(s, t) } self.v.push(Edit { s, e, t: t.into(), class: 2, seq: self.n }); }
    pub fn apply(&self, src: &str, a: usize, b: usize) -> String {
        let all: Vec<&Edit> = self.v.iter().filter(|x| x.s >= a && x.e <= b).collect();
        let reps: Vec<&Edit> = all.iter().filter(|x| x.e > x.s).cloned().collect();
        let mut v: Vec<&Edit> = all.into_iter().filter(|x| !reps.iter().any(|r| {
            if x.e > x.s {
                r.seq != x.seq && r.s <= x.s && x.e <= r.e && ((r.e - r.s) > (x.e - x.s) || r.seq < x.seq)
            } else { r.s < x.s && x.s < r.e }
        })).collect();
        v.sort_by_key(|x| (x.s, x.class, x.seq));
        let mut out = String::new();
        let mut p = a;
        for x in v {
            if x.s < p { continue; }
            out.push_str(&src[p..x.s]);
            out.push_str(&x.t);
            p = x.e;
        }
        out.push_str(&src[p..b]);
        out
    }
}
