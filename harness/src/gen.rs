//! Layer descriptions, their generators, and worst-case bounds that keep f32 exact.
use crate::json::J;
use crate::tens::*;

#[derive(Clone, Debug, PartialEq)]
pub struct Args {
    pub kind: &'static str,
    pub name: String,
    pub p: Vec<IT>,
    pub nk: usize,
    pub inn: [u32; 3],
    pub st: u32,
    pub win: [u32; 3],
}
impl Args {
    pub fn json(&self) -> J {
        J::obj().set("kind", self.kind).set("name", &self.name)
            .set("p", J::A(self.p.iter().map(J::from).collect())).set("nk", self.nk)
            .set("in", self.inn).set("st", self.st.min(2_000_000_000)).set("win", self.win)
    }
    pub fn in_shape(&self) -> [u32; 3] {
        if self.kind == "fc" { [self.p[0].s[1], 1, self.p[0].s[2]] } else { self.inn }
    }
    pub fn ok(&self) -> bool {
        let fits = |w: [u32; 3]| {
            self.st >= 1 && w[0] <= self.inn[0] && w[1] <= self.inn[1]
                && (self.inn[0] - w[0]) % self.st == 0 && (self.inn[1] - w[1]) % self.st == 0
        };
        match self.kind {
            "fc" => self.p[0].s[2] == self.p[1].s[2] && self.p[0].s[0] == self.p[1].s[0] && self.p[1].s[1] == 1,
            "conv" => {
                self.nk >= 1 && self.p[..self.nk].iter().all(|k| k.s == self.p[0].s) && self.p[0].s[2] == self.inn[2]
                    && fits(self.p[0].s) && self.p.len() == 2 * self.nk && self.p[self.nk..].iter().all(|b| b.s == [1, 1, 1])
            }
            "pool" => fits(self.win),
            _ => true,
        }
    }
    pub fn out_shape(&self) -> [u32; 3] {
        match self.kind {
            "fc" => self.p[1].s,
            "conv" => { let k = self.p[0].s; [(self.inn[0] - k[0]) / self.st + 1, (self.inn[1] - k[1]) / self.st + 1, self.nk as u32] }
            "pool" => [(self.inn[0] - self.win[0]) / self.st + 1, (self.inn[1] - self.win[1]) / self.st + 1, self.inn[2]],
            "user" => [size(self.inn) as u32, 1, 1],
            _ => self.inn,
        }
    }
}
pub fn name(r: &mut Rng) -> String {
    let n = r.u(0, 19);
    match n {
        10..=12 => "same".to_string(),
        13 => "n".repeat(*r.pick(&[127usize, 128, 255, 256, 257, 300])),
        14 => "nul \0 tab \t bell \u{7}".to_string(),
        0 => String::new(),
        1 => "a name with spaces / and \"quotes\"\n".to_string(),
        2 => "\u{4e2d}\u{6587} \u{fc}\u{df}".to_string(),
        3 => "x".repeat(r.u(20, 80) as usize),
        _ => format!("layer_{}", r.u(0, 99)),
    }
}
/// split a length into (kernel, stride) that tiles it
fn tile(r: &mut Rng, len: [u32; 2], all: bool) -> ([u32; 2], u32) {
    let top = if r.chance(15) { 9 } else { 4 };
    for _ in 0..20 {
        let st = if r.chance(12) { r.u(5, 11) } else { *r.pick(&[1u32, 1, 1, 2, 2, 3, 4]) };
        let k = [r.u(1, len[0].min(top)), if all { len[1] } else { r.u(1, len[1].min(top)) }];
        if (len[0] - k[0]) % st == 0 && (len[1] - k[1]) % st == 0 { return (k, st); }
    }
    (len, *r.pick(&[1, 2, 5]))
}
pub struct Style {
    pub w: i64,
    pub b: i64,
    pub outs: u32,
}
/// a valid layer of the given kind for the given input shape (fc needs inn[1] == 1)
pub fn args(r: &mut Rng, kind: &'static str, inn: [u32; 3], sty: &Style) -> Args {
    let nm = name(r);
    let zero = [0, 0, 0];
    match kind {
        "fc" => {
            let o = if sty.outs > 8 { r.wide(sty.outs) } else { r.dim(sty.outs) };
            let w = r.tensor([o, inn[0], inn[2]], sty.w);
            let b = r.tensor([o, 1, inn[2]], sty.b);
            Args { kind, name: nm, p: vec![w, b], nk: 0, inn: zero, st: 1, win: zero }
        }
        "conv" => {
            let all = r.chance(30);
            let (k, st) = tile(r, [inn[0], inn[1]], all);
            let nk = if sty.outs > 8 { r.wide(sty.outs.min(20)) } else { r.dim(sty.outs.min(4)) } as usize;
            let mut p: Vec<IT> = (0..nk).map(|_| r.tensor([k[0], k[1], inn[2]], sty.w)).collect();
            for _ in 0..nk { p.push(r.tensor([1, 1, 1], sty.b)); }
            Args { kind, name: nm, p, nk, inn, st, win: zero }
        }
        "pool" => {
            let all = r.chance(30);
            let (k, st) = tile(r, [inn[0], inn[1]], all);
            Args { kind, name: nm, p: vec![], nk: 0, inn, st, win: [k[0], k[1], if r.chance(80) { 1 } else { inn[2] }] }
        }
        "user" => {
            let (st, a, b) = (r.u(1, 2), if r.chance(50) { r.u(0, 3) } else { 99_999 }, if r.chance(50) { r.u(0, 2) } else { 99_999 });
            Args { kind, name: format!("user:{}:{}:{}", st, a, b), p: vec![], nk: 0, inn, st, win: [a, b, 0] }
        }
        _ => Args { kind: "softmax", name: nm, p: vec![], nk: 0, inn, st: 1, win: zero },
    }
}
/// disturb a description; the result may or may not be valid
pub fn disturb(r: &mut Rng, a: &Args, w: i64) -> Args {
    let mut a = a.clone();
    match a.kind {
        "fc" => {
            let m = r.u(0, 1) as usize;
            let mut s = a.p[m].s;
            match r.u(0, 3) { 0 => s[0] += 1, 1 => s[1] += 1, 2 => s[2] += 1, _ => s = [s[1], s[0], s[2]] }
            a.p[m] = r.tensor(s, w);
        }
        "conv" => match r.u(0, 10) {
            0 => a.st = 0,
            1 => a.st = a.st.wrapping_add(1),
            2 => a.inn[0] += 1,
            3 => a.inn[1] = a.inn[1].saturating_sub(1).max(1),
            4 => a.inn[2] += 1,
            5 => { if a.p.len() > a.nk { a.p.truncate(a.p.len() - 1); } }
            6 => { let t = r.tensor([1, 1, 1], w); a.p.push(t); }
            7 if a.p.len() > a.nk => { let s = *r.pick(&[[2, 1, 1], [1, 2, 1], [1, 1, 2]]); let t = r.tensor(s, w); let n = a.p.len(); a.p[n - 1] = t; }
            8 => { let m = r.u(0, a.nk as u32 - 1) as usize; let mut s = a.p[m].s; s[r.u(0, 2) as usize] += 1; a.p[m] = r.tensor(s, w); }
            9 => { let b = a.p.split_off(a.nk); a.p = b; a.nk = 0; if r.chance(50) { a.p = vec![]; } }
            _ => { let s = [a.inn[0] + 1, a.p[0].s[1], a.p[0].s[2]]; for m in 0..a.nk { a.p[m] = r.tensor(s, w); } }
        },
        "pool" => match r.u(0, 5) {
            0 => a.st = 0,
            1 => a.st = a.st.wrapping_add(1),
            2 => a.win[0] = a.inn[0] + r.u(1, 2),
            3 => a.win[1] = a.inn[1] + r.u(1, 2),
            4 => a.inn[0] += 1,
            _ => a.inn[2] += 1,
        },
        _ => { let m = r.u(0, 2) as usize; a.inn[m] += 1; }
    }
    a
}

/// a valid description that shares much with this one: the same parameters or window over another
/// input, the same output shape from another input, other parameters of the same shape
pub fn sibling(r: &mut Rng, a: &Args, w: i64) -> Args {
    let mut b = a.clone();
    if r.chance(40) { b.name = name(r); }
    match a.kind {
        "fc" => {
            let [o, n, k] = a.p[0].s;
            let s = match r.u(0, 4) { 0 => [n, o, k], 1 => [o, n + 1, k], 2 => [o + 1, n, k], 3 => [o, k, n], _ => [o, n, k] };
            if s != a.p[0].s || r.chance(40) { b.p[0] = if size(s) == size(a.p[0].s) && r.chance(50) { IT { s, d: a.p[0].d.clone() } } else { r.tensor(s, w) }; }
            let t = [s[0], 1, s[2]];
            if t != a.p[1].s || r.chance(40) { b.p[1] = r.tensor(t, w); }
        }
        "conv" | "pool" => {
            let o = a.out_shape();
            let k = if a.kind == "conv" { a.p[0].s } else { a.win };
            let top = if (o[0] - 1).max(o[1] - 1) > 6 { 1 } else { 4 };
            match r.u(0, 4) {
                // the same window and output, another stride: the input differs unless there is one position only
                0 | 1 => { b.st = r.u(1, top); b.inn = [k[0] + (o[0] - 1) * b.st, k[1] + (o[1] - 1) * b.st, a.inn[2]]; }
                // one more position
                2 => { let m = r.u(0, 1) as usize; if a.st <= 16 { b.inn[m] += a.st; } }
                3 => {
                    if a.kind == "pool" { b.win = [k[1], k[0], k[2]]; b.inn = [a.inn[1], a.inn[0], a.inn[2]]; }
                    else {
                        for m in 0..a.nk { b.p[m] = IT { s: [k[1], k[0], k[2]], d: a.p[m].d.clone() }; }
                        b.inn = [a.inn[1], a.inn[0], a.inn[2]];
                    }
                }
                _ => if a.kind == "pool" { b.inn[2] = r.u(1, 3); } else { for m in 0..a.nk { b.p[m] = r.tensor(k, w); } },
            }
            if a.kind == "conv" && r.chance(30) {
                // as many kernels more or less
                let n = a.nk;
                if n > 1 && r.chance(50) { b.p.remove(2 * n - 1); b.p.remove(n - 1); b.nk -= 1; }
                else { let t = b.p[0].clone(); let q = b.p[n].clone(); b.p.insert(n, t); b.p.push(q); b.nk += 1; }
            }
        }
        _ => b.inn = *r.pick(&[[a.inn[1], a.inn[0], a.inn[2]], [a.inn[0], a.inn[2], a.inn[1]], a.inn, [a.inn[0] + 1, a.inn[1], a.inn[2]]]),
    }
    b
}

fn l1(d: &[i64]) -> i64 { d.iter().map(|x| x.abs()).sum() }
fn top(d: &[i64]) -> i64 { d.iter().map(|x| x.abs()).max().unwrap_or(0) }
/// worst-case magnitudes of a pass through the layers: (values, gradients, parameter gradients)
pub fn bounds(ls: &[Args], x: i64, g: i64) -> (i64, i64, i64) {
    let mut f = vec![x];
    for a in ls {
        let v = *f.last().unwrap();
        f.push(match a.kind {
            "fc" | "conv" => {
                let n = if a.kind == "fc" { 1 } else { a.nk };
                let w = a.p[..n].iter().map(|t| l1(&t.d)).max().unwrap_or(0);
                let b = a.p[n..].iter().map(|t| top(&t.d)).max().unwrap_or(0);
                v.saturating_mul(w).saturating_add(b)
            }
            "pool" => v,
            "user" => v.saturating_mul(a.st as i64),
            _ => 1,
        });
    }
    let mut gb = g;
    let (mut gm, mut pm) = (g, 0i64);
    for (n, a) in ls.iter().enumerate().rev() {
        match a.kind {
            "fc" => { pm = pm.max(gb.saturating_mul(f[n].max(1))); gb = gb.saturating_mul(l1(&a.p[0].d).max(1)); }
            "conv" => {
                let o = a.out_shape();
                let pos = (o[0] * o[1]) as i64;
                pm = pm.max(gb.saturating_mul(f[n].max(1)).saturating_mul(pos));
                gb = gb.saturating_mul(a.p[..a.nk].iter().map(|t| l1(&t.d)).sum::<i64>().max(1));
            }
            "user" => gb = gb.saturating_mul(a.st as i64),
            "pool" => gb = gb.saturating_mul((a.win[0] * a.win[1]) as i64),
            _ => gb = gb.saturating_mul(2 * size(a.inn) as i64),
        }
        gm = gm.max(gb);
    }
    (*f.iter().max().unwrap(), gm, pm)
}
