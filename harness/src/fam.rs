//! Random drivers for layers, records, networks and files.
use crate::ctx::*;
use crate::gen::*;
use crate::nets::*;
use crate::tens::*;

const KINDS: [&str; 4] = ["fc", "conv", "pool", "softmax"];
fn kind_at(n: u32) -> &'static str { ["fc", "conv", "pool", "softmax"][n as usize] }
/// units of values, weights and gradients such that all products stay exact
pub fn exps(r: &mut Rng) -> Numbers {
    loop {
        let (e, w, g) = (r.farexp(), r.farexp(), r.farexp());
        if [e, w, g, e + w, e + g, w + g].iter().all(|n| *n >= -125 && *n <= 95) { return Numbers::Exact(e, w, g); }
    }
}

/// the layer gets this many outputs, or the largest kernel or window that its input admits
fn stretch(r: &mut Rng, a: &mut Args, outs: u32) {
    match a.kind {
        "fc" if outs > 70 => { let [_, n, k] = a.p[0].s; a.p = vec![r.tensor([outs, n, k], 1), r.tensor([outs, 1, k], 3)]; }
        "conv" if outs > 70 => {
            let k = a.p[0].s;
            a.nk = outs as usize;
            a.p = (0..outs).map(|_| r.tensor(k, 1)).collect();
            for _ in 0..outs { let b = r.tensor([1, 1, 1], 3); a.p.push(b); }
        }
        "conv" | "pool" if a.inn[0].max(a.inn[1]) >= 30 => {
            let m = if a.inn[0] > a.inn[1] { 0 } else { 1 };
            let len = a.inn[m] - r.u(0, 5);
            if a.kind == "pool" { a.win = [1, 1, 1]; a.win[m] = len; a.st = 1; return; }
            let mut k = [1, 1, a.inn[2]];
            k[m] = len;
            for t in a.p[..a.nk].iter_mut() { *t = r.tensor(k, 1); }
            a.st = 1;
        }
        _ => {}
    }
}
/// a valid layer of this kind together with input and gradient ranges that keep f32 exact
fn layer(r: &mut Rng, kind: &'static str, big: bool) -> (Args, i64, i64) {
    let wide = r.chance(16);
    let huge = !wide && r.chance(3);
    let vast = !wide && !huge && kind != "softmax" && r.chance(match kind { "pool" => 1, "fc" => 4, _ => 3 });
    loop {
        let m = if big { 7 } else { 5 };
        let mut s = match kind {
            "fc" => [r.dim(m + 1), 1, r.dim(3)],
            _ => [r.dim(m), r.dim(m), r.dim(3)],
        };
        let mut outs = if big { 6 } else { 4 };
        if wide {
            // one dimension far larger than the others
            match (kind, r.u(0, 3)) {
                ("fc", 0 | 1) => s[0] = r.wide(70),
                ("conv", 0) => outs = 70,
                (_, 2) => s[2] = r.wide(if kind == "conv" { 20 } else { 33 }),
                (_, 3) if kind == "fc" || kind == "conv" => outs = 70,
                (_, q) => { s = [r.dim(3), r.dim(3), r.dim(2)]; s[(q % 2) as usize] = r.wide(40); if kind == "fc" { s[1] = 1; } }
            }
        }
        if huge {
            // sizes of real data
            match kind {
                "fc" => { s = [*r.pick(&[257, 300, 513, 600, 785, 1025]), 1, r.u(1, 2)]; outs = 3; }
                "softmax" => s = *r.pick(&[[100, 1, 1], [1, 60, 2], [10, 10, 1]]),
                _ => { s = *r.pick(&[[28, 28, 1], [33, 2, 1], [2, 41, 2], [65, 1, 1], [1, 66, 1], [12, 12, 3]]); outs = 2; }
            }
        }
        if vast && kind == "pool" && r.chance(60) {
            // more items than fit a page
            s = *r.pick(&[[130, 128, 1], [2, 8_200, 1], [4_100, 4, 1], [33, 32, 16], [2, 2, 4_200]]);
            if r.chance(30) { s = [260, 256, 1]; }
        } else if vast {
            // counts that do not fit a byte
            let n = r.u(257, 290);
            match (kind, if kind == "fc" { *r.pick(&[0, 0, 0, 1, 2]) } else { r.u(0, 2) }) {
                ("fc", 0) => { s = [r.u(1, 2), 1, 1]; outs = n; }
                ("fc", 1) => { s = [1, 1, n]; outs = 1; }
                ("fc", _) => { s = [n, 1, 1]; outs = 2; }
                ("conv", 0) => { s = [r.u(1, 2), r.u(1, 2), 1]; outs = n; }
                ("conv", 1) | (_, 0) => { s = [r.u(1, 3), r.u(1, 2), n]; outs = 2; }
                _ => { s = [r.u(1, 2), 1, r.u(1, 2)]; s[1] = r.u(30, 60); outs = 2; if r.chance(50) { s = [s[1], s[0], s[2]]; } }
            }
        }
        let wr = if huge || vast { 1 } else if wide { *r.pick(&[1, 2]) } else { *r.pick(&[1, 3, 7]) };
        let sty = Style { w: wr, b: wr * 3, outs };
        let mut a = args(r, kind, s, &sty);
        if vast { stretch(r, &mut a, outs); }
        let (mut x, mut g) = (*r.pick(&[1, 4, 12]), *r.pick(&[1, 4, 12]));
        if (wide || huge) && kind == "softmax" { g = 1; }
        for _ in 0..4 {
            let (f, gm, pm) = bounds(&[a.clone()], x, g);
            if f <= 1 << 17 && gm <= 1 << 18 && pm <= 1 << 18 { return (a, x, g); }
            x = (x / 2).max(1);
            g = (g / 2).max(1);
        }
    }
}
fn off(r: &mut Rng, s: [u32; 3]) -> [u32; 3] {
    let mut t = s;
    match r.u(0, 6) {
        0 => t[0] += 1,
        1 => t[1] += 1,
        2 => t[2] += 1,
        3 => t = [s[1], s[0], s[2]],
        4 => t = [s[0], s[2], s[1]],
        5 => t = [s[0] * s[1], 1, s[2]],
        _ => { let m = r.u(0, 2) as usize; t[m] = if s[m] > 1 { s[m] - 1 } else { s[m] + 2 }; }
    }
    t
}
/// ranges in which a driver draws values, in plain integers
struct Ranges { x: i64, g: i64 }
impl<'a> World<'a> {
    fn xs(&self, r: &mut Rng, s: [u32; 3], m: &Ranges) -> IT {
        let soft = matches!(self.num, Numbers::Soft(_));
        match self.num {
            Numbers::Opaque => IT { s, d: (0..size(s)).map(|_| self.flt(r)).collect() },
            Numbers::Ord => {
                let mut t = anykeys(r, s);
                if self.wild == 9 {
                    let mut seen = std::collections::BTreeSet::new();
                    for v in t.d.iter_mut() { while !seen.insert(*v) { *v = ord_key(r.float()); } }
                }
                t
            }
            // the largest value an exact power of two times, everything else far below
            Numbers::Sat(_) => {
                let n = size(s);
                let top = r.int(-300, 300) * *r.pick(&[0, 1, 100, 700]);
                let mut t = IT { s, d: (0..n).map(|_| 16 * (top - 4 * r.int(200, 1000))).collect() };
                let many = [1usize, 1, 2, 4, 8, 16, 32, 64].iter().cloned().filter(|m| *m <= n).collect::<Vec<_>>();
                let mut left: Vec<usize> = (0..n).collect();
                let many = if r.chance(25) { many[many.len() - 1] } else { *r.pick(&many) };
                for _ in 0..many { let q = r.u(0, left.len() as u32 - 1) as usize; t.d[left.swap_remove(q)] = 16 * top; }
                t
            }
            // softmax layers: quarters
            Numbers::Soft(16) => { let mut t = r.tensor(s, m.x * 4); for v in t.d.iter_mut() { *v *= 1 << 14; } t }
            _ => { let mut t = r.tensor(s, m.x); if soft { for v in t.d.iter_mut() { *v *= self.one(); } } t }
        }
    }
    fn gs(&self, r: &mut Rng, s: [u32; 3], m: &Ranges) -> IT {
        if matches!(self.num, Numbers::Opaque | Numbers::Ord) { return self.xs(r, s, m); }
        let mut t = r.tensor(s, m.g);
        let unit = if let Numbers::Sat(_) = self.num { 4096 } else { self.one() };
        for v in t.d.iter_mut() { *v *= unit; }
        t
    }
    /// arbitrary content for a destination tensor
    fn junk(&self, r: &mut Rng, s: [u32; 3]) -> IT {
        if self.num == Numbers::Ord { return anykeys(r, s); }
        if self.num == Numbers::Opaque { return IT { s, d: (0..size(s)).map(|_| self.flt(r)).collect() }; }
        let mut t = r.tensor(s, 50);
        for v in t.d.iter_mut() { *v *= self.one(); }
        t
    }
    fn flt(&self, r: &mut Rng) -> i64 {
        let x = match r.u(0, 9) {
            0 => r.float(),
            1 => 0.0,
            2 => (r.int(-1000, 1000) as f32) * 1e-6,
            _ => (r.int(-4_000_000, 4_000_000) as f32) / 1_234_567.0,
        };
        Enc::Canon.int(x)
    }
}
impl<'a> World<'a> {
    /// the bits of a parameter in an opaque trace
    pub fn pbits(&self, r: &mut Rng) -> i64 {
        let odd = r.chance(if self.wild > 0 { 35 } else { 0 });
        let x = if !odd { return self.flt(r) } else {
            match self.wild {
                1 => *r.pick(&[-0.0, 1e-45, -1e-45, 1.1e-38, -1.1e-38, 5.9e-39, f32::MIN_POSITIVE, 0.0, 2.5e-20]),
                2 => (r.int(-1000, 1000) as f32) * *r.pick(&[1e4, 1e6, 1e12, 1e30]),
                _ => *r.pick(&[f32::INFINITY, f32::NEG_INFINITY, f32::NAN, -f32::NAN, f32::from_bits(0x7fc0_1234), f32::from_bits(0xffd5_5555), -0.0, f32::MAX]),
            }
        };
        Enc::Bits.int(x)
    }
    fn wildly(&self, r: &mut Rng, a: &Args) -> Args {
        let mut a = a.clone();
        for t in a.p.iter_mut() { for v in t.d.iter_mut() { *v = self.pbits(r); } }
        a
    }
}
/// layers with arbitrary floats: the same call gives the same bits, whatever happened before,
/// and nothing but the calls that may do so touches parameters, gradients and modes
pub fn lopaque(c: &mut Ctx, r: &mut Rng, id: String) {
    let kind = kind_at(r.u(0, 3));
    let mut w = World::new(c, id, Numbers::Opaque);
    w.wild = if kind == "pool" || kind == "softmax" { 0 } else { r.u(0, 3) };
    let (a, _, _) = layer(r, kind, false);
    let a = w.wildly(r, &a);
    let m = Ranges { x: 1, g: 1 };
    // 1 and 3 are the same layer, 2 one of the same make
    let mut b = w.wildly(r, &a);
    if r.chance(30) { b.name.push('2'); }
    w.lmake(1, &a, "fill");
    w.lmake(2, &b, "fill");
    if r.chance(50) {
        w.lmake(3, &a, "fill");
    } else {
        w.lempty(3, kind);
        w.lsave(1, 1);
        w.lload(3, 1);
    }
    let mut at = [0, 1, 2, 1];
    for o in 1..=3 { if r.chance(70) { w.lsimple("ltrain", o); } }
    let xs: Vec<IT> = (0..2).map(|_| w.xs(r, a.in_shape(), &m)).collect();
    let mut gs: Vec<IT> = (0..2).map(|_| w.xs(r, a.out_shape(), &m)).collect();
    if w.wild > 0 && r.chance(40) {
        // gradients that have exploded
        for v in gs[1].d.iter_mut() { if r.chance(40) { *v = Enc::Canon.int(*r.pick(&[f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, 3e38, f32::NAN])); } }
    }
    let of = |at: &[i64; 4], o: i64| if at[o as usize] == 1 { a.clone() } else { b.clone() };
    if r.chance(35) {
        // what was accumulated is cleared whatever it was
        let o = 1;
        w.lsimple("ltrain", o);
        for _ in 0..r.u(1, 2) {
            let y = w.junk(r, a.out_shape());
            let x = r.pick(&xs).clone();
            w.lfwd(o, &x, &y);
            let gx = w.junk(r, a.in_shape());
            w.lbwd(o, &gs[1], &gx);
        }
        w.lsimple("lclear", o);
        let gx = w.junk(r, a.in_shape());
        w.lbwd(o, &gs[0], &gx);
    }
    if r.chance(30) {
        // the same few passes in one order and in another, each from cleared gradients
        let mut xs = xs.clone();
        for n in 0..2 { let mut z = xs[n].clone(); if r.chance(50) { z.d.reverse() } else { z.d.rotate_left(1) } xs.push(z); }
        for o in 1..=3 { w.lsimple("ltrain", o); }
        for _ in 0..r.u(6, 10) {
            let o = r.int(1, 3);
            let (y, gx) = (w.junk(r, a.out_shape()), w.junk(r, a.in_shape()));
            let x = r.pick(&xs).clone();
            w.lfwd(o, &x, &y);
            w.lsimple("lclear", o);
            let g = r.pick(&gs).clone();
            w.lbwd(o, &g, &gx);
        }
        w.finish();
        return;
    }
    for _ in 0..r.u(8, 16) {
        let o = r.int(1, 3);
        let l = of(&at, o);
        if kind == "fc" && r.chance(8) {
            let v = w.pbits(r);
            w.lset(o, r.int(1, 2), v);
            continue;
        }
        match r.u(0, 13) {
            0..=4 => {
                let y = w.junk(r, l.out_shape());
                let x = r.pick(&xs).clone();
                w.lfwd(o, &x, &y);
            }
            5..=8 => {
                let gx = w.junk(r, l.in_shape());
                let g = r.pick(&gs).clone();
                w.lbwd(o, &g, &gx);
            }
            9 => { w.lsimple("lclear", o); if r.chance(60) { let gx = w.junk(r, l.in_shape()); let g = r.pick(&gs).clone(); w.lbwd(o, &g, &gx); } }
            10 => w.lsimple("ltrain", o),
            11 => { w.lsimple("linf", o); if r.chance(60) { w.lsimple("ltrain", o); } }
            12 => {
                let t = r.int(1, 3);
                w.lsave(4, t);
                if w.lload(o, 4) { at[o as usize] = at[t as usize]; }
            }
            _ => {
                let z = if r.chance(50) { a.clone() } else { b.clone() };
                let to = if z == a { 1 } else { 2 };
                if w.lfill(o, &z) { at[o as usize] = to; }
            }
        }
    }
    w.finish();
}
/// keys of arbitrary finite floats
fn anykeys(r: &mut Rng, s: [u32; 3]) -> IT {
    let style = r.u(0, 4);
    IT { s, d: (0..size(s)).map(|_| ord_key(match style {
        0 => { let m = r.next() as u32; f32::from_bits(m & 0x807f_ffff) }
        1 => { let m = r.next() as u32; f32::from_bits(m & 0xbfff_ffff) }
        _ => r.float(),
    })).collect() }
}
/// parameters that select: every output is at most one input or its negation, or a bias; with
/// back, every input goes to at most one output as well
fn select(r: &mut Rng, a: &mut Args, back: bool) {
    let sgn = |r: &mut Rng| *r.pick(&[1i64, 1, 1, -1, 0]);
    for t in a.p.iter_mut() { for v in t.d.iter_mut() { *v = 0; } }
    match a.kind {
        "fc" => {
            let [o, n, k] = a.p[0].s;
            for q in 0..k {
                let mut cols: Vec<u32> = (0..n).collect();
                for i in 0..o {
                    if cols.is_empty() { break; }
                    let m = r.u(0, cols.len() as u32 - 1) as usize;
                    let j = if back { cols.swap_remove(m) } else { cols[m] };
                    let v = sgn(r);
                    a.p[0].d[(i + o * j + o * n * q) as usize] = v;
                    if v == 0 && r.chance(50) { a.p[1].d[(i + o * q) as usize] = ord_key(r.float()); }
                }
            }
        }
        "conv" => {
            let one = r.u(0, a.nk as u32 - 1) as usize;
            for n in 0..a.nk {
                if back && n != one { continue; }
                let p = r.u(0, a.p[n].d.len() as u32 - 1) as usize;
                let v = sgn(r);
                a.p[n].d[p] = v;
                if v == 0 && r.chance(50) { a.p[a.nk + n].d[0] = ord_key(r.float()); }
            }
        }
        _ => {}
    }
}
/// arbitrary floats through layers that only select: values and propagated gradients
pub fn lord(c: &mut Ctx, r: &mut Rng, id: String) {
    let kind = kind_at(r.u(0, 2));
    let (mut a, _, _) = layer(r, kind, false);
    let back = r.chance(65);
    select(r, &mut a, back);
    // what a pixel sends to overlapping windows would have to be added up
    let sum = kind == "pool" && (a.st < a.win[0] || a.st < a.win[1]);
    let m = Ranges { x: 1, g: 1 };
    let mut w = World::new(c, id, Numbers::Ord);
    // where a gradient goes among equal maxima is open; its total cannot be told from keys
    if kind == "pool" && back { w.wild = 9; }
    w.lmake(1, &a, "fill");
    if r.chance(80) { w.lsimple("ltrain", 1); }
    for _ in 0..r.u(2, 6) {
        fwd(&mut w, r, 1, &a, &m);
        if back && !sum { for _ in 0..r.u(0, 2) { bwd(&mut w, r, 1, &a, &m); } }
        match r.u(0, 9) {
            0 => w.lsimple("linf", 1),
            1 | 2 => w.lsimple("ltrain", 1),
            3 => { w.lsave(1, 1); w.lload(1, 1); }
            4 => { let mut b = a.clone(); select(r, &mut b, back); if w.lfill(1, &b) { a = b; } }
            _ => {}
        }
    }
    w.finish();
}
/// networks of such layers: inference
pub fn net_ord(c: &mut Ctx, r: &mut Rng, id: String) {
    let w = World::new(c, id, Numbers::Ord);
    let mut s = Sim::new(w, 2, 1, 1);
    s.deep = r.chance(20);
    for n in 0..2 { let t = r.chance(50); s.fresh(n, t); }
    let d = if s.deep { r.u(5, 10) } else { r.u(1, 5) };
    s.build(r, 0, d);
    for _ in 0..r.u(3, 8) {
        match r.u(0, 9) {
            0 => { let t = r.chance(50); s.mode(0, t); }
            1 => { let t = r.chance(50); s.save(0, 0); s.fresh(1, t); s.load(1, 0); s.infer(r, 1); }
            2 => s.infer_wrong(r, 0),
            3 => s.add(r, 0),
            _ => s.infer(r, 0),
        }
    }
    s.w.finish();
}
fn lnum(r: &mut Rng, kind: &str) -> Numbers {
    match (kind, exps(r)) {
        ("softmax", _) => Numbers::Soft(16),
        ("pool", Numbers::Exact(e, _, g)) => Numbers::Exact(e, 0, g),
        (_, n) => n,
    }
}
fn lrange(kind: &str, x: i64, g: i64) -> Ranges { if kind == "softmax" { Ranges { x: x * 4, g: g.min(16) } } else { Ranges { x, g } } }

/// one random correct or incorrect call on layer o
fn one_call(w: &mut World, r: &mut Rng, o: i64, a: &Args, m: &Ranges, bad: u32) {
    let (i, q) = (a.in_shape(), a.out_shape());
    match r.u(0, 9) {
        0..=3 => {
            let (mut si, mut so) = (i, q);
            if r.chance(bad) { if r.chance(50) { si = off(r, si) } else { so = off(r, so) } }
            let (x, y) = (w.xs(r, si, m), w.junk(r, so));
            let x = again(r, &mut w.usedx, x);
            w.lfwd(o, &x, &y);
        }
        4..=7 => {
            let (mut si, mut so) = (i, q);
            let (mut xs, mut ys) = (None, None);
            if r.chance(bad) {
                match r.u(0, 5) {
                    0 => xs = Some(off(r, i)),
                    1 => ys = Some(off(r, q)),
                    2 | 3 => so = off(r, so),
                    _ => si = off(r, si),
                }
            }
            let (g, gx) = (w.gs(r, so, m), w.junk(r, si));
            let g = again(r, &mut w.usedg, g);
            w.lbwd_with(o, &g, &gx, xs, ys);
        }
        8 => w.lsimple("lclear", o),
        _ => w.lsimple(if r.chance(70) { "ltrain" } else { "linf" }, o),
    }
}
/// a fresh tensor, or one used before: the same, or the same numbers in another order
fn again(r: &mut Rng, used: &mut Vec<IT>, fresh: IT) -> IT {
    let old: Vec<usize> = (0..used.len()).filter(|n| used[*n].s == fresh.s).collect();
    if old.is_empty() || r.chance(65) { used.push(fresh.clone()); return fresh; }
    let n = *r.pick(&old);
    let mut t = used[n].clone();
    match r.u(0, 5) {
        0 | 1 => t.d.reverse(),
        2 => t.d.rotate_left(1),
        _ => {}
    }
    t
}
fn fwd(w: &mut World, r: &mut Rng, o: i64, a: &Args, m: &Ranges) {
    let (x, y) = (w.xs(r, a.in_shape(), m), w.junk(r, a.out_shape()));
    let x = again(r, &mut w.usedx, x);
    w.lfwd(o, &x, &y);
}
fn bwd(w: &mut World, r: &mut Rng, o: i64, a: &Args, m: &Ranges) {
    let (g, x) = (w.gs(r, a.out_shape(), m), w.junk(r, a.in_shape()));
    let g = again(r, &mut w.usedg, g);
    w.lbwd(o, &g, &x);
}
/// a layer through training and inference: values and gradients
fn layer_family(c: &mut Ctx, r: &mut Rng, id: String, kind: &'static str) {
    let big = r.chance(25);
    let (a, x, g) = layer(r, kind, big);
    let m = lrange(kind, x, g);
    let num = lnum(r, kind);
    let mut w = World::new(c, id, num);
    w.lmake(1, &a, "fill");
    if r.chance(30) { fwd(&mut w, r, 1, &a, &m); }
    w.lsimple("ltrain", 1);
    for _ in 0..r.u(1, 3) {
        fwd(&mut w, r, 1, &a, &m);
        for _ in 0..r.u(0, 2) { bwd(&mut w, r, 1, &a, &m); }
        if r.chance(25) { w.lsimple("lclear", 1); if r.chance(50) { bwd(&mut w, r, 1, &a, &m); } }
    }
    if r.chance(20) { w.lsimple("linf", 1); fwd(&mut w, r, 1, &a, &m); }
    w.finish();
}
pub fn lfc(c: &mut Ctx, r: &mut Rng, id: String) { layer_family(c, r, id, "fc") }
pub fn lconv(c: &mut Ctx, r: &mut Rng, id: String) { layer_family(c, r, id, "conv") }
pub fn lpool(c: &mut Ctx, r: &mut Rng, id: String) { layer_family(c, r, id, "pool") }
pub fn lsoft(c: &mut Ctx, r: &mut Rng, id: String) { layer_family(c, r, id, "softmax") }

/// long histories on one layer: accumulation, clearing, modes, now and then a wrong call
fn hist(c: &mut Ctx, r: &mut Rng, id: String, kind: &'static str, bad: u32) {
    let marathon = kind != "softmax" && r.chance(if bad < 30 { 2 } else { 1 });
    let (mut a, x, g) = loop {
        let l = layer(r, kind, false);
        if !marathon { break l; }
        let (f, gm, pm) = bounds(&[l.0.clone()], l.1, l.2);
        if size(l.0.in_shape()) * size(l.0.out_shape()) < 30 && f <= 1 << 14 && gm <= 1 << 14 && pm <= 1 << 14 { break l; }
    };
    let m = lrange(kind, x, g);
    let num = lnum(r, kind);
    let mut w = World::new(c, id, num);
    w.lmake(1, &a, "fill");
    if marathon {
        // more calls than a byte counts
        w.lsimple("ltrain", 1);
        for _ in 0..r.u(380, 420) {
            match r.u(0, 99) {
                0..=1 => one_call(&mut w, r, 1, &a, &m, bad),
                2 => w.lsimple("lclear", 1),
                3..=22 => fwd(&mut w, r, 1, &a, &m),
                _ => bwd(&mut w, r, 1, &a, &m),
            }
        }
        w.finish();
        return;
    }
    if r.chance(85) { w.lsimple("ltrain", 1); }
    if r.chance(70) { fwd(&mut w, r, 1, &a, &m); }
    let (f, gm, pm) = bounds(&[a.clone()], x, g);
    let long = r.chance(10) && f <= 1 << 17 && gm <= 1 << 17 && pm <= 1 << 16;
    for _ in 0..if long { r.u(40, 70) } else { r.u(6, 14) } {
        if !long && kind == "fc" && r.chance(6) {
            let (k, v) = (r.int(1, 2), if r.chance(20) { 0 } else { r.int(-3, 3) });
            let mut b = a.clone();
            for d in b.p[k as usize - 1].d.iter_mut() { *d = v; }
            let (f, gm, pm) = bounds(&[b.clone()], x, g);
            if f <= 1 << 17 && gm <= 1 << 18 && pm <= 1 << 18 && w.lset(1, k, v) { a = b; }
        } else if !long && r.chance(4) {
            let b = if r.chance(50) { sibling(r, &a, 2) } else { layer(r, kind, false).0 };
            let (f, gm, pm) = bounds(&[b.clone()], x, g);
            if f <= 1 << 17 && gm <= 1 << 18 && pm <= 1 << 18 && w.lfill(1, &b) { a = b; }
        } else if r.chance(5) {
            let b = disturb(r, &a, 3);
            if !b.ok() { w.lfill(1, &b); }
        } else {
            one_call(&mut w, r, 1, &a, &m, bad);
        }
    }
    w.finish();
}
pub fn accum(c: &mut Ctx, r: &mut Rng, id: String) { let k = if r.chance(85) { kind_at(r.u(0, 1)) } else { "pool" }; hist(c, r, id, k, 15) }
/// saturated softmax layers, in which the gradients can be had exactly, in whatever unit
pub fn lsat(c: &mut Ctx, r: &mut Rng, id: String) {
    let big = r.chance(20);
    let (mut a, _, _) = layer(r, "softmax", big);
    if r.chance(25) {
        let s = *r.pick(&[[17, 1, 1], [32, 1, 1], [4, 4, 2], [64, 1, 1], [1, 8, 8], [6, 6, 1], [128, 1, 1]]);
        a = args(r, "softmax", s, &Style { w: 1, b: 1, outs: 1 });
    }
    let g = if r.chance(20) { -12 } else { *r.pick(&[-120, -100, -60, -40, -35, -30, -25, -20, -17, -12, -10, 0, 9, 20, 40, 70, 95]) };
    let mut w = World::new(c, id, Numbers::Sat(g));
    let m = Ranges { x: 1, g: *r.pick(&[1, 3, 30]) };
    w.lmake(1, &a, "fill");
    if r.chance(90) { w.lsimple("ltrain", 1); }
    if r.chance(80) { fwd(&mut w, r, 1, &a, &m); }
    for _ in 0..r.u(4, 10) { one_call(&mut w, r, 1, &a, &m, 6); }
    w.finish();
}
pub fn accum_soft(c: &mut Ctx, r: &mut Rng, id: String) { hist(c, r, id, "softmax", 15) }
pub fn calls_exact(c: &mut Ctx, r: &mut Rng, id: String) { let k = kind_at(r.u(0, 2)); hist(c, r, id, k, 60) }
pub fn calls_soft(c: &mut Ctx, r: &mut Rng, id: String) { hist(c, r, id, "softmax", 60) }

/// construction from fitting and unfitting descriptions
pub fn construct_exact(c: &mut Ctx, r: &mut Rng, id: String) { let k = kind_at(r.u(0, 2)); construct(c, r, id, k) }
pub fn construct_soft(c: &mut Ctx, r: &mut Rng, id: String) { construct(c, r, id, "softmax") }
fn construct(c: &mut Ctx, r: &mut Rng, id: String, kind: &'static str) {
    let num = lnum(r, kind);
    let mut w = World::new(c, id, num);
    for o in 0..r.u(2, 5) as i64 {
        let (mut a, x, g) = layer(r, kind, false);
        let m = lrange(kind, x, g);
        w.usedx.clear();
        w.usedg.clear();
        let mut via = "fill";
        if r.chance(50) {
            for _ in 0..r.u(1, 2) { if a.nk > 0 || kind != "conv" { a = disturb(r, &a, 3); } }
            if kind != "fc" && kind != "softmax" && r.chance(10) { a.st = *r.pick(&[u32::MAX, 1 << 31, 0, 1000]); }
        } else if r.chance(30) {
            // the constructors that take shapes only
            if kind == "fc" {
                let (s, v, b) = (a.p[0].s, r.int(-3, 3), r.int(-3, 3));
                a.p = vec![IT { s: [s[0], s[1], 1], d: vec![v; (s[0] * s[1]) as usize] }, IT { s: [s[0], 1, 1], d: vec![b; s[0] as usize] }];
            }
            if kind == "conv" {
                for t in a.p.iter_mut() { for v in t.d.iter_mut() { *v = 0; } }
                match r.u(0, 5) {
                    0 => a.st = 0,
                    1 => { a.inn[0] += 1; }
                    2 => { a.inn[2] += 1; }
                    3 => { a.p = vec![]; a.nk = 0; }
                    _ => {}
                }
            }
            if kind == "pool" && r.chance(40) { a = disturb(r, &a, 1); }
            // an absent kernel has no shape to construct from
            if kind != "conv" || a.nk > 0 { via = "new"; }
        }
        let (f, gm, pm) = if a.ok() { bounds(&[a.clone()], m.x, m.g) } else { (0, 0, 0) };
        if a.ok() && (f > 1 << 17 || gm > 1 << 18 || pm > 1 << 18) { continue; }
        let made = w.lmake(o, &a, via);
        if !made || !a.ok() { continue; }
        if r.chance(50) { w.lsimple("ltrain", o); }
        fwd(&mut w, r, o, &a, &m);
        if r.chance(40) { bwd(&mut w, r, o, &a, &m); }
        if kind == "fc" && r.chance(40) {
            // new values for all weights or all biases of a layer in use
            let (k, v) = (r.int(1, 2), r.int(-3, 3));
            let mut b = a.clone();
            for t in b.p[(k - 1) as usize].d.iter_mut() { *t = v; }
            let (f, gm, pm) = bounds(&[b.clone()], m.x, m.g);
            if f <= 1 << 17 && gm <= 1 << 18 && pm <= 1 << 18 && w.lset(o, k, v) {
                a = b;
                fwd(&mut w, r, o, &a, &m);
                if r.chance(50) { bwd(&mut w, r, o, &a, &m); }
            }
        }
        if r.chance(50) {
            // re-filling a used layer
            let mut b = if r.chance(50) { sibling(r, &a, 3) } else { layer(r, kind, false).0 };
            if r.chance(35) { b = disturb(r, &b, 3); }
            if b.ok() {
                let (f, gm, pm) = bounds(&[b.clone()], m.x, m.g);
                if f > 1 << 17 || gm > 1 << 18 || pm > 1 << 18 { continue; }
            }
            let ok = w.lfill(o, &b);
            let now = if ok && b.ok() { b } else { a };
            fwd(&mut w, r, o, &now, &m);
            bwd(&mut w, r, o, &now, &m);
        }
    }
    w.finish();
}
/// the same input through both modes
pub fn modes_exact(c: &mut Ctx, r: &mut Rng, id: String) { modes(c, r, id, false) }
pub fn modes_soft(c: &mut Ctx, r: &mut Rng, id: String) { modes(c, r, id, true) }
fn modes(c: &mut Ctx, r: &mut Rng, id: String, soft: bool) {
    let kind = if soft { "softmax" } else { kind_at(r.u(0, 2)) };
    let num = lnum(r, kind);
    let mut w = World::new(c, id, num);
    for _ in 0..4 {
        let big = r.chance(40);
        let (a, x, g) = layer(r, kind, big);
        let m = lrange(kind, x, g);
        let (x, y0, y1) = (w.xs(r, a.in_shape(), &m), w.junk(r, a.out_shape()), w.junk(r, a.out_shape()));
        w.lmodes(&a, &x, &y0, &y1);
    }
    w.finish();
}
/// records: saving, restoring into other layers, records that do not describe a layer
pub fn records_exact(c: &mut Ctx, r: &mut Rng, id: String) { records(c, r, id, false) }
pub fn records_soft(c: &mut Ctx, r: &mut Rng, id: String) { records(c, r, id, true) }
fn records(c: &mut Ctx, r: &mut Rng, id: String, soft: bool) {
    let kind = if soft { "softmax" } else { kind_at(r.u(0, 2)) };
    let num = lnum(r, kind);
    let raw = raw_format_known();
    let mut w = World::new(c, id, num);
    let m = lrange(kind, 3, 3);
    let draw = |r: &mut Rng| loop {
        let (a, _, _) = layer(r, kind, false);
        let (f, gm, pm) = bounds(&[a.clone()], 12, 3);
        if f <= 1 << 17 && gm <= 1 << 18 && pm <= 1 << 18 { return a; }
    };
    let (a, mut b) = (draw(r), draw(r));
    if r.chance(35) {
        let z = sibling(r, &a, 2);
        let (f, gm, pm) = bounds(&[z.clone()], 12, 3);
        if f <= 1 << 17 && gm <= 1 << 18 && pm <= 1 << 18 { b = z; }
    }
    w.lmake(1, &a, "fill");
    if r.chance(30) { w.lempty(2, kind); } else { w.lmake(2, &b, "fill"); }
    let used_empty = w.lay.get(&2).map(|l| l.get().get_name() != b.name).unwrap_or(true);
    for o in 1..=2 { if r.chance(60) { w.lsimple("ltrain", o); } }
    if r.chance(60) && !used_empty { fwd(&mut w, r, 2, &b, &m); bwd(&mut w, r, 2, &b, &m); }
    if r.chance(40) { fwd(&mut w, r, 1, &a, &m); bwd(&mut w, r, 1, &a, &m); }
    w.lsave(1, 1);
    if w.lload(2, 1) { b = a.clone(); }
    if b == a || !used_empty {
        fwd(&mut w, r, 2, &b, &m);
        bwd(&mut w, r, 2, &b, &m);
    }
    for _ in 0..r.u(1, 4) {
        match r.u(0, if raw { 4 } else { 1 }) {
            0 => {
                w.lsave(2, 2);
                w.ldamage(2, r);
                if w.lload(2, 2) { break; }
            }
            1 => {
                // another kind's record
                let k2 = KINDS[r.u(0, 3) as usize];
                if k2 == kind { continue; }
                let (z, _, _) = layer(r, k2, false);
                w.lempty(3, k2);
                if w.lfill(3, &z) { w.lsave(3, 3); if w.lload(2, 3) { break; } }
            }
            2 | 3 => {
                let mut z = draw(r);
                if r.chance(60) { z = disturb(r, &z, 3); }
                if z.ok() { let (f, gm, pm) = bounds(&[z.clone()], 12, 3); if f > 1 << 17 || gm > 1 << 18 || pm > 1 << 18 { continue; } }
                w.lraw(4, &z);
                if w.lload(2, 4) { if !z.ok() { break; } b = z; }
            }
            _ => {
                w.lsave(5, 1);
                w.lmake(6, &a, "fill");
                if r.chance(50) { w.lsimple("ltrain", 6); }
                w.lmut(6, 5, r);
            }
        }
        if b == a || !used_empty {
            fwd(&mut w, r, 2, &b, &m);
            bwd(&mut w, r, 2, &b, &m);
        }
    }
    if r.chance(50) { fwd(&mut w, r, 1, &a, &m); }
    w.finish();
}

// ------------------------------------------------------------------ networks
pub struct Net { pub ls: Vec<Args>, pub trn: bool, pub back: u32 }
pub struct Sim<'a> {
    pub w: World<'a>,
    pub nets: Vec<Net>,
    pub files: Vec<Option<Vec<Args>>>,
    pub x: i64,
    pub g: i64,
    /// many small layers
    pub deep: bool,
    /// very many
    pub abyss: bool,
    /// layers written by the user of the library, too
    pub users: bool,
}
fn soft_ok(ls: &[Args]) -> bool {
    let at = ls.iter().position(|a| a.kind == "softmax");
    if ls.iter().filter(|a| a.kind == "softmax").count() > 1 { return false; }
    for (n, a) in ls.iter().enumerate() {
        if size(a.in_shape()) > 12 || size(a.out_shape()) > 12 { return false; }
        if at.map(|q| n > q).unwrap_or(false) && !a.p.is_empty() {
            // behind the softmax every pre-activation must be clearly of one sign
            let fan = size(a.p[0].s) as i64 / if a.kind == "fc" { a.p[0].s[0] as i64 } else { 1 };
            if fan > 6 { return false; }
        }
    }
    true
}
impl<'a> Sim<'a> {
    pub fn new(w: World<'a>, nets: usize, x: i64, g: i64) -> Sim<'a> {
        Sim { w, nets: (0..nets).map(|_| Net { ls: vec![], trn: false, back: 0 }).collect(), files: vec![None; 4], x, g, deep: false, abyss: false, users: false }
    }
    fn rng(&self) -> Ranges { Ranges { x: self.x, g: self.g } }
    pub fn fresh(&mut self, n: usize, trn: bool) {
        self.w.nnew(n as i64, if trn { "trn" } else { "inf" });
        self.nets[n] = Net { ls: vec![], trn, back: 0 };
    }
    pub fn fits(&self, ls: &[Args]) -> bool {
        match self.w.num {
            Numbers::Opaque | Numbers::Ord | Numbers::Sat(_) => ls.len() <= if self.abyss { 50 } else if self.deep { 16 } else { 8 },
            Numbers::Exact(..) => {
                let (f, g, p) = bounds(ls, self.x, self.g);
                f <= 1 << 18 && g <= 1 << 19 && p <= 1 << 19
            }
            Numbers::Soft(_) => {
                let (f, g, p) = bounds(ls, self.x, self.g);
                let (_, _, p1) = bounds(ls, self.x, 1);
                f <= 400 && g <= 800 && p <= 1600 && p1 <= 100 && soft_ok(ls)
            }
        }
    }
    /// a layer that fits behind ls (or a first layer)
    pub fn draw(&self, r: &mut Rng, ls: &[Args]) -> Option<Args> {
        for _ in 0..25 {
            let soft = matches!(self.w.num, Numbers::Soft(_));
            let after = ls.iter().any(|a| a.kind == "softmax");
            let kind = kind_at(r.u(0, if self.w.num == Numbers::Opaque || (soft && !after) { 3 } else { 2 }));
            // (behind a user's layer no pooling: which gradient it gets must be known)
            let kind = if self.users && r.chance(30) { "user" } else { kind };
            if kind == "pool" && ls.iter().any(|a| a.kind == "user") { continue; }
            let inn = match ls.last() {
                Some(a) => a.out_shape(),
                None => if r.chance(35) { [r.dim(5), 1, r.dim(3)] } else if soft { [r.dim(3), r.dim(3), r.dim(2)] } else { [r.dim(5), r.dim(5), r.dim(3)] },
            };
            if kind == "fc" && inn[1] != 1 { continue; }
            let sty = if soft { Style { w: 2, b: 2, outs: 3 } } else if self.deep { Style { w: 1, b: 2, outs: 2 } } else { Style { w: *r.pick(&[1, 2, 4]), b: 6, outs: 4 } };
            let mut a = args(r, kind, inn, &sty);
            // mostly one input per output, so that a long chain keeps small numbers
            if self.deep && !soft && kind != "pool" && kind != "user" && r.chance(if self.abyss { 97 } else { 80 }) {
                let q = if kind == "fc" { 1 } else { a.nk };
                for t in a.p[..q].iter_mut() {
                    let at = r.u(0, t.d.len() as u32 - 1) as usize;
                    for (m, v) in t.d.iter_mut().enumerate() { if m != at { *v = 0 } else { *v = if r.chance(if self.abyss { 97 } else { 85 }) { 1 } else { -1 } } }
                }
            }
            if self.deep && r.chance(50) && size(a.out_shape()) == 1 && size(inn) > 1 { continue; }
            if soft {
                if after {
                    // rows (kernels) of one sign, bias of the same sign
                    let rows = if kind == "fc" { a.p[0].s[0] as usize } else { 1 };
                    let cells = if kind == "fc" { a.p.len().min(1) } else { a.nk };
                    for t in 0..cells {
                        let sg: Vec<i64> = (0..rows).map(|_| if r.chance(75) { 1 } else { -1 }).collect();
                        for (q, v) in a.p[t].d.iter_mut().enumerate() { *v = sg[q % rows] * (1 + (v.abs() % 2)); }
                        if kind == "fc" {
                            let dk = a.p[1].s[2] as usize;
                            for k in 0..dk { for q in 0..rows { a.p[1].d[k * rows + q] = sg[q]; } }
                        } else {
                            a.p[a.nk + t].d[0] = sg[0];
                        }
                    }
                }
                for t in a.p.iter_mut() { for v in t.d.iter_mut() { *v *= self.w.one(); } }
            }
            if self.w.num == Numbers::Ord { select(r, &mut a, false); }
            if self.w.num == Numbers::Opaque {
                for t in a.p.iter_mut() { for v in t.d.iter_mut() { *v = self.w.pbits(r); } }
            }
            let mut all = ls.to_vec();
            all.push(a.clone());
            let plain = self.unscaled(&all);
            if self.fits(&plain) { return Some(a); }
        }
        None
    }
    fn unscaled(&self, ls: &[Args]) -> Vec<Args> {
        let one = self.w.one();
        let mut v = ls.to_vec();
        if self.w.num != Numbers::Opaque { for a in v.iter_mut() { for t in a.p.iter_mut() { for d in t.d.iter_mut() { *d /= one; } } } }
        v
    }
    pub fn add(&mut self, r: &mut Rng, n: usize) {
        if let Some(a) = self.draw(r, &self.nets[n].ls.clone()) { self.add_this(n, a, r); }
    }
    pub fn add_this(&mut self, n: usize, a: Args, r: &mut Rng) {
        if !self.w.lmake(50, &a, "fill") { return; }
        // layers may come in either mode
        if r.chance(30) { self.w.lsimple("ltrain", 50); }
        if self.w.nadd(n as i64, 50) {
            let before = self.nets[n].ls.last().map(|b| b.out_shape());
            if before.is_none() || before == Some(a.in_shape()) { self.nets[n].ls.push(a); }
        }
    }
    /// a layer that does not continue the chain
    pub fn add_wrong(&mut self, r: &mut Rng, n: usize) {
        if self.nets[n].ls.is_empty() { return self.add(r, n); }
        let out = self.nets[n].ls.last().unwrap().out_shape();
        if r.chance(60) {
            // only one dimension is off
            let mut inn = out;
            let m = r.u(0, 2) as usize;
            inn[m] = if r.chance(50) && inn[m] > 1 { r.u(1, inn[m] - 1) } else { inn[m] + r.u(1, 2) };
            let kind = if inn[1] == 1 { kind_at(r.u(0, 3)) } else { kind_at(r.u(1, 3)) };
            let mut a = args(r, kind, inn, &Style { w: 2, b: 2, outs: 3 });
            if self.w.num == Numbers::Opaque { a = self.w.wildly(r, &a); }
            if self.w.num == Numbers::Ord { select(r, &mut a, false); }
            if self.w.lmake(50, &a, "fill") { self.w.nadd(n as i64, 50); }
            return;
        }
        for _ in 0..10 {
            if let Some(a) = self.draw(r, &[]) {
                if a.in_shape() != out {
                    if self.w.lmake(50, &a, "fill") { self.w.nadd(n as i64, 50); }
                    return;
                }
            }
        }
    }
    /// more layers than a byte counts: a short cycle of layers, again and again
    pub fn vast(&mut self, r: &mut Rng, n: usize) {
        let (d, a) = (self.deep, self.abyss);
        self.deep = true;
        self.abyss = true;
        for _ in 0..200 {
            let mut ls: Vec<Args> = vec![];
            for _ in 0..r.u(1, 3) { if let Some(a) = self.draw(r, &ls) { ls.push(a); } }
            if ls.is_empty() || ls[0].in_shape() != ls[ls.len() - 1].out_shape() || size(ls[0].in_shape()) > 6 { continue; }
            let k = r.u(257, 275) as usize;
            let all: Vec<Args> = (0..k).map(|m| ls[m % ls.len()].clone()).collect();
            if self.w.num != Numbers::Opaque && !self.fits(&self.unscaled(&all)) { continue; }
            if self.w.nadds(n as i64, &ls, k) { self.nets[n].ls.extend(all); }
            break;
        }
        self.deep = d;
        self.abyss = a;
    }
    pub fn build(&mut self, r: &mut Rng, n: usize, depth: u32) { for _ in 0..depth { self.add(r, n); } }
    pub fn infer(&mut self, r: &mut Rng, n: usize) {
        let s = self.nets[n].ls.first().map(|a| a.in_shape()).unwrap_or([1, 1, 1]);
        let x = self.w.xs(r, s, &self.rng());
        let x = again(r, &mut self.w.usedx, x);
        self.w.ninfer(n as i64, &x);
    }
    pub fn infer_wrong(&mut self, r: &mut Rng, n: usize) {
        let s = self.nets[n].ls.first().map(|a| a.in_shape()).unwrap_or([1, 1, 1]);
        let s = if self.nets[n].ls.is_empty() { s } else { off(r, s) };
        let x = self.w.xs(r, s, &self.rng());
        self.w.ninfer(n as i64, &x);
    }
    pub fn back(&mut self, r: &mut Rng, n: usize) {
        if self.nets[n].back > 7 && matches!(self.w.num, Numbers::Exact(..)) { return; }
        self.nets[n].back += 1;
        let s = self.nets[n].ls.last().map(|a| a.out_shape()).unwrap_or([1, 1, 1]);
        let g = self.w.gs(r, s, &self.rng());
        let g = again(r, &mut self.w.usedg, g);
        self.w.nback(n as i64, &g);
    }
    pub fn back_wrong(&mut self, r: &mut Rng, n: usize) {
        let s = self.nets[n].ls.last().map(|a| a.out_shape()).unwrap_or([1, 1, 1]);
        let s = if self.nets[n].ls.is_empty() { s } else { off(r, s) };
        let g = self.w.gs(r, s, &self.rng());
        self.w.nback(n as i64, &g);
    }
    pub fn mode(&mut self, n: usize, trn: bool) {
        self.w.nmode(n as i64, if trn { "trn" } else { "inf" });
        self.nets[n].trn = trn;
        self.nets[n].back = 0;
    }
    pub fn save(&mut self, n: usize, f: usize) {
        if self.w.nsave(n as i64, f as i64) { self.files[f] = Some(self.nets[n].ls.clone()); }
    }
    /// would loading keep the numbers exact?
    pub fn may_load(&self, n: usize, f: usize) -> bool {
        match &self.files[f] {
            None => true,
            Some(v) => { let mut all = self.nets[n].ls.clone(); all.extend(v.iter().cloned());
                         let chain = all.windows(2).all(|p| p[0].out_shape() == p[1].in_shape());
                         !chain || self.fits(&self.unscaled(&all)) }
        }
    }
    /// the file gets a network of the same make with other parameters, read back elsewhere
    pub fn replace(&mut self, r: &mut Rng, n: usize, f: usize) {
        let ls = match &self.files[f] { Some(v) => v.clone(), None => return };
        let t = r.chance(50);
        self.fresh(n, t);
        for mut a in ls {
            let k = r.u(0, 2) as usize;
            for t in a.p.iter_mut() {
                if t.d.is_empty() { continue; }
                let k = k % t.d.len();
                t.d.rotate_left(k);
                if self.w.num != Numbers::Opaque && r.chance(50) { for v in t.d.iter_mut() { *v = -*v; } }
            }
            self.add_this(n, a, r);
        }
        self.save(n, f);
        let m = (n + 1) % self.nets.len();
        let t = r.chance(50);
        self.fresh(m, t);
        self.load(m, f);
        self.infer(r, m);
    }
    /// network m becomes one of the same make as n, with other parameters
    fn remake(&mut self, r: &mut Rng, n: usize, m: usize) {
        for mut a in self.nets[n].ls.clone() {
            let (k, neg) = (r.u(0, 2) as usize, !matches!(self.w.num, Numbers::Soft(_)) && r.chance(50));
            for t in a.p.iter_mut() {
                if matches!(self.w.num, Numbers::Soft(_)) { break; }
                let k = k % t.d.len();
                t.d.rotate_left(k);
                if neg { for v in t.d.iter_mut() { *v = -*v; } }
            }
            self.add_this(m, a, r);
        }
    }
    /// the same input through the network and through a fresh copy of it (loaded from a file)
    pub fn twin(&mut self, r: &mut Rng, n: usize, x: &IT) {
        let m = (n + 1 + r.u(0, self.nets.len() as u32 - 2) as usize) % self.nets.len();
        let first = r.chance(50);
        if first { self.w.ninfer(n as i64, x); }
        self.save(n, 1);
        let t = self.nets[n].trn;
        self.fresh(m, t);
        self.load(m, 1);
        self.w.ninfer(m as i64, x);
        if !first { self.w.ninfer(n as i64, x); }
    }
    /// a layer's record put into a network directly: it fits, or not, or is damaged
    pub fn record(&mut self, r: &mut Rng, n: usize) {
        let fit = r.chance(70);
        let ls = if fit { self.nets[n].ls.clone() } else { vec![] };
        let a = match self.draw(r, &ls) { Some(a) => a, None => return };
        let before = self.nets[n].ls.last().map(|b| b.out_shape());
        let chains = before.is_none() || before == Some(a.in_shape());
        if chains && !fit {
            let mut all = self.nets[n].ls.clone();
            all.push(a.clone());
            if !self.fits(&self.unscaled(&all)) { return; }
        }
        if !self.w.lmake(51, &a, "fill") { return; }
        if r.chance(40) { self.w.lsimple("ltrain", 51); }
        self.w.lsave(9, 51);
        let hurt = r.chance(20);
        if hurt { self.w.ldamage(9, r); }
        if self.w.nrec(n as i64, 9) && !hurt && chains { self.nets[n].ls.push(a); }
        if r.chance(50) { self.infer(r, n); if r.chance(50) { self.back(r, n); } }
    }
    pub fn load(&mut self, n: usize, f: usize) {
        if !self.may_load(n, f) { return; }
        if self.w.nload(n as i64, f as i64) {
            if let Some(v) = self.files[f].clone() { self.nets[n].ls.extend(v); }
        }
    }
}

fn netnum(r: &mut Rng) -> Numbers { match exps(r) { Numbers::Exact(e, _, g) => Numbers::Exact(e, 0, g), n => n } }
/// building, running, training one or two networks
fn net_family(c: &mut Ctx, r: &mut Rng, id: String, num: Numbers, wrong: u32, modes: u32) {
    let w = World::new(c, id, num);
    let (x, g) = if matches!(num, Numbers::Soft(_)) { (4, *r.pick(&[1, 3])) } else { (*r.pick(&[2, 6]), *r.pick(&[1, 4])) };
    let k = if r.chance(25) { 2 } else { 1 };
    let mut s = Sim::new(w, k, x, g);
    for n in 0..k { let t = r.chance(60); s.fresh(n, t); }
    if r.chance(wrong) { s.infer_wrong(r, 0); s.back_wrong(r, 0); }
    if r.chance(1) && !matches!(num, Numbers::Soft(_)) {
        // more inferences than a byte counts
        let d = r.u(1, 2);
        s.build(r, 0, d);
        for _ in 0..r.u(265, 290) {
            if r.chance(94) { s.infer(r, 0); } else { let t = r.chance(50); if r.chance(80) { s.back(r, 0) } else { s.mode(0, t) } }
        }
        s.w.finish();
        return;
    }
    if r.chance(1) && !matches!(num, Numbers::Soft(_)) {
        // more layers than that
        s.vast(r, 0);
        if r.chance(50) { s.deep = true; s.add(r, 0); s.deep = false; }
        for _ in 0..r.u(3, 6) {
            match r.u(0, 9) {
                0..=4 => s.infer(r, 0),
                5..=7 => s.back(r, 0),
                8 => if r.chance(50) { s.infer_wrong(r, 0) } else { s.add_wrong(r, 0) },
                _ => { let t = r.chance(70); s.mode(0, t); }
            }
        }
        s.w.finish();
        return;
    }
    let abyss = r.chance(3) && !matches!(num, Numbers::Soft(_));
    s.deep = abyss || r.chance(12);
    s.abyss = abyss;
    s.users = matches!(num, Numbers::Exact(..)) && !abyss && r.chance(40);
    let make = k == 2 && r.chance(50);
    for n in 0..k {
        let d = if abyss { if n == 0 { r.u(20, 48) } else { 3 } } else if s.deep { r.u(6, 14) } else { r.u(0, 4) };
        if n == 1 && make { s.remake(r, 0, 1); } else { s.build(r, n, d); }
    }
    for _ in 0..if r.chance(5) { r.u(20, 30) } else { r.u(5, 12) } {
        let n = r.u(0, k as u32 - 1) as usize;
        if r.chance(wrong) {
            match r.u(0, 2) { 0 => s.add_wrong(r, n), 1 => s.infer_wrong(r, n), _ => s.back_wrong(r, n) }
        } else if r.chance(modes) {
            let t = r.chance(60);
            s.mode(n, t);
        } else if r.chance(10) {
            s.add(r, n);
        } else if r.chance(55) {
            s.infer(r, n);
        } else {
            s.back(r, n);
        }
    }
    s.w.finish();
}
pub fn net_exact(c: &mut Ctx, r: &mut Rng, id: String) { let n = netnum(r); net_family(c, r, id, n, 10, 6) }
pub fn net_wrong(c: &mut Ctx, r: &mut Rng, id: String) { let n = netnum(r); net_family(c, r, id, n, 45, 10) }
pub fn net_modes(c: &mut Ctx, r: &mut Rng, id: String) { let n = netnum(r); net_family(c, r, id, n, 8, 35) }
pub fn net_soft(c: &mut Ctx, r: &mut Rng, id: String) { net_family(c, r, id, Numbers::Soft(10), 8, 8) }

/// saving and loading
pub fn net_files(c: &mut Ctx, r: &mut Rng, id: String) {
    let num = if r.chance(70) { netnum(r) } else { Numbers::Opaque };
    let mut w = World::new(c, id, num);
    w.wild = r.u(0, 3);
    let mut s = Sim::new(w, 3, 4, 2);
    for n in 0..3 { let t = r.chance(50); s.fresh(n, t); }
    // files of many records
    s.abyss = r.chance(4);
    s.deep = s.abyss || r.chance(8);
    let d = if s.abyss { r.u(17, 40) } else if s.deep { r.u(6, 14) } else { r.u(0, 4) };
    let vast = r.chance(1);
    if vast { s.vast(r, 0); s.deep = true; } else { s.build(r, 0, d); }
    if r.chance(50) { let d = r.u(1, 2); s.build(r, 1, d); }
    s.save(0, 0);
    if s.deep { s.load(2, 0); s.infer(r, 2); }
    for _ in 0..if vast { r.u(1, 3) } else if s.abyss { r.u(3, 6) } else { r.u(6, 12) } {
        let (n, f) = (r.u(0, 2) as usize, r.u(0, 1) as usize);
        match r.u(0, 17) {
            // one file is saved, then another: the first still holds what it held
            17 => { let q = r.u(0, 2) as usize; s.save(q, 1 - f); s.save(n, f); let t = r.chance(50); s.fresh(2, t); s.load(2, 1 - f); s.infer(r, 2); }
            14 => s.replace(r, n, f),
            15 => { s.w.nsavefail(n as i64, r); if r.chance(50) { s.infer(r, n); } }
            16 => s.record(r, n),
            0..=2 => s.load(n, f),
            3 | 4 => s.save(n, f),
            5 => s.add(r, n),
            6 | 7 => s.infer(r, n),
            8 => s.back(r, n),
            9 => { let t = r.chance(50); s.mode(n, t); }
            10 => { let t = r.chance(50); s.fresh(n, t); s.load(n, f); s.infer(r, n); }
            11 => { s.w.fremove(f as i64); s.files[f] = None; s.load(n, f); }
            12 => { let b = s.w.bytes(f as i64); if !b.is_empty() { s.w.restore(2, &b, f as i64); s.files[2] = s.files[f].clone(); s.load(n, 2); } }
            _ => { s.w.ftear(f as i64, r.u(0, 1000)); s.files[f] = None; s.load(n, f); }
        }
    }
    s.w.finish();
}
/// every truncation of a saved file
pub fn net_cut(c: &mut Ctx, r: &mut Rng, id: String) {
    let num = netnum(r);
    let w = World::new(c, id, num);
    let mut s = Sim::new(w, 2, 2, 1);
    let (t0, t1) = (r.chance(50), r.chance(50));
    s.fresh(0, t0);
    s.fresh(1, t1);
    let d = r.u(1, 2);
    s.build(r, 0, d);
    if r.chance(50) { s.build(r, 1, 1); s.infer(r, 1); s.back(r, 1); }
    s.save(0, 0);
    let b = s.w.bytes(0);
    s.w.restore(3, &b, 0);
    s.files[3] = s.files[0].clone();
    let len = s.w.flen(0);
    let step = (len / 40).max(1);
    let from = r.u(0, step as u32) as usize;
    for k in (from..len).step_by(step).chain([len.saturating_sub(1), 0, 1, 8]) {
        if k >= len { continue; }
        s.w.restore(0, &b, 3);
        s.w.fcut(0, k);
        s.w.nload(1, 0);
    }
    s.infer(r, 1);
    s.load(1, 3);
    s.infer(r, 1);
    s.w.finish();
}
/// files holding records that are damaged, inconsistent or do not chain
pub fn net_bad(c: &mut Ctx, r: &mut Rng, id: String) {
    let num = netnum(r);
    let raw = raw_format_known();
    let w = World::new(c, id, num);
    let mut s = Sim::new(w, 2, 3, 1);
    let (t0, t1) = (r.chance(50), r.chance(50));
    s.fresh(0, t0);
    s.fresh(1, t1);
    if r.chance(60) { let d = r.u(1, 2); s.build(r, 0, d); s.infer(r, 0); if r.chance(50) { s.back(r, 0); } }
    s.build(r, 1, 2);
    s.save(1, 1);
    if !raw { s.w.finish(); return; }
    for _ in 0..r.u(3, 6) {
        // a chain behind network 0 (or on its own), with something wrong at one place
        let mut ls = if r.chance(60) { s.nets[0].ls.clone() } else { vec![] };
        let skip = ls.len();
        for _ in 0..r.u(1, 3) { if let Some(a) = s.draw(r, &ls) { ls.push(a); } }
        let mut items: Vec<(Args, bool)> = ls[skip..].iter().map(|a| (a.clone(), false)).collect();
        if items.is_empty() { continue; }
        let at = r.u(0, items.len() as u32 - 1) as usize;
        match r.u(0, 5) {
            0 | 1 => items[at].1 = true,
            2 | 3 => { let b = disturb(r, &items[at].0, 2); items[at].0 = b; }
            4 => { if let Some(b) = s.draw(r, &[]) { items[at].0 = b; } }
            _ => {}
        }
        let good = items.iter().all(|(a, d)| !*d && a.ok());
        let v: Vec<Args> = items.iter().map(|i| i.0.clone()).collect();
        s.files[0] = if good { Some(v) } else { None };
        if good && !s.may_load(0, 0) { s.files[0] = None; continue; }
        s.w.fcompose(0, &items, r);
        s.load(0, 0);
        if r.chance(60) { s.infer(r, 0); }
    }
    s.load(0, 1);
    s.infer(r, 0);
    s.w.finish();
}
/// the same pass again and again, while other threads do the same with networks of their own
pub fn stress(c: &mut Ctx, r: &mut Rng, id: String) {
    let num = if r.chance(60) { netnum(r) } else { Numbers::Opaque };
    let mut s = Sim::new(World::new(c, id, num), 1, 4, 2);
    let trn = r.chance(70);
    s.fresh(0, trn);
    let d = r.u(1, 4);
    s.build(r, 0, d);
    if s.nets[0].ls.is_empty() { s.w.finish(); return; }
    let (si, so) = (s.nets[0].ls[0].in_shape(), s.nets[0].ls.last().unwrap().out_shape());
    for _ in 0..3 {
        let m = s.rng();
        let (x, g) = (s.w.xs(r, si, &m), s.w.gs(r, so, &m));
        if trn { s.mode(0, true); }
        let ok = s.w.ninfer(0, &x) && (!trn || s.w.nback(0, &g));
        if ok { s.w.nrep(0, &x, &g, trn); }
    }
    s.w.finish();
}
/// arbitrary floats: repeating an inference gives the same bits
pub fn net_memo(c: &mut Ctx, r: &mut Rng, id: String) {
    let mut w = World::new(c, id, Numbers::Opaque);
    w.wild = *r.pick(&[0, 0, 0, 1, 1, 2]);
    let mut s = Sim::new(w, 3, 1, 1);
    for n in 0..3 { let t = r.chance(50); s.fresh(n, t); }
    s.abyss = r.chance(3);
    s.deep = s.abyss || r.chance(15);
    let d = if s.abyss { r.u(17, 40) } else if s.deep { r.u(6, 12) } else { r.u(1, 5) };
    s.build(r, 0, d);
    if s.nets[0].ls.is_empty() { s.w.finish(); return; }
    s.save(0, 0);
    s.load(1, 0);
    // a copy, or a network of the same make with other parameters
    let other = r.chance(45);
    for mut a in s.nets[0].ls.clone() {
        if other && r.chance(70) { a = s.w.wildly(r, &a); }
        s.add_this(2, a, r);
    }
    let sh = s.nets[0].ls[0].in_shape();
    let m = s.rng();
    let mut xs: Vec<IT> = (0..3).map(|_| s.w.xs(r, sh, &m)).collect();
    // the same numbers in another order
    let mut y = xs[0].clone();
    y.d.reverse();
    xs.push(y);
    if r.chance(30) {
        // the same few passes in one order and in another, each from the saved state
        let so = s.nets[0].ls.last().unwrap().out_shape();
        let gs: Vec<IT> = (0..2).map(|_| s.w.xs(r, so, &m)).collect();
        for _ in 0..r.u(5, 8) {
            s.fresh(1, true);
            s.load(1, 0);
            let x = r.pick(&xs).clone();
            s.w.ninfer(1, &x);
            let g = r.pick(&gs).clone();
            s.w.nback(1, &g);
        }
        s.w.finish();
        return;
    }
    for _ in 0..r.u(8, 16) {
        let n = r.u(0, 2) as usize;
        match r.u(0, 12) {
            10 => {
                // the network grows between two inferences of the same input
                let x = r.pick(&xs).clone();
                s.w.ninfer(n as i64, &x);
                if r.chance(60) { let a = s.nets[n].ls.len(); s.add(r, n); if s.nets[n].ls.len() == a { continue; } } else { let t = r.chance(50); s.mode(n, t); }
                s.twin(r, n, &x);
            }
            11 | 12 => { let x = r.pick(&xs).clone(); s.twin(r, n, &x); }
            0..=5 => { let x = r.pick(&xs).clone(); s.w.ninfer(n as i64, &x); }
            6 => s.back(r, n),
            7 => { let t = r.chance(50); s.mode(n, t); }
            8 => match r.u(0, 3) { 0 => s.infer_wrong(r, n), 1 => s.back_wrong(r, n), 2 => s.add_wrong(r, n), _ => s.save(n, 0) },
            _ => { s.fresh(n, r.chance(50)); s.load(n, 0); }
        }
    }
    s.w.finish();
}
