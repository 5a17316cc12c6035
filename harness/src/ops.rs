//! Drivers for the tensor operations (traces checked by TraceOps.tla).
use crate::ctx::*;
use crate::json::J;
use crate::tens::*;
use rusty_network::tensor::helper::{TensorIndex, TensorShape, TensorStride};
use rusty_network::tensor::operations::convolution as cv;
use rusty_network::tensor::Tensor;

type Op = (IT, Enc);
fn rr<E>(r: Result<(), E>) -> &'static str {
    if r.is_ok() { "ok" } else { "err" }
}
fn ix(i: u32, j: u32, k: u32) -> TensorIndex {
    TensorIndex { i, j, k }
}
fn pos(s: [u32; 3], p: usize) -> TensorIndex {
    let (a, b) = (s[0] as usize, s[1] as usize);
    ix((p % a) as u32, ((p / a) % b) as u32, (p / (a * b)) as u32)
}

impl Ctx {
    /// call on existing tensors (their state before and after is observed)
    fn on(&mut self, op: &str, ts: &mut Vec<Tensor>, encs: &[Enc], par: Vec<i64>, idx: Vec<i64>,
          shp: Vec<[u32; 3]>, f: impl FnOnce(&mut Vec<Tensor>, &mut Vec<i64>) -> &'static str) {
        self.mark(op);
        let obs = |ts: &Vec<Tensor>| -> J {
            let v: Vec<IT> = ts.iter().zip(encs).map(|(t, e)| e.of(t)).collect();
            J::A(v.iter().map(J::from).collect())
        };
        take_bad();
        let pre = obs(ts);
        let mut out = vec![];
        let r = guarded(|| f(ts, &mut out));
        let post = match guarded(|| obs(ts)) { Ok(p) => p, Err(_) => J::A(vec![]) };
        let ret = match r { Ok(r) => r, Err(_) => "panic" };
        let shp: Vec<J> = shp.into_iter().map(J::from).collect();
        self.push(J::obj().set("op", op).set("ret", ret).set("bad", take_bad()).set("pre", pre).set("post", post)
            .set("par", par).set("idx", idx).set("shp", J::A(shp)).set("out", out));
    }
    /// call on fresh tensors
    fn op(&mut self, op: &str, ops: &[Op], par: Vec<i64>, idx: Vec<i64>, shp: Vec<[u32; 3]>,
          f: impl FnOnce(&mut Vec<Tensor>, &mut Vec<i64>) -> &'static str) {
        let encs: Vec<Enc> = ops.iter().map(|o| o.1).collect();
        self.mark(op);
        let ts = guarded(|| ops.iter().map(|(t, e)| e.to(t)).collect::<Vec<Tensor>>());
        match ts {
            Ok(mut ts) => self.on(op, &mut ts, &encs, par, idx, shp, f),
            Err(_) => self.push(J::obj().set("op", op).set("ret", "panic").set("bad", false).set("pre", J::A(vec![]))
                .set("post", J::A(vec![])).set("par", par).set("idx", idx).set("shp", J::A(vec![])).set("out", J::A(vec![]))),
        }
    }
}

pub fn exp(r: &mut Rng) -> i32 {
    if r.chance(40) { 0 } else { *r.pick(&[-1, -2, -3, -5, 1, 4, 15, -15, 40, -40, 50, -50]) }
}
/// exponents for operations that are linear in their data: down to subnormals, up to the top
fn linexp(r: &mut Rng) -> i32 {
    if r.chance(40) { 0 } else { *r.pick(&[-1, -3, 4, 15, -15, 40, -40, 100, -100, -126, -140, -149, 103]) }
}
fn other_shape(r: &mut Rng, s: [u32; 3]) -> [u32; 3] {
    loop {
        let mut t = s;
        match r.u(0, 6) {
            0 => { let m = r.u(0, 2) as usize; t[m] += 1; }
            1 => { let m = r.u(0, 2) as usize; if t[m] > 1 { t[m] -= 1; } }
            2 => t = [s[1], s[0], s[2]],
            3 => t = [s[0], s[2], s[1]],
            4 => t = [s[2], s[1], s[0]],
            5 => t = [s[0] * s[1], 1, s[2]],
            _ => t = [s[0] * s[1] * s[2], 1, 1],
        }
        if t != s { return t; }
    }
}

fn ten2(r: &mut Rng, bad: bool, s: [u32; 3], big: i64) -> IT {
    let s = if bad { other_shape(r, s) } else { s };
    r.tensor(s, big)
}
// ------------------------------------------------------------------ C01
pub fn index(c: &mut Ctx, r: &mut Rng) {
    let s = r.shape(5, 5, 4);
    let n = size(s);
    let bits = |r: &mut Rng| r.anybits().to_bits() as i32 as i64;
    // fresh tensors
    c.op("new", &[(IT { s, d: vec![0; n] }, Enc::Bits)], vec![], vec![], vec![s], |t, o| {
        t[0] = Tensor::new(shape(s));
        o.push(t[0].total_items() as i64);
        "ok"
    });
    // one persistent tensor, written and read through coordinates
    let d: Vec<i64> = (0..n).map(|_| bits(r)).collect();
    let mut ts = vec![Enc::Bits.to(&IT { s, d })];
    for _ in 0..6 {
        let far = *r.pick(&[1u32, 2, 7, 1000, 1 << 16, (1 << 31) - 1]);
        let mut q = [r.u(0, s[0] - 1), r.u(0, s[1] - 1), r.u(0, s[2] - 1)];
        if r.chance(40) {
            let m = r.u(0, 2) as usize;
            q[m] = match r.u(0, 2) { 0 => s[m], 1 => s[m] + 1, _ => s[m].saturating_add(far).min((1 << 31) - 1) };
        }
        let v = bits(r);
        let qi: Vec<i64> = q.iter().map(|x| *x as i64).collect();
        let mut par = qi.clone();
        par.push(v);
        c.on("set", &mut ts, &[Enc::Bits], par, vec![], vec![], |t, _| {
            t[0].set_item(&ix(q[0], q[1], q[2]), Enc::Bits.real(v));
            "ok"
        });
        c.on("get", &mut ts, &[Enc::Bits], qi.clone(), vec![], vec![], |t, o| {
            o.push(Enc::Bits.int(t[0].get_item(&ix(q[0], q[1], q[2]))));
            "ok"
        });
    }
    // zeros of either sign, and values that compare equal to what they replace
    for _ in 0..2 {
        let p = r.u(0, n as u32 - 1) as usize;
        let (i, j, k) = (p as u32 % s[0], p as u32 / s[0] % s[1], p as u32 / (s[0] * s[1]));
        for v in [0.0f32, -0.0, 0.0] {
            let v = Enc::Bits.int(v);
            c.on("set", &mut ts, &[Enc::Bits], vec![i as i64, j as i64, k as i64, v], vec![], vec![], |t, _| {
                t[0].set_item(&ix(i, j, k), Enc::Bits.real(v));
                "ok"
            });
        }
    }
    // every coordinate once, in a random order
    let mut ord: Vec<usize> = (0..n).collect();
    for m in (1..n).rev() {
        ord.swap(m, r.u(0, m as u32) as usize);
    }
    ts[0].fill_with_value(0.0);
    c.on("writeall", &mut ts, &[Enc::Exp(0)], vec![], ord.iter().map(|x| *x as i64).collect(), vec![], |t, o| {
        for p in ord.iter() {
            t[0].set_item(&pos(s, *p), (*p + 1) as f32);
        }
        for p in 0..n {
            o.push(t[0].get_data_index(&pos(s, p)) as i64);
        }
        "ok"
    });
    // large tensors, sparse probes
    let big = *r.pick(&[[70000u32, 1, 1], [1, 70000, 1], [1, 1, 70000], [300, 40, 7], [3, 257, 33], [255, 256, 2], [65, 1, 513], [1, 19, 301]]);
    let mut par = vec![];
    for m in 0..8 {
        for x in 0..3 {
            par.push(match r.u(0, 5) { 0 => 0, 1 => big[x] as i64 - 1, 2 if m > 5 => big[x] as i64, _ => r.u(0, big[x] - 1) as i64 });
        }
    }
    let p2 = par.clone();
    c.op("probe", &[], par, vec![], vec![big], move |_, o| {
        let mut t = Tensor::new(shape(big));
        for (m, q) in p2.chunks(3).enumerate() {
            t.set_item(&ix(q[0] as u32, q[1] as u32, q[2] as u32), (m + 1) as f32);
        }
        for q in p2.chunks(3) {
            o.push(t.get_item(&ix(q[0] as u32, q[1] as u32, q[2] as u32)) as i64);
        }
        "ok"
    });
    let q = [r.u(0, big[0] - 1), r.u(0, big[1] - 1), r.u(0, big[2] - 1)];
    c.op("lin", &[], q.iter().map(|x| *x as i64).collect(), vec![], vec![big], move |_, o| {
        o.push(Tensor::new(shape(big)).get_data_index(&ix(q[0], q[1], q[2])) as i64);
        "ok"
    });
}

/// random fills: how the elements lie relative to what was asked for, in tenths of the standard
/// deviation (gaussian) or hundredths of the range (uniform)
fn spread(c: &mut Ctx, r: &mut Rng) {
    let s = *r.pick(&[[8u32, 1, 1], [2, 2, 3], [1, 9, 1], [5, 5, 4], [64, 1, 1], [1, 10, 12], [1, 1, 70], [150, 1, 1]]);
    let unit = *r.pick(&[1e-20f32, 1e-3, 0.5, 1.0, 1.0, 3.0, 1e3, 1e20]);
    let mid = (r.int(-40, 40) as f32) / 4.0 * unit;
    let wid = (r.int(1, 40) as f32) / 4.0 * unit;
    let gauss = r.chance(60);
    let zero = IT { s, d: vec![0; size(s)] };
    c.op(if gauss { "gauss" } else { "spread" }, &[(zero, Enc::Exp(0))], vec![], vec![], vec![s], |t, o| {
        if gauss { t[0].fill_with_gaussian(mid, wid); } else { t[0].fill_with_uniform(mid, mid + wid); }
        for p in 0..size(s) {
            let x = t[0].get_item(&pos(s, p));
            let z = (x as f64 - mid as f64) / wid as f64 * if gauss { 10.0 } else { 100.0 };
            o.push(if z.is_finite() { z.round().clamp(-9999.0, 9999.0) as i64 } else { 99999 });
        }
        let mut b: Vec<u32> = (0..size(s)).map(|p| t[0].get_item(&pos(s, p)).to_bits()).collect();
        b.sort();
        b.dedup();
        o.push(b.len() as i64);
        // the shape is observed, the values are not numbers of a unit
        if dims(&t[0].get_shape()) == s { t[0].fill_with_value(0.0); }
        "ok"
    });
}
/// a shape of any size whose element count is a number of the specification
fn farshape(r: &mut Rng) -> [u32; 3] {
    let d = |r: &mut Rng, top: u32| match r.u(0, 4) {
        0 => 1,
        1 => *r.pick(&[2u32, 3, 255, 256, 257, 1000, 46340, 65535, 65536, 65537, 1 << 24, (1 << 24) + 1, (1 << 30) + 7, i32::MAX as u32]),
        _ => r.u(1, top),
    };
    loop {
        let s = [d(r, 9), d(r, 9), d(r, 9)];
        if (s[0] as u128) * (s[1] as u128) * (s[2] as u128) < 1 << 31 { return s; }
    }
}
/// shapes, coordinates and strides by themselves
pub fn shapes(c: &mut Ctx, r: &mut Rng) {
    let l3 = |s: &TensorShape| { let (a, b, d) = s.get(); [a as i64, b as i64, d as i64] };
    let f3 = |s: &TensorShape| [s.di as i64, s.dj as i64, s.dk as i64];
    c.op("empty", &[(IT { s: [1, 1, 1], d: vec![7] }, Enc::Bits)], vec![], vec![], vec![], |t, o| {
        t[0] = Tensor::empty();
        o.push(t[0].total_items() as i64);
        "ok"
    });
    for _ in 0..6 {
        let s = farshape(r);
        let q = match r.u(0, 4) {
            0 => s,
            1 => [s[1], s[0], s[2]],
            2 => { let mut q = s; q[2] = if s[2] > 1 { s[2] - 1 } else { 2 }; if size(q) < 1 << 31 { q } else { s } }
            _ => farshape(r),
        };
        c.op("shape", &[], vec![], vec![], vec![s, q], |_, o| {
            let (a, b) = (TensorShape { di: s[0], dj: s[1], dk: s[2] }, TensorShape { di: q[0], dj: q[1], dk: q[2] });
            let (ta, tta) = (a.transpose_ij(), a.transpose_ij().transpose_ij());
            let st = TensorStride::new_from_shape(&a);
            o.extend(l3(&a));
            o.push(a.total_size() as i64);
            o.extend(f3(&ta));
            o.extend(l3(&tta));
            o.extend([st.i as i64, st.j as i64, st.k as i64]);
            o.push((a == b) as i64);
            o.push((st == TensorStride::new_from_shape(&b)) as i64);
            if (a != b) == (a == b) { return "err"; }
            "ok"
        });
        // constructors: an absent dimension counts as one
        let z = |r: &mut Rng| match r.u(0, 3) { 0 => 0u32, 1 => 1, 2 => r.u(0, 9), _ => *r.pick(&[255u32, 65536, i32::MAX as u32]) };
        let n = [z(r), z(r), z(r), z(r).max(1), z(r).max(1)];
        c.op("shapenew", &[], n.iter().map(|x| *x as i64).collect(), vec![], vec![], |_, o| {
            o.extend(f3(&TensorShape::new(n[0], n[1], n[2])));
            o.extend(f3(&TensorShape::new_1d(n[3])));
            o.extend(f3(&TensorShape::new_2d(n[3], n[4])));
            "ok"
        });
        let mut q = [r.u(0, s[0] - 1), r.u(0, s[1] - 1), r.u(0, s[2] - 1)];
        if r.chance(50) {
            for m in 0..3 { if r.chance(50) { q[m] = match r.u(0, 3) { 0 => s[m].min(i32::MAX as u32), 1 => s[m].saturating_add(1).min(i32::MAX as u32), 2 => s[m] - 1, _ => *r.pick(&[0, i32::MAX as u32]) }; } }
        }
        c.op("fitsix", &[], q.iter().map(|x| *x as i64).collect(), vec![], vec![s], |_, o| {
            let (a, i) = (TensorShape { di: s[0], dj: s[1], dk: s[2] }, ix(q[0], q[1], q[2]));
            let fits = a.fits_index(&i);
            o.push(fits as i64);
            if fits { o.push((&TensorStride::new_from_shape(&a) * &i) as i64); }
            "ok"
        });
        let n = [z(r), z(r)];
        c.op("ixnew", &[], n.iter().map(|x| *x as i64).collect(), vec![], vec![], |_, o| {
            for i in [TensorIndex::index_1d(n[0]), TensorIndex::index_2d(n[0], n[1]), TensorIndex::zero()] {
                o.extend([i.i as i64, i.j as i64, i.k as i64]);
            }
            "ok"
        });
    }
}

/// not-a-numbers have no place in an order
fn numbers(t: &mut Tensor) {
    let s = dims(&t.get_shape());
    if (0..size(s)).any(|p| t.get_item(&pos(s, p)).is_nan()) { t.fill_with_value(1.0); }
}
pub fn fills(c: &mut Ctx, r: &mut Rng) {
    let s = r.shape(5, 4, 4);
    let n = size(s);
    let mut ts = vec![Enc::Bits.to(&IT { s, d: (0..n).map(|_| r.anybits().to_bits() as i32 as i64).collect() })];
    spread(c, r);
    for _ in 0..7 {
        let v = r.anybits();
        match r.u(0, 4) {
            0 => c.on("fillval", &mut ts, &[Enc::Bits], vec![Enc::Bits.int(v)], vec![], vec![], |t, _| {
                t[0].fill_with_value(v);
                "ok"
            }),
            1 | 2 => {
                let m = match r.u(0, 7) { 0 => n + 1, 1 => n - 1, 2 => 0, 3 => 2 * n, _ => n };
                let few = r.chance(25);
                let (u, v) = *r.pick(&[(0.0, -0.0), (-0.0, -0.0), (0.0, 1e-45), (1.0, 1.0), (f32::NAN, 0.0), (f32::INFINITY, f32::NEG_INFINITY)]);
                let d: Vec<f32> = (0..m).map(|_| if few { if r.chance(50) { u } else { v } } else { r.anybits() }).collect();
                c.on("fillvec", &mut ts, &[Enc::Bits], d.iter().map(|x| Enc::Bits.int(*x)).collect(), vec![], vec![],
                    |t, _| rr(t[0].fill_with_vec(d)));
            }
            3 => {
                let a = (r.int(-2000, 2000) as f32) / 16.0;
                numbers(&mut ts[0]);
                let b = match r.u(0, 3) { 0 => a, 1 => a + 1e-3, 2 => a + 1e9, _ => a + r.u(0, 64) as f32 };
                c.on("uniform", &mut ts, &[Enc::Ord], vec![ord_key(a), ord_key(b)], vec![], vec![], |t, _| {
                    t[0].fill_with_uniform(a, b);
                    "ok"
                });
                if n > 0 { // elements are the operands of later events: bring them back to plain bits
                    c.on("fillval", &mut ts, &[Enc::Bits], vec![Enc::Bits.int(v)], vec![], vec![], |t, _| {
                        t[0].fill_with_value(v);
                        "ok"
                    });
                }
            }
            _ => {
                let v = if v.abs() <= 1e30 { v } else { 1.5 };
                numbers(&mut ts[0]);
                c.on("gauss0", &mut ts, &[Enc::Ord], vec![ord_key(v)], vec![], vec![], |t, _| {
                    t[0].fill_with_gaussian(v, 0.0);
                    "ok"
                })
            }
        }
    }
}

// ------------------------------------------------------------------ arbitrary floats
// Every result is one operand element, its negation or zero: compared by their keys, so that
// precision, denormals and the extremes of the range are seen.  Selectors hold 0, 1 and -1.
fn anyfloat(r: &mut Rng, s: [u32; 3]) -> (IT, Enc) {
    let style = r.u(0, 5);
    let d = (0..size(s)).map(|_| {
        let x = match style {
            0 => f32::from_bits((r.next() as u32) & 0x007f_ffff),
            1 => { let m = r.next() as u32 & 0x007f_ffff; f32::from_bits(0x7f00_0000 | m) }
            2 => f32::from_bits(0x3f80_0000 | (r.next() as u32 & 0x007f_ffff)),
            _ => r.float(),
        };
        ord_key(if r.chance(50) { -x } else { x })
    }).collect();
    (IT { s, d }, Enc::Ord)
}
fn nothing(s: [u32; 3]) -> (IT, Enc) { (IT { s, d: vec![0; size(s)] }, Enc::Ord) }
fn signs(r: &mut Rng, s: [u32; 3]) -> (IT, Enc) {
    (IT { s, d: (0..size(s)).map(|_| if r.chance(50) { 1 } else { -1 }).collect() }, Enc::Exp(0))
}
fn onehot(r: &mut Rng, s: [u32; 3]) -> (IT, Enc) {
    let mut t = IT { s, d: vec![0; size(s)] };
    let p = r.u(0, size(s) as u32 - 1) as usize;
    t.d[p] = if r.chance(70) { 1 } else { -1 };
    (t, Enc::Exp(0))
}
/// at most one nonzero per column (or per row)
fn selector(r: &mut Rng, s: [u32; 3], column: bool) -> (IT, Enc) {
    let mut t = IT { s, d: vec![0; size(s)] };
    for k in 0..s[2] as usize {
        for q in 0..if column { s[1] } else { s[0] } as usize {
            let (i, j) = if column { (r.u(0, s[0] - 1) as usize, q) } else { (q, r.u(0, s[1] - 1) as usize) };
            let (a, b) = (s[0] as usize, s[1] as usize);
            t.d[i + a * j + a * b * k] = match r.u(0, 9) { 0 => 0, 1 | 2 => -1, _ => 1 };
        }
    }
    (t, Enc::Exp(0))
}
fn elem_any(c: &mut Ctx, r: &mut Rng, s: [u32; 3]) {
    let junk = anyfloat(r, s);
    match r.u(0, 6) {
        0 => {
            let (a, b) = if r.chance(50) { (anyfloat(r, s), nothing(s)) } else { (nothing(s), anyfloat(r, s)) };
            c.op("add", &[a, b, junk], vec![], vec![], vec![], |t, _| {
                if let [a, b, d] = &mut t[..] { Tensor::add(a, b, d); }
                "ok"
            });
        }
        1 => {
            let (a, b) = if r.chance(50) { (anyfloat(r, s), nothing(s)) } else { (nothing(s), anyfloat(r, s)) };
            c.op("addself", &[a, b], vec![], vec![], vec![], |t, _| {
                if let [a, b] = &mut t[..] { Tensor::add_to_self(a, b); }
                "ok"
            });
        }
        2 => {
            let (a, b) = (anyfloat(r, s), signs(r, s));
            let sw = r.chance(50);
            c.op("mul", &[if sw { b.clone() } else { a.clone() }, if sw { a } else { b }, junk], vec![], vec![], vec![], |t, _| {
                if let [a, b, d] = &mut t[..] { Tensor::multiply_elementwise(a, b, d); }
                "ok"
            });
        }
        3 => {
            let (a, b) = (anyfloat(r, s), signs(r, s));
            c.op("mulself", &[a, b], vec![], vec![], vec![], |t, _| {
                if let [a, b] = &mut t[..] { Tensor::multiply_elementwise_self(a, b); }
                "ok"
            });
        }
        4 => {
            let k = *r.pick(&[1i64, -1, 0]);
            let a = anyfloat(r, s);
            c.op("scale", &[a, junk], vec![k], vec![], vec![], |t, _| {
                if let [a, d] = &mut t[..] { Tensor::scale(a, k as f32, d); }
                "ok"
            });
        }
        5 => {
            let k = *r.pick(&[1i64, -1, 0]);
            let a = anyfloat(r, s);
            c.op("scaleself", &[a], vec![k], vec![], vec![], |t, _| {
                Tensor::scale_self(&mut t[0], k as f32);
                "ok"
            });
        }
        _ => {
            // every source element to a place of its own
            let n = size(s);
            let mut to: Vec<usize> = (0..n).collect();
            for m in (1..n).rev() { to.swap(m, r.u(0, m as u32) as usize); }
            let l: Vec<u32> = to.iter().map(|x| *x as u32).collect();
            let (a, d) = (anyfloat(r, s), nothing(s));
            c.op("addidx", &[a, d], vec![], to.iter().map(|x| *x as i64).collect(), vec![], |t, _| {
                if let [a, d] = &mut t[..] { return rr(Tensor::add_from_index_list(a, d, &l)); }
                "ok"
            });
        }
    }
}
fn mat_any(c: &mut Ctx, r: &mut Rng) {
    let (m, n, p, k) = matdims(r);
    let (m, n, p) = (m.min(33), n.min(33), p.min(33));
    let which = r.u(0, 3);
    let mut sh = [[m, n, k], [n, p, k], [m, p, k]];
    if which == 1 { sh[0] = [n, m, k]; }
    if which == 2 { sh[1] = [p, n, k]; }
    // the selector is the second operand (one nonzero along the summed dimension) or the first
    let second = r.chance(50);
    let (a, b) = if second { (anyfloat(r, sh[0]), selector(r, sh[1], which != 2)) } else { (selector(r, sh[0], which == 1), anyfloat(r, sh[1])) };
    let d = anyfloat(r, sh[2]);
    match which {
        0 => c.op("matmul", &[a, b, d], vec![], vec![], vec![], |t, _| {
            if let [a, b, d] = &mut t[..] { Tensor::matrix_multiply(a, b, d); }
            "ok"
        }),
        1 => c.op("mmt1", &[a, b, d], vec![], vec![], vec![], |t, _| {
            if let [a, b, d] = &mut t[..] { return rr(Tensor::matrix_multiply_transpose_first(a, b, d)); }
            "ok"
        }),
        2 => c.op("mmt2", &[a, b, d], vec![], vec![], vec![], |t, _| {
            if let [a, b, d] = &mut t[..] { return rr(Tensor::matrix_multiply_transpose_second(a, b, d)); }
            "ok"
        }),
        _ => {
            // the product plus nothing, or nothing plus a bias; a is the weight matrix
            let bias = r.chance(40);
            let (w, x, z) = if bias { (nothing(sh[0]), nothing(sh[1]), anyfloat(r, sh[2])) } else { (a, b, nothing(sh[2])) };
            c.op("mmar", &[x, w, z, d], vec![], vec![], vec![], |t, _| {
                if let [x, w, b, d] = &mut t[..] { Tensor::matrix_multiply_add_relu(x, w, b, d); }
                "ok"
            });
        }
    }
}
fn conv_any(c: &mut Ctx, r: &mut Rng) {
    let g = geom(r, true);
    let (st, ch, relu) = (g.st, r.u(0, g.res[2] - 1), r.chance(50));
    let (x, w, b) = match r.u(0, 2) {
        0 => (anyfloat(r, g.img), onehot(r, g.ker), nothing([1, 1, 1])),
        1 => (onehot(r, g.img), anyfloat(r, g.ker), nothing([1, 1, 1])),
        _ => (nothing(g.img), signs(r, g.ker), anyfloat(r, [1, 1, 1])),
    };
    let d = anyfloat(r, g.res);
    c.op(if relu { "convrelu" } else { "conv" }, &[x, w, b, d], vec![st_i(st), ch as i64], vec![], vec![], |t, _| {
        if let [x, w, b, d] = &mut t[..] {
            return rr(if relu { cv::convolution_bias_relu(x, w, b, st, d, ch) } else { cv::convolution_bias(x, w, b, st, d, ch) });
        }
        "ok"
    });
}
fn convin_any(c: &mut Ctx, r: &mut Rng) {
    let g = geom(r, true);
    let st = g.st;
    let first = r.chance(50);
    let hot = r.u(0, g.res[2] - 1);
    let mut ops = vec![if first { anyfloat(r, g.res) } else { onehot(r, g.res) }, anyfloat(r, g.img)];
    for n in 0..g.res[2] {
        ops.push(if !first { anyfloat(r, g.ker) } else if n == hot { onehot(r, g.ker) } else { (IT { s: g.ker, d: vec![0; size(g.ker)] }, Enc::Exp(0)) });
    }
    c.op("convin", &ops, vec![st_i(st)], vec![], vec![], |t, _| {
        let (head, kers) = t.split_at_mut(2);
        let kers: Vec<Tensor> = kers.to_vec();
        if let [gi, go] = head { return rr(cv::convolution_backprop_outgoing_gradient(gi, &kers, st, go)); }
        "ok"
    });
}
fn convker_any(c: &mut Ctx, r: &mut Rng) {
    let g = geom(r, true);
    let (st, ch) = (g.st, r.u(0, g.res[2] - 1));
    let (gi, im) = if r.chance(50) {
        (anyfloat(r, g.res), onehot(r, g.img))
    } else {
        // one position of the channel, whatever in the others
        let (mut t, cells) = (IT { s: g.res, d: vec![0; size(g.res)] }, g.res[0] * g.res[1]);
        for k in 0..g.res[2] {
            if k == ch || r.chance(50) { t.d[(k * cells + r.u(0, cells - 1)) as usize] = if r.chance(50) { 1 } else { -1 }; }
        }
        ((t, Enc::Exp(0)), anyfloat(r, g.img))
    };
    let d = anyfloat(r, g.ker);
    c.op("convker", &[gi, im, d], vec![st_i(st), ch as i64], vec![], vec![], |t, _| {
        if let [gi, im, d] = &mut t[..] { return rr(cv::convolution_backprop_kernel(gi, im, st, ch, d)); }
        "ok"
    });
}

// ------------------------------------------------------------------ special values
/// which of the operands hold them
fn some(r: &mut Rng) -> (bool, bool) {
    *r.pick(&[(true, false), (false, true), (true, true)])
}
fn elem_special(c: &mut Ctx, r: &mut Rng, s: [u32; 3]) {
    let x = Enc::X(*r.pick(&[0, 0, -3, 7]));
    let (fa, fb) = some(r);
    let (a, b, d) = (r.special(s, fa), r.special(s, fb), r.special(s, true));
    let k = *r.pick(&[0, 0, 1, -1, 2, -3, PINF, -PINF, NAN]);
    match r.u(0, 7) {
        0 => c.op("xadd", &[(a, x), (b, x), (d, x)], vec![], vec![], vec![], |t, _| {
            if let [a, b, d] = &mut t[..] { Tensor::add(a, b, d); }
            "ok"
        }),
        1 => c.op("xaddself", &[(a, x), (b, x)], vec![], vec![], vec![], |t, _| {
            if let [a, b] = &mut t[..] { Tensor::add_to_self(a, b); }
            "ok"
        }),
        2 => c.op("xmul", &[(a, x), (b, Enc::X(0)), (d, x)], vec![], vec![], vec![], |t, _| {
            if let [a, b, d] = &mut t[..] { Tensor::multiply_elementwise(a, b, d); }
            "ok"
        }),
        3 => c.op("xmulself", &[(a, x), (b, Enc::X(0))], vec![], vec![], vec![], |t, _| {
            if let [a, b] = &mut t[..] { Tensor::multiply_elementwise_self(a, b); }
            "ok"
        }),
        4 | 5 => c.op("xscale", &[(a, x), (d, x)], vec![k], vec![], vec![], |t, _| {
            if let [a, d] = &mut t[..] { Tensor::scale(a, Enc::X(0).real(k), d); }
            "ok"
        }),
        6 => c.op("xscaleself", &[(a, x)], vec![k], vec![], vec![], |t, _| {
            Tensor::scale_self(&mut t[0], Enc::X(0).real(k));
            "ok"
        }),
        _ => {
            let st = r.shape(3, 3, 2);
            let d = r.special(st, fb);
            let l: Vec<u32> = (0..size(s)).map(|_| r.u(0, size(st) as u32 - 1)).collect();
            c.op("xaddidx", &[(a, x), (d, x)], vec![], l.iter().map(|v| *v as i64).collect(), vec![], |t, _| {
                if let [a, d] = &mut t[..] { return rr(Tensor::add_from_index_list(a, d, &l)); }
                "ok"
            })
        }
    }
}
fn mat_special(c: &mut Ctx, r: &mut Rng) {
    let (m, n, p, k) = matdims(r);
    let (m, n, p) = (m.min(17), n.min(33), p.min(17));
    let which = r.u(0, 2);
    let mut sh = [[m, n, k], [n, p, k], [m, p, k]];
    if which == 1 { sh[0] = [n, m, k]; }
    if which == 2 { sh[1] = [p, n, k]; }
    let (fa, fb) = some(r);
    let (xa, xb) = (Enc::X(*r.pick(&[0, 0, -3, 7])), Enc::X(0));
    let ops = [(r.special(sh[0], fa), xa), (r.special(sh[1], fb), xb), (r.special(sh[2], true), xa)];
    c.op(["xmatmul", "xmmt1", "xmmt2"][which as usize], &ops, vec![], vec![], vec![], |t, _| {
        if let [a, b, d] = &mut t[..] {
            return match which {
                0 => { Tensor::matrix_multiply(a, b, d); "ok" }
                1 => rr(Tensor::matrix_multiply_transpose_first(a, b, d)),
                _ => rr(Tensor::matrix_multiply_transpose_second(a, b, d)),
            };
        }
        "ok"
    });
}
fn conv_special(c: &mut Ctx, r: &mut Rng, which: u32) {
    let mut g = geom(r, true);
    while size(g.img) * size([g.ker[0], g.ker[1], g.res[2]]) > 30_000 { g = geom(r, true); }
    let (st, ch) = (g.st, r.u(0, g.res[2] - 1));
    let (fa, fb) = some(r);
    let (xa, xb) = (Enc::X(*r.pick(&[0, 0, -3, 7])), Enc::X(0));
    match which {
        0 => {
            let fc = r.chance(20);
            let ops = [(r.special(g.img, fa), xa), (r.special(g.ker, fb), xb), (r.special([1, 1, 1], fc), xa), (r.special(g.res, true), xa)];
            c.op("xconv", &ops, vec![st_i(st), ch as i64], vec![], vec![], |t, _| {
                if let [x, w, b, d] = &mut t[..] { return rr(cv::convolution_bias(x, w, b, st, d, ch)); }
                "ok"
            });
        }
        1 => {
            let mut ops = vec![(r.special(g.res, fa), xa), (r.special(g.img, true), xa)];
            for _ in 0..g.res[2] { ops.push((r.special(g.ker, fb), xb)); }
            c.op("xconvin", &ops, vec![st_i(st)], vec![], vec![], |t, _| {
                let (head, kers) = t.split_at_mut(2);
                let kers: Vec<Tensor> = kers.to_vec();
                if let [gi, go] = head { return rr(cv::convolution_backprop_outgoing_gradient(gi, &kers, st, go)); }
                "ok"
            });
        }
        _ => {
            let ops = [(r.special(g.res, fa), xa), (r.special(g.img, fb), xb), (r.special(g.ker, true), xa)];
            c.op("xconvker", &ops, vec![st_i(st), ch as i64], vec![], vec![], |t, _| {
                if let [gi, im, d] = &mut t[..] { return rr(cv::convolution_backprop_kernel(gi, im, st, ch, d)); }
                "ok"
            });
        }
    }
}

// ------------------------------------------------------------------ C02
pub fn elem(c: &mut Ctx, r: &mut Rng) {
    // sizes around vectorisation boundaries now and then
    let s = if r.chance(30) { let (a, b) = (r.wide(70), r.u(1, 2)); *r.pick(&[[a, b, 1], [b, a, 1], [1, b, a]]) } else { r.shape(6, 5, 4) };
    if r.chance(60) { elem_any(c, r, s); }
    if r.chance(60) { elem_special(c, r, s); }
    for _ in 0..8 {
        let bad = r.chance(25);
        let e = linexp(r);
        let s2 = if bad && r.chance(50) { other_shape(r, s) } else { s };
        let s3 = if bad && s2 == s { other_shape(r, s) } else { s };
        let big = if r.chance(30) { 4_000_000 } else { 1000 };
        let big = if e > 90 { big.min(1 << 20) } else { big };
        match r.u(0, 8) {
            0 => {
                let (a, mut b, d) = (r.tensor(s, big), r.tensor(s2, big), r.tensor(s3, 999));
                if s2 == s && r.chance(20) { cancel(r, &a, &mut b); }
                let x = Enc::Exp(e);
                c.op("add", &[(a, x), (b, x), (d, x)], vec![], vec![], vec![], |t, _| {
                    if let [a, b, d] = &mut t[..] { Tensor::add(a, b, d); }
                    "ok"
                });
            }
            1 => {
                let (a, mut b) = (r.tensor(s, big), ten2(r, bad, s, big));
                if b.s == s && r.chance(20) { cancel(r, &a, &mut b); }
                let x = Enc::Exp(e);
                c.op("addself", &[(a, x), (b, x)], vec![], vec![], vec![], |t, _| {
                    if let [a, b] = &mut t[..] { Tensor::add_to_self(a, b); }
                    "ok"
                });
            }
            2 => {
                let (ea, eb) = (exp(r), exp(r));
                let (a, b, d) = (r.tensor(s, 3000), r.tensor(s2, 3000), r.tensor(s3, 999));
                c.op("mul", &[(a, Enc::Exp(ea)), (b, Enc::Exp(eb)), (d, Enc::Exp(ea + eb))], vec![], vec![], vec![], |t, _| {
                    if let [a, b, d] = &mut t[..] { Tensor::multiply_elementwise(a, b, d); }
                    "ok"
                });
            }
            3 => {
                // in place: the scale of the second operand is 1, so the unit stays
                let (a, b) = (r.tensor(s, 3000), ten2(r, bad, s, 3000));
                let x = if e > 90 { 80 } else { e };
                c.op("mulself", &[(a, Enc::Exp(x)), (b, Enc::Exp(0))], vec![], vec![], vec![], |t, _| {
                    if let [a, b] = &mut t[..] { Tensor::multiply_elementwise_self(a, b); }
                    "ok"
                });
            }
            4 => {
                let (ea, eb) = (exp(r), exp(r));
                let k = match r.u(0, 4) { 0 => 0, 1 => 1, 2 => -1, _ => r.int(-2000, 2000) };
                let (a, d) = (r.tensor(s, 3000), ten2(r, bad, s, 999));
                c.op("scale", &[(a, Enc::Exp(ea)), (d, Enc::Exp(ea + eb))], vec![k], vec![], vec![], |t, _| {
                    if let [a, d] = &mut t[..] { Tensor::scale(a, Enc::Exp(eb).real(k), d); }
                    "ok"
                });
            }
            5 => {
                let k = match r.u(0, 4) { 0 => 0, 1 => 1, 2 => -1, _ => r.int(-2000, 2000) };
                let a = r.tensor(s, 3000);
                let x = if e > 90 { 80 } else { e };
                c.op("scaleself", &[(a, Enc::Exp(x))], vec![k], vec![], vec![], |t, _| {
                    Tensor::scale_self(&mut t[0], k as f32);
                    "ok"
                });
            }
            6 => {
                let m = ten2(r, bad, s, 5);
                if r.chance(50) {
                    let a = r.tensor(s, big);
                    c.op("relu", &[(a, Enc::Exp(e)), (m, Enc::Exp(0))], vec![], vec![], vec![], |t, _| {
                        if let [a, m] = &mut t[..] { return rr(Tensor::relu_self_and_store_mask(a, m)); }
                        "ok"
                    });
                } else {
                    let d = (0..size(s)).map(|_| ord_key(if r.chance(5) { f32::INFINITY } else { r.float() })).collect();
                    c.op("relu", &[(IT { s, d }, Enc::Ord), (m, Enc::Exp(0))], vec![], vec![], vec![], |t, _| {
                        if let [a, m] = &mut t[..] { return rr(Tensor::relu_self_and_store_mask(a, m)); }
                        "ok"
                    });
                }
            }
            _ => {
                let st = r.shape(4, 4, 3);
                let (n, m) = (size(s), size(st));
                let len = match r.u(0, 9) { 0 => n + r.u(1, 3) as usize, 1 => 0, 2 => r.u(0, n as u32) as usize, _ => n };
                let one = r.u(0, m as u32 - 1) as i64;
                let same = r.chance(20);
                let mut idx: Vec<i64> = (0..len).map(|_| if same { one } else { r.u(0, m as u32 - 1) as i64 }).collect();
                if bad && len > 0 {
                    let p = r.u(0, len as u32 - 1) as usize;
                    idx[p] = m as i64 + *r.pick(&[0i64, 1, 5, 2_000_000_000 - 1000]);
                }
                let l: Vec<u32> = idx.iter().map(|x| *x as u32).collect();
                let (a, d) = (r.tensor(s, 1000), r.tensor(st, 1000));
                let x = Enc::Exp(e);
                c.op("addidx", &[(a, x), (d, x)], vec![], idx, vec![], |t, _| {
                    if let [a, d] = &mut t[..] { return rr(Tensor::add_from_index_list(a, d, &l)); }
                    "ok"
                });
            }
        }
    }
    // nearly the same
    for _ in 0..2 {
        let x = Enc::Canon;
        let a = IT { s, d: (0..size(s)).map(|_| x.int(r.float())).collect() };
        let mut b = a.clone();
        if r.chance(80) {
            let q = if r.chance(40) { size(s) - 1 } else { r.u(0, size(s) as u32 - 1) as usize };
            let v = f32::from_bits(b.d[q] as i32 as u32);
            let w = match r.u(0, 5) {
                0 | 1 => f32::from_bits(v.to_bits() ^ 1), 2 => v * (1.0 - 1e-6), 3 => v + 1e-7, 4 => -v, _ => f32::from_bits(v.to_bits() ^ 2),
            };
            if w.is_finite() { b.d[q] = x.int(w); }
        }
        if r.chance(10) { b.s = [s[1], s[0], s[2]]; }
        let m = r.tensor([1, 1, 1], 0);
        c.op("eq", &[(a, x), (m, x), (b, x)], vec![], vec![], vec![], |t, o| {
            o.push((t[0] == t[2]) as i64);
            o.push((t[0] != t[2]) as i64);
            o.push((t[0] == t[0].clone()) as i64);
            "ok"
        });
    }
    let a = r.tensor(if size(s) > 60 { [3, 3, 2] } else { s }, 200);
    let e = exp(r).clamp(-55, 50);
    c.op("norm", &[(a, Enc::Exp(e))], vec![], vec![], vec![], |t, o| {
        let v = (t[0].get_norm() as f64) * (2f64).powi(4 - e);
        o.push(if v.is_finite() && v < 16_000_000.0 { v.round() as i64 } else { -5 });
        "ok"
    });
}

/// a few tensors that live through many operations
pub fn objects(c: &mut Ctx, r: &mut Rng) {
    let s = r.shape(4, 4, 3);
    let e = *r.pick(&[0, 0, -1, -3]);
    let x = Enc::Exp(e);
    let small = |r: &mut Rng| r.tensor(s, 50);
    let mut ts: Vec<Tensor> = (0..3).map(|_| x.to(&small(r))).collect();
    let e3 = [x, x, x];
    for _ in 0..14 {
        match r.u(0, 9) {
            0 => {
                let v = r.int(-50, 50);
                c.on("fillval3", &mut ts, &e3, vec![v], vec![], vec![], |t, _| { t[0].fill_with_value(x.real(v)); "ok" })
            }
            1 => {
                let d = r.data(size(s), 50);
                let f: Vec<f32> = d.iter().map(|v| x.real(*v)).collect();
                c.on("fillvec3", &mut ts, &e3, d, vec![], vec![], |t, _| rr(t[0].fill_with_vec(f)))
            }
            2 | 3 => c.on("add", &mut ts, &e3, vec![], vec![], vec![], |t, _| {
                if let [a, b, d] = &mut t[..] { Tensor::add(a, b, d); }
                "ok"
            }),
            4 => c.on("clone", &mut ts, &e3, vec![], vec![], vec![], |t, _| { t[2] = t[0].clone(); "ok" }),
            5 => c.on("addself3", &mut ts, &e3, vec![], vec![], vec![], |t, _| {
                if let [a, b, _] = &mut t[..] { Tensor::add_to_self(a, b); }
                "ok"
            }),
            6 => c.on("relu3", &mut ts, &e3, vec![1i64 << -e], vec![], vec![], |t, _| {
                if let [a, m, _] = &mut t[..] { return rr(Tensor::relu_self_and_store_mask(a, m)); }
                "ok"
            }),
            7 => {
                let f: Vec<f32> = r.data(size(s), 50).iter().map(|v| x.real(*v)).collect();
                let mut u = x.to(&IT { s, d: vec![0; size(s)] });
                let _ = u.fill_with_vec(f);
                ts[1] = u;
            }
            8 => c.on("eq", &mut ts, &e3, vec![], vec![], vec![], |t, o| {
                o.push((t[0] == t[2]) as i64);
                o.push((t[0] != t[2]) as i64);
                o.push((t[0] == t[0].clone()) as i64);
                "ok"
            }),
            _ => {
                let p = r.u(0, size(s) as u32 - 1) as usize;
                let v = r.int(-50, 50);
                c.on("setp", &mut ts, &e3, vec![p as i64, v], vec![], vec![], |t, _| { t[0].set_item(&pos(s, p), x.real(v)); "ok" })
            }
        }
        // keep the numbers exact
        let top = x.of(&ts[0]).d.iter().chain(x.of(&ts[2]).d.iter()).map(|v| v.abs()).max().unwrap_or(0);
        if top > 100_000 || x.of(&ts[1]).d.iter().any(|v| *v == BAD) {
            for t in ts.iter_mut() { *t = x.to(&small(r)); }
        }
        take_bad();
    }
}

// ------------------------------------------------------------------ C03
/// dimensions of a product; one of them now and then far larger than the others
fn matdims(r: &mut Rng) -> (u32, u32, u32, u32) {
    if !r.chance(25) { return (r.dim(6), r.dim(6), r.dim(6), r.dim(3)); }
    let mut d = [r.u(1, 3), r.u(1, 3), r.u(1, 3), r.u(1, 2)];
    let q = r.u(0, 3) as usize;
    d[q] = r.wide(if q == 3 { 20 } else { 70 });
    if r.chance(12) { d = [r.u(1, 2), r.u(1, 2), r.u(1, 2), 1]; d[q] = if q == 3 { 70 } else { *r.pick(&[101, 129, 200, 257, 513, 600, 785]) }; }
    (d[0], d[1], d[2], d[3])
}
pub fn mat(c: &mut Ctx, r: &mut Rng) {
    if r.chance(60) { mat_any(c, r); }
    if r.chance(50) { mat_special(c, r); }
    for _ in 0..6 {
        let (m, n, p, k) = matdims(r);
        let big = if m.max(n).max(p) > 100 { 100 } else { 300 };
        let (ea, eb) = (exp(r), exp(r));
        let (xa, xb, xr) = (Enc::Exp(ea), Enc::Exp(eb), Enc::Exp(ea + eb));
        let mut sh = [[m, n, k], [n, p, k], [m, p, k]];
        let which = r.u(0, 4);
        if which == 1 { sh[0] = [n, m, k]; }
        if which == 2 { sh[1] = [p, n, k]; }
        if which == 3 { sh[1] = [m, p, k]; }
        if r.chance(25) {
            let w = r.u(0, 2) as usize;
            sh[w] = other_shape(r, sh[w]);
        }
        let (a, b, d) = (r.tensor(sh[0], big), r.tensor(sh[1], big), r.tensor(sh[2], big));
        match which {
            0 => c.op("matmul", &[(a, xa), (b, xb), (d, xr)], vec![], vec![], vec![], |t, _| {
                if let [a, b, d] = &mut t[..] { Tensor::matrix_multiply(a, b, d); }
                "ok"
            }),
            1 => c.op("mmt1", &[(a, xa), (b, xb), (d, xr)], vec![], vec![], vec![], |t, _| {
                if let [a, b, d] = &mut t[..] { return rr(Tensor::matrix_multiply_transpose_first(a, b, d)); }
                "ok"
            }),
            2 => c.op("mmt2", &[(a, xa), (b, xb), (d, xr)], vec![], vec![], vec![], |t, _| {
                if let [a, b, d] = &mut t[..] { return rr(Tensor::matrix_multiply_transpose_second(a, b, d)); }
                "ok"
            }),
            3 => {
                // weights (n x m), input (m x p), bias and result (n x p)
                let mut s = [[m, p, k], [n, m, k], [n, p, k], [n, p, k]];
                if r.chance(25) {
                    let w = r.u(0, 3) as usize;
                    s[w] = other_shape(r, s[w]);
                }
                let (x, w, mut b, d) = (r.tensor(s[0], big), r.tensor(s[1], big), r.tensor(s[2], 3000), r.tensor(s[3], 300));
                mat_cancel(r, &x, &w, &mut b);
                c.op("mmar", &[(x, xa), (w, xb), (b, xr), (d, xr)], vec![], vec![], vec![], |t, _| {
                    if let [x, w, b, d] = &mut t[..] { Tensor::matrix_multiply_add_relu(x, w, b, d); }
                    "ok"
                });
            }
            _ => {
                let s = if r.chance(20) { let (a, b) = (r.wide(70), r.u(1, 3)); *r.pick(&[[a, b, 1], [b, a, 1], [1, b, a], [b, 2, a.min(20)]]) } else { r.shape(6, 6, 4) };
                let sr = if r.chance(25) { other_shape(r, [s[1], s[0], s[2]]) } else { [s[1], s[0], s[2]] };
                let f = |r: &mut Rng, s| IT { s, d: (0..size(s)).map(|_| r.float().to_bits() as i32 as i64).collect() };
                let (a, d) = (f(r, s), f(r, sr));
                c.op("transp", &[(a, Enc::Bits), (d, Enc::Bits)], vec![], vec![], vec![], |t, _| {
                    if let [a, d] = &mut t[..] { return rr(Tensor::transpose_ij(a, d)); }
                    "ok"
                });
            }
        }
    }
}

// ------------------------------------------------------------------ C04 (operators; layers: nets.rs)
pub fn fused(c: &mut Ctx, r: &mut Rng) {
    for _ in 0..5 {
        let (ea, eb) = (exp(r), exp(r));
        let (xa, xb, xr) = (Enc::Exp(ea), Enc::Exp(eb), Enc::Exp(ea + eb));
        if r.chance(50) {
            let (m, n, p, k) = matdims(r);
            let big = if m.max(n).max(p) > 100 { 100 } else { 300 };
            let s = [n, p, k];
            let (x, w, mut b) = (r.tensor([m, p, k], big), r.tensor([n, m, k], big), r.tensor(s, 3000));
            mat_cancel(r, &x, &w, &mut b);
            let (d1, d2) = (r.tensor(s, 300), r.tensor(s, 300));
            c.op("fmm", &[(x, xa), (w, xb), (b, xr), (d1, xr), (d2, xr)], vec![], vec![], vec![], |t, _| {
                if let [x, w, b, d1, d2] = &mut t[..] {
                    Tensor::matrix_multiply_add_relu(x, w, b, d1);
                    Tensor::matrix_multiply(w, x, d2);
                    Tensor::add_to_self(d2, b);
                    let mut mask = Tensor::new(d2.get_shape());
                    return rr(Tensor::relu_self_and_store_mask(d2, &mut mask));
                }
                "ok"
            });
        } else {
            let g = geom(r, true);
            let (st, ch) = (g.st, r.u(0, g.res[2] - 1));
            let big = exact(size(g.ker));
            let (x, w, mut b) = (r.tensor(g.img, big), r.tensor(g.ker, big), r.tensor([1, 1, 1], 3000));
            conv_cancel(r, &x, &w, &mut b, st);
            let (d1, d2) = (r.tensor(g.res, 300), r.tensor(g.res, 300));
            c.op("fconv", &[(x, xa), (w, xb), (b, xr), (d1, xr), (d2, xr)], vec![st as i64, ch as i64], vec![], vec![], |t, _| {
                if let [x, w, b, d1, d2] = &mut t[..] {
                    let q = cv::convolution_bias_relu(x, w, b, st, d1, ch);
                    let p = cv::convolution_bias(x, w, b, st, d2, ch);
                    if q.is_err() || p.is_err() { return "err"; }
                    // compare the written channel: ReLU the second result as a separate step
                    let mut mask = Tensor::new(d2.get_shape());
                    return rr(Tensor::relu_self_and_store_mask(d2, &mut mask));
                }
                "ok"
            });
        }
    }
}

// ------------------------------------------------------------------ C05..C08
pub struct Geom {
    pub img: [u32; 3],
    pub ker: [u32; 3],
    pub st: u32,
    pub res: [u32; 3],
}
/// a geometry that fits; small = keep the images small
pub fn geom(r: &mut Rng, small: bool) -> Geom {
    let mut st = *r.pick(&[1u32, 1, 1, 2, 2, 3, 4]);
    let kmax = if small { 3 } else { 4 };
    let (mut k0, mut k1) = (r.u(1, kmax), r.u(1, kmax));
    let nmax = if small { 3 } else { 5 };
    let (mut n0, mut n1) = (r.u(1, nmax), r.u(1, nmax));
    let mut dk = r.dim(if small { 2 } else { 3 });
    if r.chance(15) {
        // one measure far beyond the usual ones
        match r.u(0, 6) {
            0 => { k0 = r.wide(17); k1 = k1.min(2); }
            1 => { k1 = r.wide(17); k0 = k0.min(2); }
            2 => { n0 = r.wide(20); n1 = n1.min(2); }
            3 => { n1 = r.wide(20); n0 = n0.min(2); }
            4 => { dk = r.wide(20); n0 = n0.min(3); k1 = k1.min(2); }
            5 => { st = r.u(5, 12); n0 = n0.min(3); n1 = n1.min(2); }
            _ => { return Geom { img: [k0 + (n0.min(2) - 1) * st, k1 + (n1.min(2) - 1) * st, dk.min(2)], ker: [k0, k1, dk.min(2)], st, res: [n0.min(2), n1.min(2), r.wide(20)] }; }
        }
    }
    if r.chance(2) {
        // coordinates that do not fit a byte
        let m = r.u(250, 300);
        let d = r.u(1, 2);
        return match r.u(0, 7) {
            0 => Geom { img: [m + k0 - 1, k1, d], ker: [k0, k1, d], st: 1, res: [m, 1, d] },
            1 => Geom { img: [k0, m + k1 - 1, d], ker: [k0, k1, d], st: 1, res: [1, m, d] },
            2 => Geom { img: [m + n0 - 1, 1, d], ker: [m, 1, d], st: 1, res: [n0, 1, d] },
            3 => Geom { img: [1, m + 2 * (n1 - 1), d], ker: [1, m, d], st: 2, res: [1, n1, d] },
            4 if n0 < 2 => Geom { img: [k0 + 2 * m, k1, 1], ker: [k0, k1, 1], st: m, res: [3, 1, d] },
            4 => Geom { img: [k0, k1 + m, 1], ker: [k0, k1, 1], st: m, res: [1, 2, d] },
            6 => Geom { img: [n0, n1, 1], ker: [1, 1, 1], st: 1, res: [n0, n1, m] },
            _ => Geom { img: [k0, k1, m], ker: [k0, k1, m], st, res: [1, 1, d] },
        };
    }
    if r.chance(4) {
        // sizes of real data
        let (k, m, s2, d) = *r.pick(&[(3u32, 26u32, 1u32, 1u32), (5, 24, 1, 1), (2, 14, 2, 2), (1, 33, 1, 1), (3, 9, 3, 3), (4, 13, 2, 1)]);
        let thin = r.u(0, 3);
        let (m0, m1) = match thin { 0 => (m + 7, 1), 1 => (1, m + 7), _ => (m, m) };
        return Geom { img: [k + (m0 - 1) * s2, k + (m1 - 1) * s2, d], ker: [k, k, d], st: s2, res: [m0, m1, r.u(1, 2)] };
    }
    Geom { img: [k0 + (n0 - 1) * st, k1 + (n1 - 1) * st, dk], ker: [k0, k1, dk], st, res: [n0, n1, r.dim(3)] }
}
/// disturb a geometry (it may still fit afterwards)
pub fn disturb(r: &mut Rng, g: &mut Geom) {
    match r.u(0, 11) {
        0 => g.st = 0,
        1 => g.st += 1,
        2 => g.ker[0] = g.img[0] + r.u(1, 2),
        3 => g.ker[1] = g.img[1] + r.u(1, 2),
        4 => g.ker[2] += 1,
        5 => g.img[2] += 1,
        6 => g.res[0] += 1,
        7 => g.res[1] += 1,
        8 => { if g.res[0] > 1 { g.res[0] -= 1 } else { g.res[1] += 2 } }
        9 => { g.img = [g.img[1], g.img[0], g.img[2]]; }
        10 => { g.st = *r.pick(&[7, 100, u32::MAX / 2]); }
        _ => { let m = r.u(0, 1) as usize; g.img[m] += 1; }
    }
}
/// opposite values at some positions
fn cancel(r: &mut Rng, a: &IT, b: &mut IT) {
    let q = *r.pick(&[30, 70, 100]);
    for n in 0..b.d.len() { if r.chance(q) { b.d[n] = -a.d[n]; } }
}
/// how large factors may be so that a sum of so many products is exact
fn exact(terms: usize) -> i64 {
    ((16_000_000.0 / terms as f64).sqrt() as i64).clamp(1, 100)
}
fn st_i(st: u32) -> i64 { st.min(2_000_000_000) as i64 }

/// sometimes: a bias that cancels what was computed at some position, or nearly
fn conv_cancel(r: &mut Rng, x: &IT, w: &IT, b: &mut IT, st: u32) {
    let ok = x.s[2] == w.s[2] && x.s[0] >= w.s[0] && x.s[1] >= w.s[1] && st > 0;
    if !ok || b.d.len() != 1 || !r.chance(20) { return; }
    let (i0, j0) = ((x.s[0] - w.s[0]) / st, (x.s[1] - w.s[1]) / st);
    let (i, j) = (r.u(0, i0) * st, r.u(0, j0) * st);
    let mut v = 0i64;
    for k in 0..w.s[2] {
        for q in 0..w.s[1] {
            for p in 0..w.s[0] {
                let at = |s: [u32; 3], i: u32, j: u32, k: u32| ((k * s[1] + j) * s[0] + i) as usize;
                v += x.d[at(x.s, i + p, j + q, k)] * w.d[at(w.s, p, q, k)];
            }
        }
    }
    b.d[0] = -v + *r.pick(&[0, 0, 0, 1, -1]);
}
/// the same for a product of matrices w x and a bias
fn mat_cancel(r: &mut Rng, x: &IT, w: &IT, b: &mut IT) {
    let ok = w.s[1] == x.s[0] && w.s[2] == x.s[2] && b.s == [w.s[0], x.s[1], x.s[2]];
    if !ok || !r.chance(20) { return; }
    let all = r.chance(30);
    for q in 0..b.d.len() {
        if !all && !r.chance(40) { continue; }
        let q0 = q as u32;
        let (i, j, k) = (q0 % b.s[0], q0 / b.s[0] % b.s[1], q0 / b.s[0] / b.s[1]);
        let v: i64 = (0..x.s[0]).map(|m| w.d[((k * w.s[1] + m) * w.s[0] + i) as usize] * x.d[((k * x.s[1] + j) * x.s[0] + m) as usize]).sum();
        b.d[q] = -v + *r.pick(&[0, 0, 0, 1, -1]);
    }
}

pub fn conv(c: &mut Ctx, r: &mut Rng) {
    if r.chance(50) { conv_any(c, r); }
    if r.chance(40) { conv_special(c, r, 0); }
    for _ in 0..5 {
        let mut g = geom(r, false);
        let mut ch = r.u(0, g.res[2] - 1);
        let mut bs = [1, 1, 1];
        if r.chance(35) {
            match r.u(0, 5) {
                0 => ch = g.res[2] + *r.pick(&[0, 1, 1000]),
                1 => bs = *r.pick(&[[2, 1, 1], [1, 2, 1], [1, 1, 2], [2, 2, 2]]),
                _ => disturb(r, &mut g),
            }
        }
        let (ea, eb) = (exp(r), exp(r));
        let big = exact(size(g.ker));
        let (x, w, mut b, d) = (r.tensor(g.img, big), r.tensor(g.ker, big), r.tensor(bs, 3000), r.tensor(g.res, 300));
        conv_cancel(r, &x, &w, &mut b, g.st);
        let (xa, xb, xr) = (Enc::Exp(ea), Enc::Exp(eb), Enc::Exp(ea + eb));
        let relu = r.chance(50);
        let st = g.st;
        c.op(if relu { "convrelu" } else { "conv" }, &[(x, xa), (w, xb), (b, xr), (d, xr)], vec![st_i(st), ch as i64], vec![], vec![], |t, _| {
            if let [x, w, b, d] = &mut t[..] {
                return rr(if relu { cv::convolution_bias_relu(x, w, b, st, d, ch) } else { cv::convolution_bias(x, w, b, st, d, ch) });
            }
            "ok"
        });
    }
    let mut g = geom(r, false);
    if r.chance(60) { disturb(r, &mut g); }
    let ch = if r.chance(20) { g.res[2] } else { r.u(0, g.res[2] - 1) };
    let (img, ker, res, st) = (g.img, g.ker, g.res, g.st);
    c.op("checkconv", &[], vec![st_i(st), ch as i64], vec![], vec![img, ker, res], move |_, _| {
        rr(cv::check_convolution_dimensions(&shape(img), &shape(ker), st, &shape(res), ch))
    });
    geomcheck(c, r);
}
pub fn geomcheck(c: &mut Ctx, r: &mut Rng) {
    let mut g = geom(r, false);
    if r.chance(60) { disturb(r, &mut g); }
    let (img, ker, res, st) = (g.img, g.ker, g.res, g.st);
    c.op("fits", &[], vec![st_i(st)], vec![], vec![img, ker, res], move |_, o| {
        let fits = Tensor::does_kernel_stride_fit_image(&shape(img), &shape(ker), st);
        o.push(fits as i64);
        if fits {
            let (a, b) = Tensor::get_convolution_dim_fit(&shape(img), &shape(ker), st);
            o.push(a as i64);
            o.push(b as i64);
        }
        "ok"
    });
    c.op("checkpool", &[], vec![st_i(st)], vec![], vec![img, ker, res], move |_, o| {
        o.push(Tensor::check_max_pooling_dimensions(&shape(img), &shape(ker), st, &shape(res)) as i64);
        "ok"
    });
}
pub fn convin(c: &mut Ctx, r: &mut Rng) {
    if r.chance(50) { convin_any(c, r); }
    if r.chance(50) { conv_special(c, r, 1); }
    for _ in 0..4 {
        let mut g = geom(r, r.0 % 3 != 0);
        let mut nk = g.res[2];
        let mut odd = false;
        if r.chance(30) {
            match r.u(0, 4) {
                0 => nk += 1,
                1 => { nk = nk.saturating_sub(1); }
                2 => odd = true,
                _ => disturb(r, &mut g),
            }
        }
        let (ea, eb) = (exp(r), exp(r));
        let (xg, xw, xr) = (Enc::Exp(ea), Enc::Exp(eb), Enc::Exp(ea + eb));
        let big = exact((g.ker[0] * g.ker[1]).min(g.res[0] * g.res[1]) as usize * nk.max(1) as usize);
        let gi = r.tensor(g.res, big);
        let go = r.tensor(g.img, 300);
        let mut ops = vec![(gi, xg), (go, xr)];
        for n in 0..nk {
            let mut ks = g.ker;
            if odd && n == nk - 1 { ks[r.u(0, 2) as usize] += 1; }
            ops.push((r.tensor(ks, big), xw));
        }
        let st = g.st;
        c.op("convin", &ops, vec![st_i(st)], vec![], vec![], |t, _| {
            let (head, kers) = t.split_at_mut(2);
            let kers: Vec<Tensor> = kers.to_vec();
            if let [gi, go] = head { return rr(cv::convolution_backprop_outgoing_gradient(gi, &kers, st, go)); }
            "ok"
        });
    }
}
pub fn convker(c: &mut Ctx, r: &mut Rng) {
    if r.chance(50) { convker_any(c, r); }
    if r.chance(50) { conv_special(c, r, 2); }
    for _ in 0..4 {
        let mut g = geom(r, r.0 % 3 != 0);
        let mut ch = r.u(0, g.res[2] - 1);
        if r.chance(30) {
            if r.chance(20) { ch = g.res[2] + *r.pick(&[0, 3]); } else { disturb(r, &mut g); }
        }
        let (ea, eb) = (exp(r), exp(r));
        let big = exact((g.res[0] * g.res[1]) as usize);
        let (gi, im, d) = (r.tensor(g.res, big), r.tensor(g.img, big), r.tensor(g.ker, 300));
        let st = g.st;
        c.op("convker", &[(gi, Enc::Exp(ea)), (im, Enc::Exp(eb)), (d, Enc::Exp(ea + eb))], vec![st_i(st), ch as i64], vec![], vec![], |t, _| {
            if let [gi, im, d] = &mut t[..] { return rr(cv::convolution_backprop_kernel(gi, im, st, ch, d)); }
            "ok"
        });
    }
}
fn pool_data(r: &mut Rng, s: [u32; 3]) -> (IT, Enc) {
    if r.chance(50) {
        let e = linexp(r);
        { let b = *r.pick(&[3, 1000, 1_000_000]); (r.tensor(s, b), Enc::Exp(if e > 90 { 80 } else { e })) }
    } else {
        let neg = r.chance(40);
        let inf = r.chance(25);
        let allinf = r.chance(5);
        let d = (0..size(s)).map(|_| {
            let x = r.float();
            let x = if neg { -x.abs() } else { x };
            let x = if allinf || (inf && r.chance(30)) { f32::NEG_INFINITY } else if inf && r.chance(10) { f32::INFINITY } else { x };
            ord_key(x)
        }).collect();
        (IT { s, d }, Enc::Ord)
    }
}
pub fn pool(c: &mut Ctx, r: &mut Rng) {
    let large = r.int(0, 399) == 0;
    for q in 0..5 {
        let mut g = geom(r, false);
        if large && q == 0 {
            // more items than two bytes count
            let (n0, n1, d) = *r.pick(&[(260u32, 256u32, 1u32), (2, 33_000, 1), (33_000, 2, 1), (300, 3, 80), (4, 4, 4200), (70_000, 1, 1)]);
            let k = [if n0 % 2 == 0 { 2 } else { 1 }, if n1 % 2 == 0 && n1 > 2 { 2 } else { 1 }, 1];
            let st = if k[0].min(k[1]) == 2 { 2 } else { 1 };
            g = Geom { img: [n0, n1, d], ker: k, st, res: [(n0 - k[0]) / st + 1, (n1 - k[1]) / st + 1, d] };
        }
        g.res[2] = g.img[2];
        g.ker[2] = r.u(1, 2);
        let mut n = size(g.res) as i64;
        if r.chance(35) {
            match r.u(0, 5) {
                0 => n += *r.pick(&[-1, 1, 5]),
                1 => g.res[2] += 1,
                _ => { disturb(r, &mut g); n = size(g.res) as i64; }
            }
        }
        let n = n.max(0);
        let (im, e) = pool_data(r, g.img);
        let d = r.tensor(g.res, 3);
        let (st, win) = (g.st, g.ker);
        if r.chance(40) {
            c.op("pool", &[(im, e), (d, e)], vec![st_i(st)], vec![], vec![win], |t, _| {
                if let [a, d] = &mut t[..] { Tensor::max_pool(a, &shape(win), st, d); }
                "ok"
            });
        } else {
            let org: Vec<i64> = (0..n).map(|_| r.int(0, 40)).collect();
            let mut l: Vec<u32> = org.iter().map(|x| *x as u32).collect();
            c.op("poolt", &[(im, e), (d, e)], vec![st_i(st)], org, vec![win], |t, o| {
                let q = if let [a, d] = &mut t[..] { rr(Tensor::max_pool_track_origin(a, &shape(win), st, d, &mut l)) } else { "ok" };
                o.extend(l.iter().map(|x| (*x).min(2_000_000_000) as i64));
                q
            });
        }
    }
    geomcheck(c, r);
}

// ------------------------------------------------------------------ C10
pub fn softmax(c: &mut Ctx, r: &mut Rng) {
    let large = r.chance(3);
    for m in 0..5 {
        let s = if large && m == 0 { *r.pick(&[[600u32, 1, 1], [10, 10, 10], [1, 1023, 1], [33, 31, 1], [1, 1, 520], [257, 1, 2], [16, 16, 1]]) }
            else if r.chance(25) { *r.pick(&[[1u32, 1, 1], [40, 1, 1], [1, 9, 3], [2, 1, 5], [130, 1, 1], [1, 1, 65], [3, 100, 1], [64, 1, 1]]) } else { r.shape(5, 4, 3) };
        let n = size(s);
        let base = match r.u(0, 6) { 0 => 0, 1 => 400, 2 => -400, 3 => 4_000, 4 => -40_000, 5 => 4_000_000, _ => r.int(-2000, 2000) };
        let spread = *r.pick(&[0i64, 1, 4, 20, 60, 60, 200, 1000]);
        let mut x: Vec<i64> = (0..n).map(|_| base + r.int(-spread, spread)).collect();
        if r.chance(if large && m == 0 { 60 } else { 15 }) {
            // one item far above (below) the rest, more often towards the end
            let p = if r.chance(60) { x.len() - 1 - r.u(0, x.len() as u32 / 8) as usize } else { r.u(0, x.len() as u32 - 1) as usize };
            x[p] += *r.pick(&[400i64, 600, 4000, -4000]);
        }
        if r.chance(15) {
            // the largest and smallest floats
            for v in x.iter_mut() {
                if r.chance(40) { *v = *r.pick(&[1i64 << 29, -(1i64 << 29)]); }
            }
        }
        let real: Vec<f32> = x.iter().map(|v| if *v == 1 << 29 { f32::MAX } else if *v == -(1 << 29) { f32::MIN } else { (*v as f64 / 4.0) as f32 }).collect();
        let sr = if r.chance(15) { other_shape(r, s) } else { s };
        let via = if sr == s { r.u(0, 2) } else { 0 };
        let d = r.tensor(sr, 900_000);
        // the input is described by par, the output by one operand in units of 2^-20 and, as
        // mantissa and exponent, by out
        c.op("softmax", &[(d, Enc::Round(20))], x, vec![via as i64], vec![s], |t, o| {
            let mut a = Tensor::new(shape(s));
            a.fill_with_vec(real).unwrap();
            let ret = if via == 0 {
                Tensor::softmax(&a, &mut t[0]);
                "ok"
            } else {
                use rusty_network::layer::{softmax::SoftmaxLayer, Layer};
                let mut l = SoftmaxLayer::new(shape(s), &"s".to_string()).unwrap();
                if via == 2 { l.switch_to_training(); }
                rr(l.forward(&a, &mut t[0]))
            };
            for p in 0..size(sr) {
                let y = t[0].get_item(&pos(sr, p)) as f64;
                // y = m * 2^-e with 2^14 <= m < 2^15
                let (mut m, mut e) = (0i64, 0i64);
                if y > 0.0 && y.is_finite() {
                    e = 14 - y.log2().floor() as i64;
                    m = (y * (2f64).powi(e as i32)).round() as i64;
                    if m < 16384 { m *= 2; e += 1; }
                    if m >= 32768 { m /= 2; e -= 1; }
                }
                o.push(m);
                o.push(e);
            }
            ret
        });
    }
}

// ------------------------------------------------------------------ C23
pub fn tfile(c: &mut Ctx, r: &mut Rng) {
    let enc = Enc::Bits;
    let mut shapes: Vec<[u32; 3]> = (0..3).map(|_| if r.chance(15) { [1, 1, 1] } else { r.shape(5, 5, 4) }).collect();
    // files of more than a few blocks
    let heavy = r.chance(2);
    if heavy { shapes[2] = if r.chance(20) { [r.u(100, 140), r.u(130, 150), 1] } else { *r.pick(&[[50, 45, 1], [2100, 1, 1], [13, 13, 13], [1, 1, 2300], [300, 2, 4], [3, 1100, 1]]) } }
    let mut ts: Vec<Tensor> = shapes.iter().map(|s| {
        let d = (0..size(*s)).map(|_| enc.int(if r.chance(5) { *r.pick(&[f32::INFINITY, f32::NEG_INFINITY]) } else { r.float() })).collect();
        enc.to(&IT { s: *s, d })
    }).collect();
    if r.chance(50) {
        // tensors that are nearly the same
        let mut x = enc.of(&ts[0]);
        for v in x.d.iter_mut() { if r.chance(30) { *v = enc.int(if r.chance(50) { 0.0 } else { -0.0 }); } }
        ts[0] = enc.to(&x);
        for _ in 0..r.u(1, 2) {
            let q = r.u(0, x.d.len() as u32 - 1) as usize;
            let at = if r.chance(50) { x.d.iter().position(|v| f32::from_bits(*v as i32 as u32) == 0.0).unwrap_or(q) } else { q };
            x.d[at] = ((x.d[at] as i32) ^ *r.pick(&[i32::MIN, 1, i32::MIN, 2])) as i64;
            if !f32::from_bits(x.d[at] as i32 as u32).is_finite() { x.d[at] = 0; }
        }
        ts[1] = enc.to(&x);
        if r.chance(30) { x.s = [x.s[1], x.s[0], x.s[2]]; ts[2] = enc.to(&x); }
    }
    let often = if r.chance(50) { 0 } else { r.u(0, 1) as usize + 1 };
    let long = "long".repeat(52);
    let (la, lb) = (format!("{}a", long), format!("{}b", long));
    let names = match r.u(0, 15) {
        // where other programs would keep a copy while they write
        7 => *r.pick(&[["same.bin", "same.bin.tmp"], ["same.bin", "same.tmp"], ["same", "same~"], ["same.bin", "same.bin.bak"], ["same.bin", "same.bak"]]),
        8 => *r.pick(&[["same", ".same.tmp"], ["same", "same.new"], ["same", "same.part"], ["same", "tmp"], ["same.bin", "same.bin.part"]]),
        0 => ["same.bin", "same.dat"], 1 => ["same", "same.bin"], 2 => ["end ", "end"], 3 => ["same.1.bin", "same.2.bin"],
        4 => [la.as_str(), lb.as_str()], 5 => ["Case.bin", "case.bin"], 6 => [" start", "start"],
        _ => ["a.bin", "b \u{e9}\u{4e16}.bin"],
    };
    let paths: Vec<String> = names.iter().map(|n| c.file(n)).collect();
    for p in paths.iter() { let _ = std::fs::remove_file(p); }
    let mut live = [false, false];
    for step in 0..if heavy { 5 } else { 9 } {
        let f = if often > 0 && r.chance(70) { often - 1 } else { r.u(0, 1) as usize };
        let p = paths[f].clone();
        let m = if heavy && r.chance(60) { 2 } else { r.u(0, 2) as usize };
        let mut one = vec![ts[m].clone()];
        match if step == 0 { 0 } else { r.u(0, 9) } {
            9 => {
                let q = if r.chance(50) { c.file("no_such_directory/t.bin") } else { c.dir.clone() };
                c.on("tsavefail", &mut one, &[enc], vec![f as i64], vec![], vec![], |t, _| rr(t[0].save_to_file(&q)));
            }
            0 | 1 | 2 => {
                c.on("tsave", &mut one, &[enc], vec![f as i64], vec![], vec![], |t, _| rr(t[0].save_to_file(&p)));
                live[f] = true;
            }
            3 | 4 | 5 => {
                let mut got = vec![];
                c.on("tload", &mut got, &[enc], vec![f as i64], vec![], vec![], |t, o| match Tensor::from_file(&p) {
                    Ok(x) => {
                        // the loaded tensor must behave like any tensor of its shape
                        let s = dims(&x.get_shape());
                        o.push(x.total_items() as i64);
                        let mut y = x.clone();
                        let fv = y.fill_with_vec(vec![1.0; size(s)]).is_ok();
                        o.push(fv as i64);
                        o.push((0..size(s)).all(|q| x.get_data_index(&pos(s, q)) as usize == q) as i64);
                        let mut tr = Tensor::new(shape([s[1], s[0], s[2]]));
                        o.push(Tensor::transpose_ij(&x, &mut tr).is_ok() as i64);
                        let mut z = Tensor::new(shape(s));
                        Tensor::add(&x, &Tensor::new(shape(s)), &mut z);
                        let same = (0..size(s)).all(|q| z.get_item(&pos(s, q)) == x.get_item(&pos(s, q)));
                        o.push((same && z == x) as i64);
                        t.push(x);
                        "ok"
                    }
                    Err(_) => "err",
                });
                if let Some(x) = got.pop() {
                    // go on with the tensor that came from the file
                    if r.chance(50) && c.ev.last().map_or(false, |e| matches!(e, J::O(_))) { ts[m] = x; }
                }
            }
            6 => {
                if let Ok(b) = std::fs::read(&p) {
                    if b.is_empty() { continue; }
                    // a crash while saving: a prefix of the file
                    let k = match r.u(0, 3) { 0 => 0, 1 => b.len() - 1, _ => r.u(0, b.len() as u32 - 1) as usize };
                    std::fs::write(&p, &b[..k]).unwrap();
                    live[f] = false;
                    c.op("ttear", &[], vec![f as i64, k as i64], vec![], vec![], |_, _| "ok");
                }
            }
            7 => {
                let _ = std::fs::remove_file(&p);
                live[f] = false;
                c.op("tremove", &[], vec![f as i64], vec![], vec![], |_, _| "ok");
            }
            _ => {
                // content that need not describe a consistent tensor
                if let Ok(mut b) = std::fs::read(&p) {
                    if b.is_empty() { continue; }
                    match r.u(0, 3) {
                        0 => { let q = r.u(0, b.len() as u32 - 1) as usize; b[q] ^= 1 << r.u(0, 7); }
                        1 => { let q = r.u(0, (b.len() as u32 - 1).min(40)) as usize; b[q] = *r.pick(&[0u8, 1, 2, 3, 255]); }
                        2 => { let q = r.u(0, (b.len() as u32 - 1).min(31)) as usize; b[q] = b[q].wrapping_add(1); }
                        _ => {
                            // exchange two of the leading 32-bit fields
                            if b.len() >= 32 {
                                let (x, y) = (r.u(0, 5) as usize * 4, r.u(0, 5) as usize * 4);
                                for q in 0..4 { b.swap(x + q, y + q); }
                            }
                        }
                    }
                    std::fs::write(&p, &b).unwrap();
                    live[f] = false;
                    let p2 = p.clone();
                    c.op("tmut", &[], vec![f as i64], vec![], vec![], |_, o| match Tensor::from_file(&p2) {
                        Ok(x) => {
                            let s = dims(&x.get_shape());
                            let n = x.total_items() as usize;
                            let okn = n == size(s);
                            o.push(okn as i64);
                            let fl = x.clone().fill_with_vec(vec![1.0; n.min(1 << 24)]).is_ok();
                            let mut ok = okn && fl && n < 1 << 24;
                            if ok {
                                let mut z = Tensor::new(TensorShape { di: s[0], dj: s[1], dk: s[2] });
                                Tensor::add_to_self(&mut z, &x);
                                for q in 0..n {
                                    let (u, v) = (x.get_item(&pos(s, q)), z.get_item(&pos(s, q)));
                                    ok &= x.get_data_index(&pos(s, q)) as usize == q && (u == v || (u.is_nan() && v.is_nan()));
                                }
                                let nan = (0..n).any(|q| x.get_item(&pos(s, q)).is_nan());
                                ok &= nan || z == x;
                            }
                            o.push(ok as i64);
                            "ok"
                        }
                        Err(_) => "err",
                    });
                    let _ = std::fs::remove_file(&p);
                }
            }
        }
    }
    let _ = live;
    for p in paths.iter() { let _ = std::fs::remove_file(p); }
}
