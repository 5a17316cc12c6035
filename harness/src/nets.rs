//! Layer objects, layer records, networks and network files: the calls of the API on them,
//! each recorded with everything observable afterwards (traces checked by TraceNet.tla).
use crate::ctx::*;
use crate::gen::*;
use crate::json::J;
use crate::tens::*;
use rusty_network::layer::convolutional::{ConvolutionalLayer, ConvolutionalSerialKeys as CK};
use rusty_network::layer::fully_connected::{FullyConnectedLayer, FullyConnectedSerialKeys as FK};
use rusty_network::layer::max_pool::{MaxPoolLayer, MaxPoolSerialKeys as PK};
use rusty_network::layer::softmax::{SoftMaxSerialKeys as SK, SoftmaxLayer};
use rusty_network::layer::{Layer, SerializedLayer};
use rusty_network::network::{Network, NetworkRunState};
use rusty_network::tensor::helper::{TensorIndex, TensorShape};
use rusty_network::tensor::Tensor;
use std::collections::{BTreeMap, HashMap};

/// a layer that the user of the library wrote: flattens, turns around and scales; refuses an input
/// or a gradient that begins with a certain value.  Its name says it all: user:scale:trap:trap
pub struct User { shape: [u32; 3], name: String, st: f32, trap: f32, gtrap: f32, mode: NetworkRunState }
impl User {
    fn turn(&self, x: &Tensor, y: &mut Tensor) {
        let v = Enc::Bits.of(x).d;
        let n = v.len();
        let w = (0..n).map(|m| f32::from_bits(v[n - 1 - m] as i32 as u32) * self.st).collect();
        y.fill_with_vec(w).unwrap();
    }
    fn first(x: &Tensor) -> f32 { x.get_item(&TensorIndex { i: 0, j: 0, k: 0 }) }
    /// scale and traps from a name
    fn of(name: &str) -> Option<(u32, u32, u32)> {
        let v: Vec<u32> = name.strip_prefix("user:")?.split(':').filter_map(|q| q.parse().ok()).collect();
        if v.len() == 3 { Some((v[0], v[1], v[2])) } else { None }
    }
}
impl Layer for User {
    fn forward(&mut self, x: &Tensor, y: &mut Tensor) -> Result<(), &'static str> {
        if x.get_shape() != self.get_input_shape() || y.get_shape() != self.get_output_shape() { return Err("shape"); }
        if User::first(x) == self.trap { return Err("not this input"); }
        self.turn(x, y);
        Ok(())
    }
    fn backward(&mut self, x: &Tensor, y: &Tensor, g: &Tensor, gx: &mut Tensor) -> Result<(), &'static str> {
        if x.get_shape() != self.get_input_shape() || y.get_shape() != self.get_output_shape() { return Err("shape"); }
        if g.get_shape() != self.get_output_shape() || gx.get_shape() != self.get_input_shape() { return Err("shape"); }
        if self.mode == NetworkRunState::Inference { return Err("not in training mode"); }
        if User::first(g) == self.gtrap { return Err("not this gradient"); }
        self.turn(g, gx);
        Ok(())
    }
    fn clear_gradients(&mut self) {}
    fn switch_to_training(&mut self) { self.mode = NetworkRunState::Training }
    fn switch_to_inference(&mut self) { self.mode = NetworkRunState::Inference }
    fn get_run_mode(&self) -> NetworkRunState { self.mode }
    fn get_input_shape(&self) -> TensorShape { shape(self.shape) }
    fn get_output_shape(&self) -> TensorShape { shape([size(self.shape) as u32, 1, 1]) }
    fn get_name(&self) -> String { self.name.clone() }
    fn get_serialized(&self) -> SerializedLayer {
        SerializedLayer::SerialSoftMaxLayer(HashMap::from([(SK::Shape, ser(&shape(self.shape))), (SK::Name, ser(&self.name))]))
    }
    fn load_from_serialized(&mut self, _: &SerializedLayer) -> Result<(), &'static str> { Err("cannot be loaded") }
}
pub enum Any {
    User(User),
    Fc(FullyConnectedLayer),
    Conv(ConvolutionalLayer),
    Pool(MaxPoolLayer),
    Soft(SoftmaxLayer),
}
impl Any {
    pub fn get(&self) -> &dyn Layer {
        match self { Any::User(l) => l, Any::Fc(l) => l, Any::Conv(l) => l, Any::Pool(l) => l, Any::Soft(l) => l }
    }
    pub fn get_mut(&mut self) -> &mut dyn Layer {
        match self { Any::User(l) => l, Any::Fc(l) => l, Any::Conv(l) => l, Any::Pool(l) => l, Any::Soft(l) => l }
    }
    pub fn empty(kind: &str) -> Any {
        match kind {
            "fc" => Any::Fc(FullyConnectedLayer::empty()),
            "conv" => Any::Conv(ConvolutionalLayer::empty()),
            "pool" => Any::Pool(MaxPoolLayer::empty()),
            "user" => Any::User(User { shape: [1, 1, 1], name: String::new(), st: 1.0, trap: 0.0, gtrap: 0.0, mode: NetworkRunState::Inference }),
            _ => Any::Soft(SoftmaxLayer::empty()),
        }
    }
    fn fill(&mut self, a: &Args, p: Vec<Tensor>) -> Result<(), &'static str> {
        match self {
            Any::User(l) => { l.shape = a.inn; l.name = a.name.clone(); l.st = a.st as f32; Ok(()) }
            Any::Fc(l) => l.fill_from_state(p[0].clone(), p[1].clone(), &a.name),
            Any::Conv(l) => l.fill_from_state(p[..a.nk].to_vec(), p[a.nk..].to_vec(), shape(a.inn), a.st, &a.name),
            Any::Pool(l) => l.fill_from_state(shape(a.inn), shape(a.win), a.st, &a.name),
            Any::Soft(l) => l.fill_from_state(shape(a.inn), &a.name),
        }
    }
    fn new(a: &Args) -> Result<Any, &'static str> {
        Ok(match a.kind {
            "fc" => Any::Fc(FullyConnectedLayer::new(a.p[0].s[1], a.p[0].s[0], &a.name)),
            "conv" => Any::Conv(ConvolutionalLayer::new(shape(a.p[0].s), shape(a.inn), a.st, a.nk as u32, &a.name)?),
            "pool" => Any::Pool(MaxPoolLayer::new(shape(a.win), shape(a.inn), a.st, &a.name)?),
            _ => Any::Soft(SoftmaxLayer::new(shape(a.inn), &a.name)?),
        })
    }
}
pub fn kind_of(r: &SerializedLayer) -> &'static str {
    match r {
        SerializedLayer::SerialFullyConnectedLayer(_) => "fc",
        SerializedLayer::SerialConvolutionalLayer(_) => "conv",
        SerializedLayer::SerialMaxPoolLayer(_) => "pool",
        SerializedLayer::SerialSoftMaxLayer(_) => "softmax",
    }
}
fn de<T: for<'a> serde_like::De<'a>>(b: Option<&Vec<u8>>) -> Option<T> {
    b.and_then(|b| guarded(|| bincode::deserialize::<T>(b).ok()).ok().flatten())
}
mod serde_like {
    pub trait De<'a>: serde::Deserialize<'a> {}
    impl<'a, T: serde::Deserialize<'a>> De<'a> for T {}
}
/// the fields of a record: (name, parameters, number of kernels, stride, window)
type Fields = (String, Vec<Tensor>, usize, u32, [u32; 3]);
pub fn fields(r: &SerializedLayer) -> Option<Fields> {
    let z = [0, 0, 0];
    Some(match r {
        SerializedLayer::SerialFullyConnectedLayer(h) =>
            (de::<String>(h.get(&FK::Name))?, vec![de::<Tensor>(h.get(&FK::Weights))?, de::<Tensor>(h.get(&FK::Bias))?], 1, 1, z),
        SerializedLayer::SerialConvolutionalLayer(h) => {
            let mut p = de::<Vec<Tensor>>(h.get(&CK::Kernels))?;
            let nk = p.len();
            p.extend(de::<Vec<Tensor>>(h.get(&CK::Biases))?);
            (de::<String>(h.get(&CK::Name))?, p, nk, de::<u32>(h.get(&CK::Stride))?, z)
        }
        SerializedLayer::SerialMaxPoolLayer(h) =>
            (de::<String>(h.get(&PK::Name))?, vec![], 0, de::<u32>(h.get(&PK::Stride))?, dims(&de::<TensorShape>(h.get(&PK::MaskShape))?)),
        SerializedLayer::SerialSoftMaxLayer(h) => (de::<String>(h.get(&SK::Name))?, vec![], 0, 1, z),
    })
}
fn ser<T: serde::Serialize>(t: &T) -> Vec<u8> { bincode::serialize(t).unwrap() }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Numbers {
    /// exact: units 2^E (values), 2^W (weights), 2^G (gradients)
    Exact(i32, i32, i32),
    /// fixed point with this many fractional bits
    Soft(i32),
    /// saturated softmax: values are multiples of 1/64, gradients in units of 2^G
    Sat(i32),
    /// arbitrary floats, compared as bits
    Opaque,
    /// arbitrary floats through parameters that only select, compared by their keys
    /// (parameter gradients, which multiply values, are not observed)
    Ord,
}
pub struct World<'a> {
    pub c: &'a mut Ctx,
    pub num: Numbers,
    pub lay: BTreeMap<i64, Any>,
    pub last: BTreeMap<i64, (Tensor, Tensor)>,
    /// input tensors of the networks' last inferences
    pub lastx: BTreeMap<i64, Tensor>,
    pub nets: BTreeMap<i64, Network>,
    pub recs: BTreeMap<i64, SerializedLayer>,
    pub files: BTreeMap<i64, String>,
    /// how files are named
    pub names: u64,
    /// inputs and gradients used before
    pub usedx: Vec<IT>,
    pub usedg: Vec<IT>,
    /// opaque traces: how far the parameters may be from ordinary numbers
    pub wild: u32,
}
fn hash(t: &IT) -> u64 { t.d.iter().fold(t.s[0] as u64 + 7, |h, v| (h.wrapping_mul(1_000_003) ^ (*v as u64)).rotate_left(9)) >> 5 }
/// the same content in the same object
fn refill(t: &mut Tensor, from: &Tensor) {
    let s = from.get_shape();
    for k in 0..s.dk { for j in 0..s.dj { for i in 0..s.di {
        let x = TensorIndex { i, j, k };
        t.set_item(&x, from.get_item(&x));
    } } }
}
fn same(a: &Tensor, b: &Tensor) -> bool { Enc::Bits.of(a) == Enc::Bits.of(b) }
const HOOKS: bool = cfg!(vp_hooks);

impl<'a> World<'a> {
    pub fn new(c: &'a mut Ctx, id: String, num: Numbers) -> World<'a> {
        let hk = HOOKS && num != Numbers::Ord;
        let names = id.bytes().fold(7u64, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3)) >> 20;
        c.begin(id, J::obj().set("hk", hk).set("opq", num == Numbers::Opaque));
        World { c, num, lay: BTreeMap::new(), last: BTreeMap::new(), lastx: BTreeMap::new(), nets: BTreeMap::new(), recs: BTreeMap::new(), files: BTreeMap::new(), names, usedx: vec![], usedg: vec![], wild: 0 }
    }
    pub fn finish(self) {
        for f in self.files.values() { let _ = std::fs::remove_file(f); }
        self.c.end();
    }
    // ---- encodings
    fn enc(&self, f: impl Fn(i32, i32, i32) -> i32, opq: Enc) -> Enc {
        match self.num {
            Numbers::Exact(e, w, g) => Enc::Exp(f(e, w, g)),
            Numbers::Soft(b) => Enc::Round(b),
            Numbers::Sat(g) => Enc::Round(-f(-6, 0, g)),
            Numbers::Opaque => opq,
            Numbers::Ord => Enc::Ord,
        }
    }
    fn ex(&self) -> Enc { self.enc(|e, _, _| e, Enc::Canon) }
    fn ey(&self) -> Enc { self.enc(|e, w, _| e + w, Enc::Canon) }
    fn ew(&self) -> Enc { if self.num == Numbers::Ord { return Enc::Exp(0); } self.enc(|_, w, _| w, Enc::Bits) }
    fn eb(&self) -> Enc { self.enc(|e, w, _| e + w, Enc::Bits) }
    fn eg(&self) -> Enc { self.enc(|_, _, g| g, Enc::Canon) }
    fn egx(&self) -> Enc { if let Numbers::Sat(g) = self.num { return Enc::Round(-g); } self.enc(|_, w, g| g + w, Enc::Canon) }
    fn egw(&self) -> Enc { self.enc(|e, _, g| g + e, Enc::Canon) }
    /// a plain integer in the units of this trace
    pub fn one(&self) -> i64 { match self.num { Numbers::Soft(b) => 1 << b, Numbers::Sat(_) => 64, _ => 1 } }
    fn tensors(&self, a: &Args) -> Vec<Tensor> {
        let n = if a.kind == "fc" { 1 } else { a.nk };
        a.p.iter().enumerate().map(|(m, t)| if m < n { self.ew().to(t) } else { self.eb().to(t) }).collect()
    }
    // ---- observation
    pub fn obs_layer(&self, l: &dyn Layer) -> J {
        let r = l.get_serialized();
        let f = fields(&r);
        let po = f.is_some();
        let user = if kind_of(&r) == "softmax" { User::of(&l.get_name()) } else { None };
        let (nm, p, nk, mut st, mut win) = f.unwrap_or((String::new(), vec![], 0, 1, [0, 0, 0]));
        if let Some((a, b, c)) = user { st = a; win = [b, c, 0]; }
        let p: Vec<J> = p.iter().enumerate().map(|(m, t)| J::from(if m < nk { self.ew().of(t) } else { self.eb().of(t) })).collect();
        let trn = l.get_run_mode() == NetworkRunState::Training;
        let mut g: Vec<J> = vec![];
        #[cfg(vp_hooks)]
        if trn && self.num != Numbers::Ord {
            let v = l.vp_gradients();
            g = v.iter().enumerate().map(|(m, t)| J::from(if m < v.len() / 2 { self.egw().of(t) } else { self.eg().of(t) })).collect();
        }
        let _ = self.egw();
        J::obj().set("kind", if user.is_some() { "user" } else { kind_of(&r) }).set("name", l.get_name()).set("rname", nm).set("mode", if trn { "trn" } else { "inf" })
            .set("in", dims(&l.get_input_shape())).set("out", dims(&l.get_output_shape()))
            .set("po", po).set("p", J::A(std::mem::take(&mut { p }))).set("st", st.min(2_000_000_000)).set("win", win)
            .set("g", J::A(std::mem::take(&mut g)))
    }
    pub fn obs_net(&self, n: &Network) -> J {
        let rs = if n.get_run_state() == NetworkRunState::Training { "trn" } else { "inf" };
        let mut st = vec![];
        for m in 0..2000 {
            match n.get_intermediate_state(m) {
                Ok(t) => st.push(J::from(self.ex().of(t))),
                Err(_) => break,
            }
        }
        let far = n.get_intermediate_state(st.len() + 1).is_err() && n.get_intermediate_state(usize::MAX).is_err();
        let (ook, out) = match n.get_output() {
            Ok(t) => (true, J::from(self.ex().of(t))),
            Err(_) => (false, J::obj().set("s", [0, 0, 0]).set("d", J::A(vec![]))),
        };
        let ls: Vec<J> = n.get_layers().iter().map(|l| self.obs_layer(l.as_ref())).collect();
        let mut ig: Vec<J> = vec![];
        #[cfg(vp_hooks)]
        {
            if self.num != Numbers::Ord { ig = n.vp_boundary_gradients().iter().map(|t| J::from(self.eg().of(t))).collect(); }
        }
        J::obj().set("rs", rs).set("in", dims(&n.get_input_shape())).set("out", dims(&n.get_output_shape()))
            .set("ls", J::A(ls)).set("st", J::A(std::mem::take(&mut st))).set("far", far).set("ook", ook).set("output", out)
            .set("ig", J::A(std::mem::take(&mut ig)))
    }
    /// record an event; a panic (in the call or while observing) ends the trace
    fn emit(&mut self, e: J, ret: &str, obs: Result<J, ()>) -> String {
        let (ret, obs) = match (ret, obs) {
            ("panic", _) | (_, Err(())) => ("panic".to_string(), J::obj()),
            (r, Ok(o)) => (r.to_string(), o),
        };
        let bad = take_bad();
        self.c.push(e.set("ret", ret.as_str()).set("bad", bad).set("obs", obs));
        if ret == "panic" || bad { self.c.dead = true; }
        ret
    }
    fn olay(&self, o: i64) -> Result<J, ()> {
        match self.lay.get(&o) { Some(l) => guarded(|| self.obs_layer(l.get())), None => Ok(J::obj()) }
    }
    fn onet(&self, n: i64) -> Result<J, ()> {
        let net = &self.nets[&n];
        guarded(|| self.obs_net(net))
    }
    fn start(&mut self, op: &str) -> bool {
        if self.c.dead { return false; }
        self.c.mark(op);
        take_bad();
        true
    }
    // ---- layers
    pub fn lmake(&mut self, o: i64, a: &Args, via: &str) -> bool {
        if !self.start("lmake") { return false; }
        self.lay.remove(&o);
        self.last.remove(&o);
        let p = self.tensors(a);
        let r = guarded(|| -> Result<Any, &'static str> {
            if via == "new" {
                let mut l = Any::new(a)?;
                if let Any::Fc(f) = &mut l {
                    if via == "new" && !a.p[0].d.is_empty() {
                        // fc: constant parameters are set through the two fill calls
                        f.fill_weights_with_value(self.ew().real(a.p[0].d[0]));
                        f.fill_bias_with_value(self.eb().real(a.p[1].d[0]));
                    }
                }
                Ok(l)
            } else {
                let mut l = Any::empty(a.kind);
                l.fill(a, p)?;
                if let Any::User(u) = &mut l {
                    u.trap = self.ex().real(a.win[0] as i64);
                    u.gtrap = self.eg().real(a.win[1] as i64);
                }
                Ok(l)
            }
        });
        let ret = reply(&r);
        if let Ok(Ok(l)) = r { self.lay.insert(o, l); }
        let e = J::obj().set("op", "lmake").set("o", o).set("args", a.json());
        let obs = self.olay(o);
        self.emit(e, ret, obs) == "ok"
    }
    /// a layer as `empty()` leaves it
    pub fn lempty(&mut self, o: i64, kind: &'static str) {
        if !self.start("lempty") { return; }
        self.last.remove(&o);
        let r = guarded(|| Ok::<_, ()>(Any::empty(kind)));
        let ret = reply(&r);
        if let Ok(Ok(l)) = r { self.lay.insert(o, l); }
        let obs = self.olay(o);
        self.emit(J::obj().set("op", "lempty").set("o", o).set("kind", kind), ret, obs);
    }
    pub fn lfill(&mut self, o: i64, a: &Args) -> bool {
        if !self.start("lfill") { return false; }
        let p = self.tensors(a);
        let l = self.lay.get_mut(&o).unwrap();
        let r = guarded(|| l.fill(a, p));
        if let Ok(Ok(_)) = r { self.last.remove(&o); }
        let e = J::obj().set("op", "lfill").set("o", o).set("args", a.json());
        let obs = self.olay(o);
        self.emit(e, reply(&r), obs) == "ok"
    }
    /// all weights (m = 1) or biases (m = 2) of a fully connected layer
    pub fn lset(&mut self, o: i64, m: i64, v: i64) -> bool {
        if !self.start("lset") { return false; }
        let x = if m == 1 { self.ew().real(v) } else { self.eb().real(v) };
        let l = self.lay.get_mut(&o).unwrap();
        let r = guarded(|| match l {
            Any::Fc(f) => { if m == 1 { f.fill_weights_with_value(x) } else { f.fill_bias_with_value(x) }; Ok(()) }
            _ => Err(()),
        });
        let obs = self.olay(o);
        self.emit(J::obj().set("op", "lset").set("o", o).set("m", m).set("v", v), reply(&r), obs) == "ok"
    }
    pub fn lfwd(&mut self, o: i64, x: &IT, y0: &IT) -> bool {
        if !self.start("lfwd") { return false; }
        // now and then the tensors of the last call, refilled in place
        let old = match self.last.get(&o) {
            Some((a, b)) if dims(&a.get_shape()) == x.s && dims(&b.get_shape()) == y0.s && hash(x) % 2 == 0 => self.last.remove(&o),
            _ => None,
        };
        let (tx, mut ty) = match old {
            Some((mut a, mut b)) => { refill(&mut a, &self.ex().to(x)); refill(&mut b, &self.ey().to(y0)); (a, b) }
            None => (self.ex().to(x), self.ey().to(y0)),
        };
        let keep = tx.clone();
        let l = self.lay.get_mut(&o).unwrap();
        let r = guarded(|| l.get_mut().forward(&tx, &mut ty));
        let cu = same(&keep, &tx);
        let e = J::obj().set("op", "lfwd").set("o", o).set("x", x).set("y0", y0).set("y", self.ey().of(&ty)).set("cu", cu);
        let obs = self.olay(o);
        if let Ok(Ok(_)) = r { self.last.insert(o, (tx, ty)); }
        self.emit(e, reply(&r), obs) == "ok"
    }
    /// backward with the tensors of the last forward pass (or with arbitrary ones before the first)
    pub fn lbwd(&mut self, o: i64, g: &IT, gx0: &IT) -> bool { self.lbwd_with(o, g, gx0, None, None) }
    /// the same, optionally with input or output tensors of these shapes instead
    pub fn lbwd_with(&mut self, o: i64, g: &IT, gx0: &IT, xs: Option<[u32; 3]>, ys: Option<[u32; 3]>) -> bool {
        if !self.start("lbwd") { return false; }
        let (eg, egx) = (self.eg(), self.egx());
        let l = self.lay.get_mut(&o).unwrap();
        let (mut tx, mut ty) = match self.last.get(&o) {
            Some((x, y)) => (x.clone(), y.clone()),
            None => (Tensor::new(l.get().get_input_shape()), Tensor::new(l.get().get_output_shape())),
        };
        if let Some(s) = xs { tx = Tensor::new(shape(s)); }
        if let Some(s) = ys { ty = Tensor::new(shape(s)); }
        let (tg, mut tgx) = (eg.to(g), egx.to(gx0));
        let (kx, ky, kg) = (tx.clone(), ty.clone(), tg.clone());
        let r = guarded(|| l.get_mut().backward(&tx, &ty, &tg, &mut tgx));
        let cu = same(&kx, &tx) && same(&ky, &ty) && same(&kg, &tg);
        let e = J::obj().set("op", "lbwd").set("o", o).set("x", self.ex().of(&tx)).set("y", self.ey().of(&ty))
            .set("g", g).set("gx0", gx0).set("gx", egx.of(&tgx)).set("cu", cu);
        let obs = self.olay(o);
        self.emit(e, reply(&r), obs) == "ok"
    }
    pub fn lsimple(&mut self, op: &str, o: i64) {
        if !self.start(op) { return; }
        let l = self.lay.get_mut(&o).unwrap().get_mut();
        let r = guarded(|| {
            match op {
                "lclear" => l.clear_gradients(),
                "ltrain" => l.switch_to_training(),
                _ => l.switch_to_inference(),
            }
            Ok::<(), ()>(())
        });
        let obs = self.olay(o);
        self.emit(J::obj().set("op", op).set("o", o), reply(&r), obs);
    }
    /// the same input through a layer in inference mode and one in training mode
    pub fn lmodes(&mut self, a: &Args, x: &IT, y0: &IT, y1: &IT) {
        if !self.start("lmodes") { return; }
        let p = self.tensors(a);
        let (tx, mut ta, mut tb) = (self.ex().to(x), self.ey().to(y0), self.ey().to(y1));
        let r = guarded(|| -> Result<(), &'static str> {
            let (mut l, mut m) = (Any::empty(a.kind), Any::empty(a.kind));
            l.fill(a, p.clone())?;
            m.fill(a, p)?;
            m.get_mut().switch_to_training();
            let u = l.get_mut().forward(&tx, &mut ta);
            let v = m.get_mut().forward(&tx, &mut tb);
            u.and(v)
        });
        let e = J::obj().set("op", "lmodes").set("args", a.json()).set("x", x).set("ya", self.ey().of(&ta)).set("yb", self.ey().of(&tb))
            .set("same", (0..1).all(|_| ta == tb));
        self.emit(e, reply(&r), Ok(J::obj()));
    }
    // ---- layer records
    pub fn lsave(&mut self, f: i64, o: i64) {
        if !self.start("lsave") { return; }
        let l = &self.lay[&o];
        let r = guarded(|| Ok::<_, ()>(l.get().get_serialized()));
        let ret = reply(&r);
        if let Ok(Ok(s)) = r { self.recs.insert(f, s); }
        let obs = self.olay(o);
        self.emit(J::obj().set("op", "lsave").set("o", o).set("f", f), ret, obs);
    }
    /// a record written directly from its fields (they need not fit together)
    pub fn raw(&self, a: &Args) -> SerializedLayer {
        let p = self.tensors(a);
        match a.kind {
            "fc" => SerializedLayer::SerialFullyConnectedLayer(HashMap::from([
                (FK::Weights, ser(&p[0])), (FK::Bias, ser(&p[1])), (FK::Name, ser(&a.name))])),
            "conv" => SerializedLayer::SerialConvolutionalLayer(HashMap::from([
                (CK::Kernels, ser(&p[..a.nk].to_vec())), (CK::Biases, ser(&p[a.nk..].to_vec())), (CK::InputShape, ser(&shape(a.inn))),
                (CK::Stride, ser(&a.st)), (CK::Name, ser(&a.name))])),
            "pool" => SerializedLayer::SerialMaxPoolLayer(HashMap::from([
                (PK::InputShape, ser(&shape(a.inn))), (PK::MaskShape, ser(&shape(a.win))), (PK::Stride, ser(&a.st)), (PK::Name, ser(&a.name))])),
            _ => SerializedLayer::SerialSoftMaxLayer(HashMap::from([(SK::Shape, ser(&shape(a.inn))), (SK::Name, ser(&a.name))])),
        }
    }
    pub fn lraw(&mut self, f: i64, a: &Args) {
        if !self.start("lraw") { return; }
        let s = self.raw(a);
        self.recs.insert(f, s);
        self.emit(J::obj().set("op", "lraw").set("f", f).set("args", a.json()), "ok", Ok(J::obj()));
    }
    pub fn ldamage(&mut self, f: i64, r: &mut Rng) {
        if !self.start("ldamage") { return; }
        let how = damage(self.recs.get_mut(&f).unwrap(), r);
        self.emit(J::obj().set("op", "ldamage").set("f", f).set("how", how), "ok", Ok(J::obj()));
    }
    pub fn lload(&mut self, o: i64, f: i64) -> bool {
        if !self.start("lload") { return false; }
        let l = self.lay.get_mut(&o).unwrap();
        let rec = &self.recs[&f];
        let r = guarded(|| l.get_mut().load_from_serialized(rec));
        if let Ok(Ok(_)) = r { self.last.remove(&o); }
        let obs = self.olay(o);
        self.emit(J::obj().set("op", "lload").set("o", o).set("f", f), reply(&r), obs) == "ok"
    }
    /// a record whose tensor bytes were altered: refused, or a layer that works
    pub fn lmut(&mut self, o: i64, f: i64, r: &mut Rng) {
        if !self.start("lmut") { return; }
        let how = flip_tensor_byte(self.recs.get_mut(&f).unwrap(), r);
        if how.is_empty() { return; }
        let l = self.lay.get_mut(&o).unwrap();
        let rec = &self.recs[&f];
        let q = guarded(|| l.get_mut().load_from_serialized(rec));
        let mut works = true;
        if let Ok(Ok(_)) = q {
            self.last.remove(&o);
            works = guarded(|| {
                let x = Tensor::new(l.get().get_input_shape());
                let mut y = Tensor::new(l.get().get_output_shape());
                let trn = l.get().get_run_mode() == NetworkRunState::Training;
                let ok = l.get_mut().forward(&x, &mut y).is_ok();
                let mut gx = Tensor::new(l.get().get_input_shape());
                let okb = !trn || { let g = y.clone(); l.get_mut().backward(&x, &y, &g, &mut gx).is_ok() };
                ok && okb
            }).unwrap_or(false);
        }
        let ret = reply(&q);
        let e = J::obj().set("op", "lmut").set("o", o).set("f", f).set("how", how).set("works", works);
        // the altered numbers are arbitrary: only a refusal keeps the layer under observation
        let obs = if ret == "err" { self.olay(o) } else { self.lay.remove(&o); Ok(J::obj()) };
        self.emit(e, ret, obs);
    }
    // ---- networks
    pub fn nnew(&mut self, n: i64, mode: &str) {
        if !self.start("nnew") { return; }
        self.nets.insert(n, Network::new(if mode == "trn" { NetworkRunState::Training } else { NetworkRunState::Inference }));
        let obs = self.onet(n);
        self.emit(J::obj().set("op", "nnew").set("n", n).set("mode", mode), "ok", obs);
    }
    pub fn nadd(&mut self, n: i64, o: i64) -> bool {
        if !self.start("nadd") { return false; }
        let l = self.lay.remove(&o).unwrap();
        self.last.remove(&o);
        let net = self.nets.get_mut(&n).unwrap();
        let r = guarded(|| match l {
            Any::User(l) => net.add_layer(l),
            Any::Fc(l) => net.add_layer(l),
            Any::Conv(l) => net.add_layer(l),
            Any::Pool(l) => net.add_layer(l),
            Any::Soft(l) => net.add_layer(l),
        });
        let obs = self.onet(n);
        self.emit(J::obj().set("op", "nadd").set("n", n).set("o", o), reply(&r), obs) == "ok"
    }
    /// k layers at once, made from these descriptions in turn
    pub fn nadds(&mut self, n: i64, all: &[Args], k: usize) -> bool {
        if !self.start("nadds") { return false; }
        let made: Vec<Vec<Tensor>> = all.iter().map(|a| self.tensors(a)).collect();
        let net = self.nets.get_mut(&n).unwrap();
        let r = guarded(|| -> Result<(), &'static str> {
            for m in 0..k {
                let a = &all[m % all.len()];
                let mut l = Any::empty(a.kind);
                l.fill(a, made[m % all.len()].clone())?;
                match l {
                    Any::User(l) => net.add_layer(l)?,
                    Any::Fc(l) => net.add_layer(l)?,
                    Any::Conv(l) => net.add_layer(l)?,
                    Any::Pool(l) => net.add_layer(l)?,
                    Any::Soft(l) => net.add_layer(l)?,
                }
            }
            Ok(())
        });
        let obs = self.onet(n);
        let e = J::obj().set("op", "nadds").set("n", n).set("k", k).set("as", J::A(all.iter().map(|a| a.json()).collect()));
        self.emit(e, reply(&r), obs) == "ok"
    }
    pub fn nmode(&mut self, n: i64, mode: &str) {
        let op = if mode == "trn" { "ntrain" } else { "ninf" };
        if !self.start(op) { return; }
        let net = self.nets.get_mut(&n).unwrap();
        let r = guarded(|| {
            if mode == "trn" { net.switch_to_training() } else { net.switch_to_inference() }
            Ok::<(), ()>(())
        });
        let obs = self.onet(n);
        self.emit(J::obj().set("op", op).set("n", n), reply(&r), obs);
    }
    pub fn ninfer(&mut self, n: i64, x: &IT) -> bool {
        if !self.start("ninfer") { return false; }
        let tx = match self.lastx.remove(&n) {
            Some(mut t) if dims(&t.get_shape()) == x.s && hash(x) % 2 == 0 => { refill(&mut t, &self.ex().to(x)); t }
            _ => self.ex().to(x),
        };
        let keep = tx.clone();
        let net = self.nets.get_mut(&n).unwrap();
        let r = guarded(|| net.infer(&tx));
        let cu = same(&keep, &tx);
        let obs = self.onet(n);
        self.lastx.insert(n, tx);
        self.emit(J::obj().set("op", "ninfer").set("n", n).set("x", x).set("cu", cu), reply(&r), obs) == "ok"
    }
    pub fn nback(&mut self, n: i64, g: &IT) -> bool {
        if !self.start("nback") { return false; }
        let tg = self.eg().to(g);
        let keep = tg.clone();
        let net = self.nets.get_mut(&n).unwrap();
        let r = guarded(|| net.backward(&tg));
        let cu = same(&keep, &tg);
        let obs = self.onet(n);
        self.emit(J::obj().set("op", "nback").set("n", n).set("g", g).set("cu", cu), reply(&r), obs) == "ok"
    }
    /// everything a pass computes, as bits
    fn snap(&self, n: &Network) -> Vec<u32> {
        let mut v = vec![];
        let mut put = |t: &Tensor| {
            let s = t.get_shape();
            for k in 0..s.dk { for j in 0..s.dj { for i in 0..s.di {
                let x = t.get_item(&TensorIndex { i, j, k });
                v.push(if x.is_nan() { 0x7fc0_0000 } else { x.to_bits() });
            } } }
        };
        for m in 0..=n.get_layers().len() { if let Ok(t) = n.get_intermediate_state(m) { put(t); } }
        #[cfg(vp_hooks)]
        {
            for l in n.get_layers() { for t in l.vp_gradients().iter() { put(t); } }
            for t in n.vp_boundary_gradients() { put(t); }
        }
        v
    }
    /// the pass that was made last, many times over in quick succession
    pub fn nrep(&mut self, n: i64, x: &IT, g: &IT, trn: bool) {
        if !self.start("nrep") { return; }
        let (tx, tg) = (self.ex().to(x), self.eg().to(g));
        let mut net = self.nets.remove(&n).unwrap();
        let first = self.snap(&net);
        let t0 = std::time::Instant::now();
        let r = guarded(|| -> Result<bool, &'static str> {
            for _ in 0..3000 {
                if trn { net.switch_to_training(); }
                net.infer(&tx)?;
                if trn { net.backward(&tg)?; }
                if self.snap(&net) != first { return Ok(false); }
                if t0.elapsed().as_millis() > 4 { break; }
            }
            Ok(true)
        });
        self.nets.insert(n, net);
        let obs = self.onet(n);
        let same = r == Ok(Ok(true));
        self.emit(J::obj().set("op", "nrep").set("n", n).set("same", same), reply(&r), obs);
    }
    // ---- files
    pub fn path(&mut self, f: i64) -> String {
        // names that differ in little
        let p = self.c.file(&match self.names % 12 {
            0 => format!("net.{}", f),
            1 => format!("{}{}", "n".repeat(215), f),
            2 => format!("net{}", " ".repeat(f as usize)),
            3 => format!("net{}.", ".net".repeat(f as usize)),
            4 => format!("{}net", " ".repeat(f as usize)),
            5 => format!("{}{}", ["net", "Net", "nEt", "neT", "NET", "NEt", "nET", "NeT"][f as usize % 8], "_".repeat(f as usize / 8)),
            // where other programs would keep a copy while they write
            6 | 9 if f < 4 => ["a.net", "a.net.tmp", "a.tmp", "a.net~"][f as usize].to_string(),
            7 if f < 4 => ["a.net.bak", "a.net", "a.bak", "a.new"][f as usize].to_string(),
            8 if f < 4 => ["a.net", ".a.net.tmp", "a.net.part", "tmp"][f as usize].to_string(),
            _ => format!("n{}_{}.net", f, if f % 2 == 0 { "a b" } else { "\u{e9}" }),
        });
        if !self.files.contains_key(&f) { let _ = std::fs::remove_file(&p); self.files.insert(f, p.clone()); }
        p
    }
    pub fn nsave(&mut self, n: i64, f: i64) -> bool {
        if !self.start("nsave") { return false; }
        let p = self.path(f);
        let net = &self.nets[&n];
        let r = guarded(|| net.save_to_file(&p));
        let obs = self.onet(n);
        self.emit(J::obj().set("op", "nsave").set("n", n).set("f", f), reply(&r), obs) == "ok"
    }
    /// saving to a place that cannot be written
    pub fn nsavefail(&mut self, n: i64, r: &mut Rng) {
        if !self.start("nsavefail") { return; }
        let p = if r.chance(50) { self.c.file("no_such_directory/n.net") } else { self.c.dir.clone() };
        let net = &self.nets[&n];
        let q = guarded(|| net.save_to_file(&p));
        let obs = self.onet(n);
        self.emit(J::obj().set("op", "nsavefail").set("n", n), reply(&q), obs);
    }
    /// a record put into a network directly
    pub fn nrec(&mut self, n: i64, f: i64) -> bool {
        if !self.start("nrec") { return false; }
        let rec = &self.recs[&f];
        let net = self.nets.get_mut(&n).unwrap();
        let r = guarded(|| rec.add_to_network(net));
        let obs = self.onet(n);
        self.emit(J::obj().set("op", "nrec").set("n", n).set("f", f), reply(&r), obs) == "ok"
    }
    pub fn nload(&mut self, n: i64, f: i64) -> bool {
        if !self.start("nload") { return false; }
        let p = self.path(f);
        let net = self.nets.get_mut(&n).unwrap();
        let r = guarded(|| net.load_from_file(&p));
        let obs = self.onet(n);
        self.emit(J::obj().set("op", "nload").set("n", n).set("f", f), reply(&r), obs) == "ok"
    }
    /// keep only the first k bytes (fraction q/1000 of the file; never all of it)
    pub fn ftear(&mut self, f: i64, q: u32) {
        if !self.start("ftear") { return; }
        let p = self.path(f);
        let b = match std::fs::read(&p) { Ok(b) if !b.is_empty() => b, _ => return };
        let k = match q { 0 => 0, 1000 => b.len() - 1, _ => (b.len() as u64 * q as u64 / 1000) as usize }.min(b.len() - 1);
        std::fs::write(&p, &b[..k]).unwrap();
        self.emit(J::obj().set("op", "ftear").set("f", f).set("k", k).set("of", b.len()), "ok", Ok(J::obj()));
    }
    pub fn flen(&mut self, f: i64) -> usize {
        let p = self.path(f);
        std::fs::metadata(&p).map(|m| m.len() as usize).unwrap_or(0)
    }
    pub fn fcut(&mut self, f: i64, k: usize) {
        if !self.start("ftear") { return; }
        let p = self.path(f);
        let b = std::fs::read(&p).unwrap_or_default();
        if k >= b.len() { return; }
        std::fs::write(&p, &b[..k]).unwrap();
        self.emit(J::obj().set("op", "ftear").set("f", f).set("k", k).set("of", b.len()), "ok", Ok(J::obj()));
    }
    pub fn bytes(&mut self, f: i64) -> Vec<u8> {
        let p = self.path(f);
        std::fs::read(&p).unwrap_or_default()
    }
    pub fn restore(&mut self, f: i64, b: &[u8], from: i64) {
        // copy of a saved file under another name
        if !self.start("fcopy") { return; }
        let p = self.path(f);
        std::fs::write(&p, b).unwrap();
        self.emit(J::obj().set("op", "fcopy").set("f", f).set("from", from), "ok", Ok(J::obj()));
    }
    pub fn fremove(&mut self, f: i64) {
        if !self.start("fremove") { return; }
        let p = self.path(f);
        let _ = std::fs::remove_file(&p);
        self.emit(J::obj().set("op", "fremove").set("f", f), "ok", Ok(J::obj()));
    }
    /// a file put together from records; item = (fields, damage it?)
    pub fn fcompose(&mut self, f: i64, items: &[(Args, bool)], r: &mut Rng) {
        if !self.start("fcompose") { return; }
        let p = self.path(f);
        let mut v: Vec<SerializedLayer> = vec![];
        let mut js = vec![];
        for (a, dmg) in items {
            let mut s = self.raw(a);
            let how = if *dmg { damage(&mut s, r) } else { String::new() };
            v.push(s);
            js.push(J::obj().set("args", a.json()).set("good", !*dmg).set("how", how));
        }
        std::fs::write(&p, ser(&v)).unwrap();
        self.emit(J::obj().set("op", "fcompose").set("f", f).set("items", J::A(js)), "ok", Ok(J::obj()));
    }
}

fn damage_map<K: std::hash::Hash + Eq + serde::Serialize>(h: &mut HashMap<K, Vec<u8>>, r: &mut Rng) -> String {
    // a fixed order of the keys, so that runs repeat
    let mut keys: Vec<(Vec<u8>, K)> = h.drain().map(|(k, v)| { let b = ser(&k); ((b, v), k) })
        .map(|((b, v), k)| { let mut t = b; t.push(0xff); t.extend(v); (t, k) }).collect();
    keys.sort_by(|a, b| a.0.cmp(&b.0));
    let n = keys.len() as u32;
    let pick = r.u(0, n - 1) as usize;
    let mut how = String::new();
    for (m, (t, k)) in keys.into_iter().enumerate() {
        let klen = ser(&k).len() + 1;
        let mut v = t[klen..].to_vec();
        if m == pick {
            if r.chance(40) { how = format!("field {} missing", m); continue; }
            let l = v.len();
            let c = match r.u(0, 3) { 0 => 0, 1 => l.saturating_sub(1), _ => r.u(0, (l as u32).saturating_sub(1)) as usize };
            if l == 0 { how = format!("field {} missing", m); continue; }
            v.truncate(c);
            how = format!("field {} cut to {} of {}", m, c, l);
        }
        h.insert(k, v);
    }
    how
}
pub fn damage(s: &mut SerializedLayer, r: &mut Rng) -> String {
    match s {
        SerializedLayer::SerialFullyConnectedLayer(h) => damage_map(h, r),
        SerializedLayer::SerialConvolutionalLayer(h) => damage_map(h, r),
        SerializedLayer::SerialMaxPoolLayer(h) => damage_map(h, r),
        SerializedLayer::SerialSoftMaxLayer(h) => damage_map(h, r),
    }
}
fn flip_tensor_byte(s: &mut SerializedLayer, r: &mut Rng) -> String {
    let v = match s {
        SerializedLayer::SerialFullyConnectedLayer(h) => h.get_mut(if r.chance(50) { &FK::Weights } else { &FK::Bias }),
        SerializedLayer::SerialConvolutionalLayer(h) => h.get_mut(if r.chance(50) { &CK::Kernels } else { &CK::Biases }),
        _ => None,
    };
    match v {
        Some(v) if !v.is_empty() => {
            let q = r.u(0, (v.len() as u32 - 1).min(47)) as usize;
            let old = v[q];
            v[q] = match r.u(0, 3) { 0 => old.wrapping_add(1), 1 => old.wrapping_sub(1), 2 => old ^ (1 << r.u(0, 7)), _ => *r.pick(&[0u8, 1, 2, 255]) };
            if v[q] == old { v[q] = old ^ 1; }
            format!("byte {} {} -> {}", q, old, v[q])
        }
        _ => String::new(),
    }
}
/// can records and files be written directly in the library's present format?
pub fn raw_format_ok(c: &mut Ctx, r: &mut Rng) -> bool {
    let dir = c.file("calibrate.net");
    let sty = Style { w: 2, b: 2, outs: 2 };
    let names = 6;
    let w = World { c, num: Numbers::Exact(0, 0, 0), lay: BTreeMap::new(), last: BTreeMap::new(), lastx: BTreeMap::new(), nets: BTreeMap::new(), recs: BTreeMap::new(), files: BTreeMap::new(), names, usedx: vec![], usedg: vec![], wild: 0 };
    let mut ok = true;
    let mut all = vec![];
    for kind in ["fc", "conv", "pool", "softmax"] {
        let a = args(r, kind, [3, 1, 1], &sty);
        let rec = w.raw(&a);
        ok &= guarded(|| {
            let mut l = Any::empty(kind);
            l.get_mut().load_from_serialized(&rec).is_ok() && fields(&l.get().get_serialized()).is_some()
        }).unwrap_or(false);
        if kind == "softmax" { all.push(rec); }
    }
    std::fs::write(&dir, ser(&all)).unwrap();
    ok &= guarded(|| {
        let mut n = Network::new(NetworkRunState::Inference);
        n.load_from_file(&dir).is_ok() && n.get_layers().len() == 1
    }).unwrap_or(false);
    let _ = std::fs::remove_file(&dir);
    ok
}

thread_local! { static RAW: std::cell::Cell<bool> = std::cell::Cell::new(false); }
pub fn calibrate(c: &mut Ctx) {
    let ok = raw_format_ok(c, &mut Rng::new(5));
    RAW.with(|b| b.set(ok));
}
pub fn raw_format_known() -> bool { RAW.with(|b| b.get()) }
