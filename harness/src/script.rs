//! Replays call sequences generated by the specification (MCLayer.tla, MCNet.tla) on the
//! real library.  A script is {"soft": bits, "c": [command, ...]}; every command names the
//! call and carries its concrete arguments.
use crate::ctx::Ctx;
use crate::gen::Args;
use crate::json::J;
use crate::nets::*;
use crate::tens::*;

fn args(j: &J) -> Args {
    let kind = match j.at("kind").str() { "fc" => "fc", "conv" => "conv", "pool" => "pool", _ => "softmax" };
    Args {
        kind,
        name: j.at("name").str().to_string(),
        p: j.at("p").list().iter().map(|t| t.tensor()).collect(),
        nk: j.at("nk").int() as usize,
        inn: j.at("in").dims(),
        st: j.at("st").int() as u32,
        win: j.at("win").dims(),
    }
}
pub fn script(c: &mut Ctx, r: &mut Rng, id: String, line: &str) {
    let j = J::parse(line);
    let soft = j.at("soft").int() as i32;
    // the same script in different units of the numbers
    let num = if soft > 0 { Numbers::Soft(soft) } else { match crate::fam::exps(r) { Numbers::Exact(e, w, g) => Numbers::Exact(e, if j.at("net").int() > 0 { 0 } else { w }, g), n => n } };
    let mut w = World::new(c, id, num);
    for k in j.at("c").list() {
        let op = k.at("op").str();
        let n = |f: &str| k.at(f).int();
        match op {
            "lmake" => { w.lmake(n("o"), &args(k.at("args")), "fill"); }
            "lfill" => { w.lfill(n("o"), &args(k.at("args"))); }
            "lset" => { w.lset(n("o"), n("m"), n("v")); }
            "lfwd" => { w.lfwd(n("o"), &k.at("x").tensor(), &k.at("y0").tensor()); }
            "lbwd" => { w.lbwd(n("o"), &k.at("g").tensor(), &k.at("gx0").tensor()); }
            "lclear" | "ltrain" | "linf" => w.lsimple(op, n("o")),
            "lsave" => w.lsave(n("f"), n("o")),
            "lraw" => if raw_format_known() { w.lraw(n("f"), &args(k.at("args"))) } else { break },
            "ldamage" => w.ldamage(n("f"), r),
            "lload" => { w.lload(n("o"), n("f")); }
            "nnew" => w.nnew(n("n"), k.at("mode").str()),
            "nadd" => { w.nadd(n("n"), n("o")); }
            "ntrain" => w.nmode(n("n"), "trn"),
            "ninf" => w.nmode(n("n"), "inf"),
            "ninfer" => { w.ninfer(n("n"), &k.at("x").tensor()); }
            "nback" => { w.nback(n("n"), &k.at("g").tensor()); }
            "nsave" => { w.nsave(n("n"), n("f")); }
            "nload" => { w.nload(n("n"), n("f")); }
            "ftear" => w.ftear(n("f"), r.u(0, 1000)),
            "fremove" => w.fremove(n("f")),
            _ => panic!("unknown command {}", op),
        }
    }
    w.finish();
}
