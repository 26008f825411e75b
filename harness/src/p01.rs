//! P01: propagation lands exactly on the requested epoch, for any history of calls on one instance.
use crate::sc::*;
use crate::util::*;
use anise::analysis::event::{Condition, Event};
use anise::analysis::prelude::OrbitalElement;
use anise::analysis::prelude::ScalarExpr;
use hifitime::{Duration, Epoch, TimeScale, Unit};
use nyx_space::State;
use nyx_space::cosmic::Spacecraft;
use nyx_space::propagators::*;
use serde_json::{Value, json};
use std::sync::atomic::Ordering;
use std::sync::mpsc::channel;

#[derive(Clone, Debug)]
struct Op {
    d: Duration,
    fault: i64,  // eom calls before failure, <0 none
    ffault: i64, // finally calls before failure
    event: bool,
    api: usize, // 0 for_duration, 1 until_epoch, 2 channel, 3 until_channel, 4 traj, 5 until_traj
    setstep: Option<(Duration, bool)>,
    scale: bool, // until epoch given in another time scale
}

fn opts(r: &mut Rng64, m: IntegratorMethod) -> (IntegratorOptions, Duration) {
    let step_ns = *r.pick(&[1_000_000_000i64, 10_000_000_000, 60_000_000_000, 12_345_678_901, 333_333_333, 97_000_000_007]);
    let step = Duration::from_total_nanoseconds(step_ns as i128);
    if m == IntegratorMethod::RungeKutta4 || r.u(3) == 0 {
        (IntegratorOptions::with_fixed_step(step), step)
    } else {
        let ec = *r.pick(&[ErrorControl::RSSCartesianStep, ErrorControl::RSSCartesianState, ErrorControl::RSSStep, ErrorControl::RSSState, ErrorControl::LargestState]);
        let o = IntegratorOptions::builder()
            .init_step(step)
            .min_step(step * *r.pick(&[0.001, 0.1, 1.0]))
            .max_step(step * *r.pick(&[1.0, 2.0, 40.0]))
            .tolerance(*r.pick(&[1e-6, 1e-9, 1e-12, 1e-15]))
            .attempts(*r.pick(&[1u8, 3, 50]))
            .error_ctrl(ec)
            .build();
        (o, step)
    }
}

fn amount(r: &mut Rng64, cls: i64, step: Duration) -> Duration {
    match cls {
        0 => Duration::ZERO,
        1 => {
            let ns = step.total_nanoseconds();
            Duration::from_total_nanoseconds(*r.pick(&[1i128, ns / 3, ns - 1, 17]))
        }
        2 => step * *r.pick(&[1i64, 2, 3]),
        _ => step * r.i(2, 6) + Duration::from_total_nanoseconds(r.i(1, 900_000_000) as i128),
    }
}

fn run(rec: &Rec, m: IntegratorMethod, o: IntegratorOptions, s0: Spacecraft, ops: Vec<Op>) {
    let zero = s0.epoch();
    let dynm = Faulty::two_body();
    let prop = Propagator::new(dynm.clone(), m, o);
    let mut inst = prop.with(s0, alm()).quiet();
    for op in ops {
        dynm.fuse.store(op.fault, Ordering::SeqCst);
        dynm.ffuse.store(op.ffault, Ordering::SeqCst);
        if let Some((d, f)) = op.setstep {
            inst.set_step(d, f);
        }
        let now = inst.state.epoch();
        let mut req = now + op.d;
        let mut pubs: Vec<Value> = vec![];
        let mut lastbits = String::new();
        let mut traj: Vec<Value> = vec![];
        let mut trajends = vec![];
        let mut kind = "dur";
        let res: Result<Spacecraft, String>;
        if op.event {
            kind = "event";
            let ev = Event::new(ScalarExpr::Element(OrbitalElement::TrueAnomaly), Condition::Equals(inst.state.orbit.ta_deg().unwrap_or(0.0) + if op.d.is_negative() { -1.0 } else { 1.0 }));
            res = inst.until_event(op.d, &ev, None).map(|x| x.0).map_err(|e| errs(&e));
        } else {
            if op.scale {
                req = match req.time_scale { TimeScale::UTC => req.to_time_scale(TimeScale::TAI), TimeScale::TAI => req.to_time_scale(TimeScale::UTC), _ => req };
            }
            match op.api {
                0 => res = inst.for_duration(op.d).map_err(|e| errs(&e)),
                1 => res = inst.until_epoch(req).map_err(|e| errs(&e)),
                2 | 3 => {
                    kind = "chan";
                    let (tx, rx) = channel();
                    res = if op.api == 2 { inst.for_duration_with_channel(op.d, tx) } else { inst.until_epoch_with_channel(req, tx) }.map_err(|e| errs(&e));
                    for s in rx.into_iter() {
                        pubs.push(ep(s.epoch(), zero));
                        lastbits = bits(&s);
                    }
                }
                _ => {
                    kind = "traj";
                    let x = if op.api == 4 { inst.for_duration_with_traj(op.d) } else { inst.until_epoch_with_traj(req) };
                    res = match x {
                        Ok((s, t)) => {
                            traj = t.states.iter().map(|s| ep(s.epoch(), zero)).collect();
                            trajends = vec![bits(t.first()), bits(t.last())];
                            Ok(s)
                        }
                        Err(e) => Err(errs(&e)),
                    };
                }
            }
        }
        let blown = (op.fault >= 0 && dynm.fuse.load(Ordering::SeqCst) < 0) || (op.ffault >= 0 && dynm.ffuse.load(Ordering::SeqCst) < 0);
        let dir = if op.d == Duration::ZERO { "z" } else if op.d.is_negative() { "b" } else { "f" };
        rec.ev(
            "call",
            json!({
                "op": kind, "dir": dir, "req": ep(now + op.d, zero), "blown": blown, "ok": res.is_ok(),
                "ret": res.as_ref().map(|s| ep(s.epoch(), zero)).unwrap_or(json!([0,0])),
                "retbits": res.as_ref().map(bits).unwrap_or_default(),
                "inst": ep(inst.state.epoch(), zero), "instbits": bits(&inst.state),
                "pub": pubs, "lastbits": lastbits, "traj": traj, "trajends": trajends,
                "err": res.err().unwrap_or_default(),
            }),
        );
    }
}

fn mk(id: String, m: IntegratorMethod, o: IntegratorOptions, s0: Spacecraft, ops: Vec<Op>) -> Case {
    let b = json!({"bits0": bits(&s0), "method": format!("{m:?}"), "opts": format!("{o}").replace('"', "'"), "ops": format!("{ops:?}")});
    case(id, b, move |rec| run(rec, m, o, s0, ops))
}

pub fn cases(ctx: &Ctx) -> Vec<Case> {
    let mut v = vec![];
    let mk_op = |r: &mut Rng64, cls: i64, out: &str, step: Duration| {
        let a = amount(r, cls.abs(), step);
        let d = if cls < 0 { -a } else { a };
        let (mut fault, mut ffault) = (-1, -1);
        if out == "fault" {
            match r.u(3) {
                0 => fault = r.i(0, 20),
                1 => fault = r.i(0, 200),
                _ => ffault = r.i(0, 3),
            }
        }
        Op { d, fault, ffault, event: out == "event", api: r.u(6), setstep: None, scale: false }
    };
    for (i, s) in ctx.scen.iter().enumerate() {
        let id = format!("s{i}");
        let mut r = ctx.rng(&format!("p01{}", s["h"]));
        let m = *r.pick(&METHODS);
        let (o, step) = opts(&mut r, m);
        let s0 = rand_sc(&mut r, epoch0());
        let ops = s["h"].as_array().unwrap().iter().map(|c| mk_op(&mut r, c["d"].as_i64().unwrap(), c["o"].as_str().unwrap(), step)).collect();
        v.push(mk(id, m, o, s0, ops));
    }
    for i in 0..ctx.n(400, 6000) {
        let id = format!("r{i}");
        let mut r = ctx.rng(&id);
        let m = *r.pick(&METHODS);
        let (o, step) = opts(&mut r, m);
        let e0 = *r.pick(&[epoch0(), Epoch::from_gregorian_tai_hms(2001, 3, 4, 5, 6, 7), Epoch::from_gregorian(2030, 1, 1, 0, 0, 0, 123456789, TimeScale::TDB), Epoch::from_gregorian(1999, 12, 31, 23, 59, 58, 7, TimeScale::ET)]);
        let s0 = rand_sc(&mut r, e0);
        let n = 1 + r.u(7);
        let ops = (0..n)
            .map(|_| {
                let c = r.i(-3, 3);
                let w = *r.pick(&["ok", "ok", "ok", "fault", "event"]);
                let w = if c == 0 { "ok" } else { w };
                let mut op = mk_op(&mut r, c, w, step);
                op.scale = r.u(4) == 0;
                if r.u(6) == 0 {
                    op.setstep = Some((step * *r.pick(&[0.5, 1.0, 3.0]), m == IntegratorMethod::RungeKutta4 || r.b()));
                }
                op
            })
            .collect();
        v.push(mk(id, m, o, s0, ops));
    }
    let _ = Unit::Second;
    v
}
