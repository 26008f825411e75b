//! Tracking arcs: edits (P15) and files (P16).
use crate::sc::epoch0;
use crate::util::*;
use hifitime::{Duration, Epoch};
use indexmap::IndexMap;
use nyx_space::od::msr::{Measurement, MeasurementType as MT, TrackingDataArc};
use serde_json::{Value, json};
use std::ops::Bound;

const TYPES: [(&str, MT); 6] = [("R", MT::Range), ("D", MT::Doppler), ("A", MT::Azimuth), ("E", MT::Elevation), ("F", MT::ReceiveFrequency), ("T", MT::TransmitFrequency)];
fn tname(t: MT) -> &'static str { TYPES.iter().find(|x| x.1 == t).map(|x| x.0).unwrap_or("?") }
fn tof(s: &str) -> MT { TYPES.iter().find(|x| x.0 == s).unwrap().1 }
fn milli(x: f64) -> i64 { if (x * 1000.0).abs() > 2e9 || !x.is_finite() { 2_000_000_000 } else { (x * 1000.0).round() as i64 } }
fn rec_m(m: &Measurement, z: Epoch) -> Value { json!({"t": ep(m.epoch, z), "trk": m.tracker, "d": m.data.iter().map(|(t, x)| json!([tname(*t), milli(*x)])).collect::<Vec<_>>(), "rej": m.rejected}) }
fn rec_a(a: &TrackingDataArc, z: Epoch) -> Vec<Value> { a.measurements.iter().map(|m| rec_m(m, z)).collect() }
fn opt<T>(o: Option<T>, f: impl Fn(T) -> Value) -> Value { match o { Some(x) => json!([f(x)]), None => json!([]) } }
fn says(a: &TrackingDataArc, z: Epoch) -> Value {
    json!({"len": a.len(), "empty": a.is_empty(), "trackers": a.unique_aliases().iter().collect::<Vec<_>>(), "types": a.unique_types().iter().map(|t| tname(*t)).collect::<Vec<_>>(),
        "first": opt(a.start_epoch(), |e| ep(e, z)), "last": opt(a.end_epoch(), |e| ep(e, z)), "dur": opt(a.duration(), dur), "sep": if a.len() > 1 { opt(a.min_duration_sep(), dur) } else { json!([]) }})
}
#[derive(Clone, Debug)]
struct B { k: u8, t: Duration } // 0 unbounded, 1 included, 2 excluded
impl B {
    fn ep(&self, z: Epoch) -> Bound<Epoch> { match self.k { 1 => Bound::Included(z + self.t), 2 => Bound::Excluded(z + self.t), _ => Bound::Unbounded } }
    fn du(&self) -> Bound<Duration> { match self.k { 1 => Bound::Included(self.t), 2 => Bound::Excluded(self.t), _ => Bound::Unbounded } }
    fn js(&self) -> Value { let k = ["un", "in", "ex"][self.k as usize]; json!({"k": k, "t": dur(self.t)}) }
}
#[derive(Clone, Debug)]
enum Op { Range(&'static str, B, B), Name(&'static str, String), Add(TrackingDataArc), Down(Duration), Chunk(Duration), Check, Moduli, Eq }
/// names which begin alike or differ in case only
fn tn(k: usize) -> String { ["T1", "T10", "T", "t1"][k % 4].into() }
fn rand_msr(r: &mut Rng64, t: Epoch, trk: &str) -> Measurement {
    let mut m = Measurement::new(trk.to_string(), t);
    let n = 1 + r.u(4);
    let s = r.u(6);
    for k in 0..n { m.data.insert(TYPES[(s + k) % 6].1, r.i(-900_000, 900_000) as f64 / 1000.0); }
    m.rejected = r.u(6) == 0;
    m
}
fn rand_arc(r: &mut Rng64, z: Epoch, n: usize, trks: usize) -> TrackingDataArc {
    let mut a = TrackingDataArc::default();
    let unit = *r.pick(&[1i128, 500_000_000, 1_000_000_000, 60_000_000_000]);
    for _ in 0..n { let t = z + Duration::from_total_nanoseconds(unit * r.i(0, 2 * n as i64 + 2) as i128); let k = tn(r.u(trks)); let m = rand_msr(r, t, &k); a.measurements.push(m); }
    a
}
/// each tracker samples uniformly, with gaps of none of its types
fn uniform_arc(r: &mut Rng64, z: Epoch, trks: usize) -> TrackingDataArc {
    let mut a = TrackingDataArc::default();
    let step = Duration::from_total_nanoseconds(1_000_000_000 * r.i(1, 30) as i128);
    for k in 0..trks {
        let off = if r.b() { Duration::ZERO } else { Duration::from_total_nanoseconds(r.i(0, 999_999_999) as i128) };
        let all_rej = r.u(5) == 0;
        let s = r.u(6);
        let nt = 1 + r.u(3);
        for i in 0..1 + r.u(30) {
            let mut m = Measurement::new(tn(k), z + off + step * i as i64);
            for q in 0..nt { m.data.insert(TYPES[(s + q) % 6].1, r.i(-90_000, 90_000) as f64 / 1000.0); }
            m.rejected = all_rej;
            a.measurements.push(m);
        }
    }
    a.sort();
    a
}
pub fn cases15(ctx: &Ctx) -> Vec<Case> {
    let mut v = vec![];
    let z = epoch0();
    let bound = |x: &Value| B { k: match x["k"].as_str().unwrap() { "in" => 1, "ex" => 2, _ => 0 }, t: Duration::from_seconds(x["t"][0].as_f64().unwrap()) };
    let stat = |s: &str| -> &'static str { ["filter-epoch", "exclude-epoch", "reject-epoch", "filter-offset", "filter-tracker", "exclude-tracker", "reject-tracker", "filter-type", "exclude-type"].into_iter().find(|x| *x == s).unwrap() };
    let mut specs: Vec<(String, TrackingDataArc, Vec<Op>)> = vec![];
    let st = (ctx.scen.len() / ctx.n(1500, 20000)).max(1);
    for (i, s) in ctx.scen.iter().enumerate() {
        if i % st != (ctx.seed as usize) % st { continue; }
        let mut a = TrackingDataArc::default();
        for m in s["arc"].as_array().unwrap() {
            let mut q = Measurement::new(m["trk"].as_str().unwrap().into(), z + Duration::from_seconds(m["t"].as_f64().unwrap()));
            for d in m["d"].as_array().unwrap() { q.data.insert(tof(d[0].as_str().unwrap()), d[1].as_f64().unwrap()); }
            a.measurements.push(q);
        }
        let ops = s["ops"].as_array().unwrap().iter().map(|o| if o.get("lo").is_some() { Op::Range(stat(o["op"].as_str().unwrap()), bound(&o["lo"]), bound(&o["hi"])) } else { Op::Name(stat(o["op"].as_str().unwrap()), o["arg"].as_str().unwrap().into()) }).collect();
        specs.push((format!("scen{i}"), a, ops));
    }
    let bigs = ctx.n(6, 60);
    for i in 0..ctx.n(400, 8000) + bigs {
        let big = i < bigs;
        let id = if big { format!("big{i}") } else { format!("rand{}", i - bigs) };
        let mut r = ctx.rng(&id);
        let down = !big && r.u(4) == 0;
        let n = if big { 120 + r.u(300) } else { r.u(20) };
        let mut a = if down { let k = 1 + r.u(3); uniform_arc(&mut r, z, k) } else { rand_arc(&mut r, z, n, 3) };
        a.sort();
        let mut ops = vec![];
        // epochs of the arc, and others near them
        let eps: Vec<Duration> = a.measurements.iter().map(|m| m.epoch - z).collect();
        for j in 0..1 + r.u(6) {
            let bd = |r: &mut Rng64, off: bool| B { k: r.u(3) as u8, t: { let t = if eps.is_empty() || r.u(5) == 0 { Duration::from_seconds(r.r(-100.0, 1000.0).round()) } else { let q = *r.pick(&eps); if off { q - eps[0] } else { q } }; t + Duration::from_total_nanoseconds(*r.pick(&[0i128, 0, 0, 1, -1])) } };
            ops.push(match r.u(14) {
                x @ 0..=4 => { let o = ["filter-epoch", "exclude-epoch", "reject-epoch", "filter-offset", "reject-epoch"][x]; let (l, h) = (bd(&mut r, x == 3), bd(&mut r, x == 3)); Op::Range(o, l, h) }
                x @ 5..=7 => Op::Name(["filter-tracker", "exclude-tracker", "reject-tracker"][x - 5], tn(r.u(4))),
                x @ 8..=9 => Op::Name(["filter-type", "exclude-type"][x - 8], TYPES[r.u(6)].0.to_string()),
                10 => { let n = r.u(12); let mut b = rand_arc(&mut r, z, n, 3); if r.b() { b.sort(); } if r.u(3) == 0 { for m in a.measurements.iter().take(4) { b.measurements.push(m.clone()); } } Op::Add(b) }
                11 => Op::Chunk(Duration::from_total_nanoseconds(1_000_000_000 * r.i(1, 60) as i128)),
                12 => Op::Eq,
                _ => if j % 2 == 0 { Op::Check } else { Op::Moduli },
            });
        }
        if down { let step = a.min_duration_sep().unwrap_or(Duration::ZERO).max(Duration::from_seconds(1.0)); ops = vec![Op::Down(step * r.i(1, 8))]; }
        specs.push((id, a, ops));
    }
    for (id, mut arc, ops) in specs {
        let mut r = ctx.rng(&format!("{id}x"));
        if r.b() { let mut m = IndexMap::new(); m.insert(MT::Range, 75660.0); arc.moduli = Some(m); }
        if r.b() { arc.source = Some("somewhere".into()); }
        arc.force_reject = r.u(4) == 0;
        let begin = json!({"arc": rec_a(&arc, z), "mod": arc.moduli.is_some()});
        v.push(case(id, begin, move |rec| {
            let mut a = arc.clone();
            for op in &ops {
                let before = a.clone();
                let mut forced = before.force_reject;
                let mut moduli = before.moduli.clone();
                let mut e = json!({});
                let mut skip = false;
                match op {
                    Op::Range(o, l, h) => {
                        e = json!({"op": o, "lo": l.js(), "hi": h.js()});
                        a = match *o { "filter-epoch" => a.filter_by_epoch((l.ep(z), h.ep(z))), "exclude-epoch" => a.exclude_by_epoch((l.ep(z), h.ep(z))), "reject-epoch" => a.reject_by_epoch((l.ep(z), h.ep(z))), _ => a.filter_by_offset((l.du(), h.du())) };
                    }
                    Op::Name(o, x) => {
                        e = json!({"op": o, "arg": x});
                        a = match *o { "filter-tracker" => a.filter_by_tracker(x.clone()), "exclude-tracker" => a.exclude_tracker(x.clone()), "reject-tracker" => a.reject_by_tracker(x), "filter-type" => a.filter_by_measurement_type(tof(x)), _ => a.exclude_measurement_type(tof(x)) };
                    }
                    Op::Add(b) => {
                        e = json!({"op": "add", "with": rec_a(b, z)});
                        forced = false; // documented: merging clears it
                        let mut x = a.clone();
                        x += b.clone();
                        let y = a.clone() + b.clone();
                        if x != y && x.measurements.len() != y.measurements.len() { e["op"] = json!("add-assign-differs"); }
                        a = y;
                    }
                    Op::Down(step) => {
                        let mut n = serde_json::Map::new();
                        for t in a.unique_aliases() {
                            let sub: Vec<Epoch> = a.measurements.iter().filter(|m| m.tracker == t).map(|m| m.epoch).collect();
                            let cur = if sub.len() > 1 { sub[1] - sub[0] } else { Duration::MAX };
                            n.insert(t, json!(if cur >= *step { 1 } else { (step.total_nanoseconds() as f64 / cur.total_nanoseconds() as f64).round() as i64 }));
                        }
                        if n.is_empty() { skip = true; }
                        e = json!({"op": "down", "step": dur(*step), "n": n});
                        a = a.downsample(*step);
                    }
                    Op::Chunk(mx) => {
                        let c = a.chunk(*mx);
                        let ok = c.iter().all(|x| x.moduli == a.moduli && x.source == a.source && x.force_reject == a.force_reject);
                        rec.ev("op", json!({"op": "chunk", "max": dur(*mx), "chunks": c.iter().map(|x| rec_a(x, z)).collect::<Vec<_>>(), "out": [], "rest": ok}));
                        skip = true;
                    }
                    Op::Check => { a = a.resid_vs_ref_check(); forced = true; e = json!({"op": "check"}); }
                    Op::Moduli => { a.set_moduli(MT::Azimuth, 360.0); a.set_moduli(MT::Elevation, f64::NAN); a.set_moduli(MT::Doppler, 0.0); let mut m = moduli.clone().unwrap_or_default(); m.insert(MT::Azimuth, 360.0); moduli = Some(m); e = json!({"op": "moduli"}); }
                    Op::Eq => {
                        // equal to itself; not to an arc with one thing changed, whichever side it is on
                        let mut pairs = vec![(a.clone(), true)];
                        if !a.is_empty() {
                            let k = a.len() / 2;
                            let mut b = a.clone(); b.measurements[k].tracker += "x"; pairs.push((b, false));
                            let mut b = a.clone(); b.measurements[k].epoch += Duration::from_total_nanoseconds(1); pairs.push((b, false));
                            let mut b = a.clone(); let t = *b.measurements[k].data.keys().next().unwrap(); *b.measurements[k].data.get_mut(&t).unwrap() += 1e-3; pairs.push((b, false));
                            let mut b = a.clone(); if let Some(n) = TYPES.iter().find(|n| !a.measurements[k].data.contains_key(&n.1)) { b.measurements[k].data.insert(n.1, 1.0); pairs.push((b, false)); }
                            let mut b = a.clone(); b.measurements.pop(); pairs.push((b, false));
                        }
                        for (b, w) in pairs { for g in [a == b, b == a] { rec.ev("op", json!({"op": "eq", "got": g, "want": w, "out": [], "rest": true})); } }
                        skip = true;
                    }
                }
                if skip { continue; }
                e["out"] = json!(rec_a(&a, z));
                e["says"] = says(&a, z);
                e["rest"] = json!(a.moduli == moduli && a.source == before.source && a.force_reject == forced);
                rec.ev("op", e);
            }
        }));
    }
    v
}

// ---------------------------------------------------------------------------------------------------------------- P16
use hifitime::TimeScale as TS;
use nyx_space::io::ExportCfg;
use std::collections::HashMap;
const LONG: [(&str, MT); 4] = [("Range", MT::Range), ("Doppler", MT::Doppler), ("Azimuth", MT::Azimuth), ("Elevation", MT::Elevation)];
fn long(t: MT) -> String { LONG.iter().find(|x| x.1 == t).map(|x| x.0.to_string()).unwrap_or(format!("{t:?}")) }
fn hexv(x: f64) -> String { format!("{:016x}", x.to_bits()) }
fn rec16(a: &[Measurement], z: Epoch, snap: Option<&[Epoch]>) -> Vec<Value> {
    a.iter().map(|m| {
        let e = snap.and_then(|s| s.iter().find(|x| (**x - m.epoch).abs() < Duration::from_total_nanoseconds(200)).copied()).unwrap_or(m.epoch);
        json!({"t": ep(e, z), "trk": m.tracker, "d": m.data.iter().map(|(t, x)| json!([long(*t), hexv(*x)])).collect::<Vec<_>>()})
    }).collect()
}
fn value(r: &mut Rng64, t: MT) -> f64 {
    let (x, k) = (r.r(0.0, 1.0), r.u(4));
    match t { MT::Range => [x * 1e6, 0.0, 75660.0, x * 1e-3][k], MT::Doppler => [x * 20.0 - 10.0, 0.0, x * 1e-6, -x * 1e-6][k], MT::Azimuth => [x * 360.0, 0.0, 359.999999, x][k], _ => x * 95.0 - 5.0 }
}
impl Rng64 { fn pickf(&mut self, v: &[f64]) -> f64 { let k = self.u(v.len()); v[k] } }
fn near(a: &[Measurement], want: &[Measurement], alias: &HashMap<String, String>, tol: impl Fn(f64) -> f64) -> bool {
    a.iter().all(|m| (!m.data.is_empty() || want.iter().any(|w| w.data.is_empty())) && m.data.iter().all(|(t, x)| want.iter().any(|w| alias.get(&w.tracker).unwrap_or(&w.tracker) == &m.tracker && (w.epoch - m.epoch).abs() < Duration::from_total_nanoseconds(200) && w.data.get(t).is_some_and(|y| (x - y).abs() <= tol(*y)))))
}
fn r_comment(k: usize) -> &'static str { ["COMMENT nothing\n", "\n", "COMMENT RANGE = 2024-01-01T00:00:00 12.0\n", "COMMENT a = b\n"][k % 4] }
pub fn cases16(ctx: &Ctx) -> Vec<Case> {
    let mut v = vec![];
    let z = epoch0();
    struct Sp { id: String, arc: Vec<Measurement>, lo: Option<Epoch>, hi: Option<Epoch>, tdm: bool, snap: bool, alias: HashMap<String, String>, modulus: Option<f64> }
    let mut specs: Vec<Sp> = vec![];
    let st = (ctx.scen.len() / ctx.n(900, 12000)).max(1);
    for (i, s) in ctx.scen.iter().enumerate() {
        if i % st != (ctx.seed as usize) % st { continue; }
        let id = format!("scen{i}");
        let mut r = ctx.rng(&id);
        let arc = s["arc"].as_array().unwrap().iter().map(|m| {
            let mut q = Measurement::new(m["trk"].as_str().unwrap().into(), z + Duration::from_seconds(m["t"].as_f64().unwrap()));
            for d in m["d"].as_array().unwrap() { let t = LONG.iter().find(|x| x.0 == d.as_str().unwrap()).unwrap().1; q.data.insert(t, value(&mut r, t)); }
            q
        }).collect();
        let b = |x: &Value| x.as_array().unwrap().first().map(|t| z + Duration::from_seconds(t[0].as_f64().unwrap()));
        specs.push(Sp { id, arc, lo: b(&s["lo"]), hi: b(&s["hi"]), tdm: s["fmt"] == "tdm", snap: false, alias: HashMap::new(), modulus: None });
    }
    for i in 0..ctx.n(300, 6000) {
        let id = format!("rand{i}");
        let mut r = ctx.rng(&id);
        let ts = *r.pick(&[TS::UTC, TS::TAI, TS::GPST, TS::TT, TS::TDB, TS::ET, TS::UTC, TS::TAI]);
        let names = ["DSS-65 Madrid", "Canberra", "GS 3", "Ω station", "a_b.c"];
        let (k0, nt) = (r.u(5), 1 + r.u(3));
        let unit = *r.pick(&[1_000_000i128, 500_000_000, 1_000_000_000, 3_600_000_000_000]);
        let mut arc = TrackingDataArc::default();
        let n = 1 + r.u(25);
        for _ in 0..n {
            let t = (z + Duration::from_total_nanoseconds(unit * r.i(0, 30) as i128)).to_time_scale(ts);
            let mut m = Measurement::new(names[(k0 + r.u(nt)) % 5].to_string(), t);
            let (s, q) = (r.u(4), 1 + r.u(4));
            for k in 0..q { let ty = LONG[(s + k) % 4].1; let x = value(&mut r, ty); m.data.insert(ty, x); }
            arc.measurements.push(m);
        }
        arc.sort();
        let eps: Vec<Epoch> = arc.measurements.iter().map(|m| m.epoch).collect();
        let w = |r: &mut Rng64| if r.b() { None } else { let mut e = *r.pick(&eps); if r.u(3) == 0 { e += Duration::from_total_nanoseconds(*r.pick(&[1i128, -1, 1_000_000_000])); } Some(e) };
        let (lo, hi) = (w(&mut r), w(&mut r));
        let mut alias = HashMap::new();
        let tdm = r.b();
        if tdm && r.u(3) == 0 { alias.insert(names[k0].to_string(), (*r.pick(&["Renamed", "Renamed site 2"])).to_string()); }
        let modulus = if tdm && r.b() && arc.unique_types().contains(&MT::Range) { Some(r.pickf(&[75660.0, 1e5, 123.456, 0.25])) } else { None };
        specs.push(Sp { id, arc: arc.measurements, lo, hi, tdm, snap: matches!(ts, TS::TDB | TS::ET), alias, modulus });
    }
    for s in specs {
        let o = |e: Option<Epoch>| match e { Some(e) => json!([ep(e, z)]), None => json!([]) };
        let begin = json!({"arc": rec16(&s.arc, z, None), "lo": o(s.lo), "hi": o(s.hi), "alias": s.alias.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>(), "bad": false, "exact": !s.tdm});
        let path = ctx.scratch.join(format!("p16-{}.{}", s.id, if s.tdm { "tdm" } else { "parquet" }));
        v.push(case(s.id.clone(), begin, move |rec| {
            let mut arc = TrackingDataArc { measurements: s.arc.clone(), ..Default::default() };
            if let Some(m) = s.modulus { arc.set_moduli(MT::Range, m); }
            let mut cfg = ExportCfg::default();
            cfg.start_epoch = s.lo;
            cfg.end_epoch = s.hi;
            let eps: Vec<Epoch> = s.arc.iter().map(|m| m.epoch).collect();
            let held_range = s.arc.iter().any(|m| m.data.contains_key(&MT::Range) && s.lo.is_none_or(|l| l <= m.epoch) && s.hi.is_none_or(|h| m.epoch <= h));
            let got = if s.tdm {
                let al = if s.alias.is_empty() { None } else { Some(s.alias.clone()) };
                arc.clone().to_tdm_file("vehicle".into(), al, &path, cfg).and_then(|p| TrackingDataArc::from_tdm(p, None))
            } else { arc.to_parquet(&path, cfg).and_then(TrackingDataArc::from_parquet) };
            let _ = std::fs::remove_file(&path);
            match got {
                Err(e) => rec.ev("err", json!({"msg": format!("{e}")})),
                Ok(b) => {
                    let m = !s.tdm || !held_range || b.moduli.as_ref().and_then(|x| x.get(&MT::Range).copied()) == s.modulus;
                    let nr = near(&b.measurements, &s.arc, &s.alias, |_| 1e-12);
                    rec.ev("read", json!({"out": rec16(&b.measurements, z, if s.snap { Some(&eps) } else { None }), "near": nr, "mod": m}));
                }
            }
        }));
    }
    // Tracking data messages of others: any time system, one or two way paths, aliases, frequencies, corrections
    for i in 0..ctx.n(300, 4000) {
        let id = format!("text{i}");
        let mut r = ctx.rng(&id);
        let mut text = String::from("CCSDS_TDM_VERS = 2.0\nCREATION_DATE = 2024-01-01T00:00:00\nORIGINATOR = someone\n\n");
        let mut want: Vec<Measurement> = vec![];
        let mut alias = HashMap::new();
        let fq = i % 3 == 1;
        let nseg = if fq { 1 } else { 1 + r.u(3) };
        let corr = !fq && nseg == 1 && r.u(3) == 0;
        let freq = fq || (nseg == 1 && r.u(3) == 0);
        let bad = if r.u(if fq { 9 } else { 3 }) == 0 { 1 + r.u(9) } else { 0 };
        for k in 0..nseg {
            let ts = *r.pick(&[TS::UTC, TS::TAI, TS::GPST, TS::TT, TS::TDB]);
            let two = !corr && r.b();
            let name = format!("DSS {k}");
            let mut tsn = match ts { TS::UTC => "UTC", TS::TAI => "TAI", TS::GPST => "GPST", TS::TT => "TT", _ => "TDB" };
            if bad == 3 { tsn = "SCLK"; }
            text += &format!("META_START\nCOMMENT a comment\nTIME_SYSTEM = {tsn}\nPARTICIPANT_1 = {name}\nPARTICIPANT_2 = probe\nMODE = SEQUENTIAL\nPATH = {}\nRANGE_UNITS = km\nANGLE_TYPE = AZEL\n", if bad == 5 { "1,2,3,1" } else if two { "1,2,1" } else { "1,2" });
            let cr = r.r(-1.0, 1.0);
            if corr { text += &format!("CORRECTION_RANGE = {cr:.9}\nCORRECTIONS_APPLIED = {}\n", if i % 2 == 0 { "NO" } else { "YES" }); }
            let (num, den) = (r.i(1, 900), r.i(1, 900));
            if freq { text += &format!("TURNAROUND_NUMERATOR = {num}\nTURNAROUND_DENOMINATOR = {den}\n"); }
            text += "META_STOP\n\nDATA_START\n";
            let mut tx = 0.0;
            // a ramp: the transmitted frequency changes at this rate since then
            let ramps = r.b();
            let (mut slope, mut since) = (0.0, 0.0);
            for j in 0..1 + r.u(8) {
                let e = (z + Duration::from_total_nanoseconds(1_000_000_000 * (60 * j + 7 * k) as i128)).to_time_scale(ts);
                let (y, mo, d, h, mi, s, ns) = e.to_gregorian(ts);
                let es = format!("{y:04}-{mo:02}-{d:02}T{h:02}:{mi:02}:{s:02}.{ns:09}");
                let mut m = Measurement::new(name.clone(), e);
                if r.u(4) == 0 { m.tracker = format!("alias{k}"); }
                m.tracker = name.clone();
                if freq {
                    let now = (60 * j + 7 * k) as f64;
                    // received before anything was transmitted: no measurement can be made of it
                    if tx == 0.0 && r.u(4) == 0 { text += &format!("RECEIVE_FREQ_{} = {es} 2.1e9\n", 1 + r.u(5)); continue; }
                    tx += slope * (now - since);
                    since = now;
                    let mut lines = vec![];
                    if ramps && r.u(3) == 0 { slope = r.r(-2e3, 2e3).round(); lines.push(format!("TRANSMIT_FREQ_RATE_1 = {es} {slope:.3}\n")); }
                    if tx <= 0.0 || r.b() { tx = 2.1e9 + r.r(0.0, 1e6).round(); lines.push(format!("TRANSMIT_FREQ_1 = {es} {tx:.3}\n")); }
                    if lines.len() > 1 && r.b() { lines.reverse(); }
                    text += &lines.concat();
                    if !lines.is_empty() && r.u(4) == 0 { continue; }
                    let ratio = num as f64 / den as f64;
                    let rate = r.r(-8.0, 8.0);
                    let rx = tx * ratio * (1.0 - 2.0 * rate / 299_792.458);
                    text += &format!("RECEIVE_FREQ = {es} {rx:.6}\n");
                    m.data.insert(MT::Doppler, rate);
                    want.push(m);
                    continue;
                }
                let (s0, q) = (r.u(4), 1 + r.u(4));
                for kk in 0..q {
                    let ty = LONG[(s0 + kk) % 4].1;
                    let x = value(&mut r, ty);
                    let kw = match ty { MT::Range => "RANGE", MT::Doppler => *r.pick(&["DOPPLER_INTEGRATED", "DOPPLER_INSTANTANEOUS"]), MT::Azimuth => "ANGLE_1", _ => "ANGLE_2" };
                    let mut kw = kw.to_string();
                    let mut xs = format!("{x:.14e}");
                    let mut es = es.clone();
                    match bad { 1 => xs = "12,5".into(), 2 => es = "2024-13-45T00:00:00".into(), 4 => kw = "MAGNITUDE".into(), 6 => xs = "".to_string() + "abc", 7 => xs = String::new(), 8 => xs += " 1.0", _ => {} }
                    if r.u(6) == 0 { text += r_comment(kk); }
                    text += &if bad == 9 { format!("{kw} {es} {xs}\n") } else { format!("{kw} = {es} {xs}\n") };
                    let mut y = xs.parse::<f64>().unwrap_or(0.0) / if two { 2.0 } else { 1.0 };
                    if corr && i % 2 == 0 && ty == MT::Range { y += cr; }
                    m.data.insert(ty, y);
                }
                want.push(m);
            }
            text += "DATA_STOP\n\n";
            if r.u(3) == 0 { alias.insert(name.clone(), format!("Station {k}")); }
        }
        let mut wa = TrackingDataArc { measurements: want, ..Default::default() };
        wa.sort();
        let want = wa.measurements;
        let path = ctx.scratch.join(format!("p16-{id}.tdm"));
        let isbad = bad > 0 && !(freq && bad != 3 && bad != 5);
        let begin = json!({"arc": rec16(&want, z, None), "lo": [], "hi": [], "alias": alias.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>(), "bad": isbad, "exact": false});
        v.push(case(id, begin, move |rec| {
            std::fs::write(&path, &text).unwrap();
            let got = TrackingDataArc::from_tdm(&path, if alias.is_empty() { None } else { Some(alias.clone()) });
            let _ = std::fs::remove_file(&path);
            let eps: Vec<Epoch> = want.iter().map(|m| m.epoch).collect();
            match got {
                Err(e) => rec.ev("err", json!({"msg": format!("{e}")})),
                Ok(b) => { let nr = near(&b.measurements, &want, &alias, |y| if freq { 1e-5 } else { 1e-9 * y.abs().max(1.0) }); rec.ev("read", json!({"out": rec16(&b.measurements, z, Some(&eps)), "near": nr, "mod": true})); }
            }
        }));
    }
    // Parquet files which are not tracking arcs
    for i in 0..ctx.n(16, 200) {
        let id = format!("bad{i}");
        let mut r = ctx.rng(&id);
        let path = ctx.scratch.join(format!("p16-{id}.parquet"));
        let begin = json!({"arc": [], "lo": [], "hi": [], "alias": [], "bad": true, "exact": true});
        let kind = i % 8;
        let cut = r.r(0.0, 1.0);
        v.push(case(id, begin, move |rec| {
            use arrow::array::*;
            use arrow::datatypes::{DataType, Field, Schema};
            use std::sync::Arc;
            let good: ArrayRef = Arc::new(StringArray::from(vec!["2024-01-01T00:00:00", "2024-01-01T00:01:00"]));
            let badep: ArrayRef = Arc::new(StringArray::from(vec!["2024-01-01T00:00:00", "not an epoch"]));
            let f: ArrayRef = Arc::new(Float64Array::from(vec![1.0, 2.0]));
            let n: ArrayRef = Arc::new(StringArray::from(vec!["A", "B"]));
            let cols: Vec<(&str, ArrayRef)> = match kind {
                0 => vec![("Tracking device", n), ("Range (km)", f)],
                1 => vec![("Epoch (UTC)", good), ("Range (km)", f)],
                2 => vec![("Epoch (UTC)", good), ("Tracking device", n)],
                3 => vec![("Epoch (UTC)", badep), ("Tracking device", n), ("Range (km)", f)],
                4 => vec![("Epoch (UTC)", f.clone()), ("Tracking device", n), ("Range (km)", f)],
                5 => vec![("Epoch (UTC)", good), ("Tracking device", f.clone()), ("Doppler (km/s)", f)],
                6 => vec![("Epoch (UTC)", good), ("Tracking device", n.clone()), ("Elevation (deg)", n)],
                _ => vec![("Epoch (UTC)", good), ("Tracking device", n), ("Range (km)", f)],
            };
            let schema = Arc::new(Schema::new(cols.iter().map(|(k, a)| Field::new(*k, a.data_type().clone(), true)).collect::<Vec<_>>()));
            let _ = DataType::Utf8;
            let batch = RecordBatch::try_new(schema.clone(), cols.into_iter().map(|x| x.1).collect()).unwrap();
            let mut w = parquet::arrow::ArrowWriter::try_new(std::fs::File::create(&path).unwrap(), schema, None).unwrap();
            w.write(&batch).unwrap();
            w.close().unwrap();
            if kind == 7 { let b = std::fs::read(&path).unwrap(); let k = ((b.len() - 1) as f64 * cut) as usize; std::fs::write(&path, &b[..k]).unwrap(); }
            let got = TrackingDataArc::from_parquet(&path);
            let _ = std::fs::remove_file(&path);
            match got { Err(e) => rec.ev("err", json!({"msg": format!("{e}")})), Ok(b) => rec.ev("read", json!({"out": rec16(&b.measurements, z, None), "near": true, "mod": true})) }
        }));
    }
    v
}
