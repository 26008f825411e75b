//! P22: writing and reading configurations in YAML, ASN.1 DER and Dhall.
use crate::sc::*;
use crate::util::*;
use anise::analysis::prelude::OrbitalElement;
use anise::astro::{Aberration, Location, TerrainMask};
use anise::constants::frames::*;
use anise::ephemerides::ephemeris::LocalFrame;
use anise::prelude::*;
use anise::structure::planetocentric::ellipsoid::Ellipsoid;
use anise::structure::spacecraft::{DragData, Mass, SRPData};
use der::{Decode, Encode};
use hifitime::{Duration, Epoch, TimeScale, TimeUnits};
use indexmap::{IndexMap, IndexSet};
use nalgebra::Vector3;
use nyx_space::Spacecraft;
use nyx_space::cosmic::GuidanceMode;
use nyx_space::dynamics::guidance::*;
use nyx_space::dynamics::guidance::mnvr::ImpulsiveManeuver;
use nyx_space::dynamics::sequence::*;
use nyx_space::dynamics::*;
use nyx_space::io::gravity::GravityFieldConfig;
use nyx_space::io::{ConfigRepr, ExportCfg};
use nyx_space::mc::StateDispersion;
use nyx_space::md::StateParameter;
use nyx_space::md::objective::Objective;
use nyx_space::od::noise::*;
use nyx_space::od::position::PositionDevice;
use nyx_space::od::prelude::*;
use nyx_space::polyfit::CommonPolynomial;
use nyx_space::propagators::*;
use serde::{Serialize, de::DeserializeOwned};
use serde_dhall::StaticType;
use serde_json::{Value, json};
use std::collections::HashMap;
use std::fmt::Debug;

const TAG: &str = "garbage 77 units";
/// What a value shows: its debug text (letters sorted, as hash maps print in any order) and its JSON tree
fn show<T: Debug + Serialize>(x: &T) -> (Vec<u8>, Value) { let mut d = format!("{x:?}").into_bytes(); d.sort(); (d, serde_json::to_value(x).unwrap_or(Value::Null)) }
fn same<T: Debug + Serialize>(a: &T, b: &T) -> bool { show(a) == show(b) }
fn leaves(v: &serde_yml::Value) -> usize {
    use serde_yml::Value as Y;
    match v { Y::Mapping(m) => m.iter().map(|(_, x)| leaves(x)).sum(), Y::Sequence(s) => s.iter().map(leaves).sum(), Y::Tagged(t) => leaves(&t.value), _ => 1 }
}
fn damage(v: &mut serde_yml::Value, n: &mut usize) {
    use serde_yml::Value as Y;
    match v {
        Y::Mapping(m) => m.iter_mut().for_each(|(_, x)| damage(x, n)),
        Y::Sequence(s) => s.iter_mut().for_each(|x| damage(x, n)),
        Y::Tagged(t) => damage(&mut t.value, n),
        x => { if *n == 0 { *x = Y::String(TAG.into()); } *n = n.wrapping_sub(1); }
    }
}
fn yaml<T: Debug + Serialize + DeserializeOwned>(rec: &Rec, x: &T, dam: &str, r: &mut Rng64) {
    let Ok(txt) = serde_yml::to_string(x) else { rec.ev("rt", json!({"wrote": false, "read": false, "same": false, "stable": true})); return; };
    if std::env::var("SHOW_TEXT").is_ok() { eprintln!("{txt}"); }
    match dam {
        "none" => {
            let b = serde_yml::from_str::<T>(&txt);
            if std::env::var("SHOW_TEXT").is_ok() { eprintln!("{x:?}\n{b:?}"); }
            rec.ev("rt", json!({"wrote": true, "read": b.is_ok(), "same": b.map(|y| same(x, &y)).unwrap_or(false), "stable": true}));
        }
        "value" => {
            let Ok(mut v) = serde_yml::from_str::<serde_yml::Value>(&txt) else { return };
            let l = leaves(&v);
            if l == 0 { return; }
            damage(&mut v, &mut r.u(l));
            let bad = serde_yml::to_string(&v).unwrap();
            let b = serde_yml::from_str::<T>(&bad);
            let kept = b.as_ref().map(|y| serde_yml::to_string(y).map(|s| s.contains(TAG)).unwrap_or(false)).unwrap_or(false);
            if std::env::var("SHOW_TEXT").is_ok() { eprintln!("damaged: {bad}\n{b:?}"); }
            rec.ev("dam", json!({"err": b.is_err(), "kept": kept}));
        }
        _ => {}
    }
}
/// positions of the tags of all primitive elements of a DER text
fn tags(b: &[u8], from: usize, to: usize, out: &mut Vec<usize>) {
    let mut i = from;
    while i + 1 < to {
        let (mut len, mut hdr) = (b[i + 1] as usize, 2);
        if len >= 0x80 { let n = len & 0x7f; len = 0; for k in 0..n { len = len * 256 + b[i + 2 + k] as usize; } hdr += n; }
        if b[i] & 0x20 != 0 { tags(b, i + hdr, i + hdr + len, out); } else { out.push(i); }
        i += hdr + len;
    }
}
fn derr<T: Debug + Serialize + Encode + for<'a> Decode<'a>>(rec: &Rec, x: &T, dam: &str, r: &mut Rng64) {
    // the orbit of a spacecraft is coded by anise, which reads any number as a time scale
    let spacecraft = std::any::type_name::<T>().ends_with("Spacecraft");
    let mut buf = Vec::new();
    if let Err(e) = x.encode_to_vec(&mut buf) { let _ = e; rec.ev("rt", json!({"wrote": false, "read": false, "same": false, "stable": true})); return; }
    let stable = x.encoded_len().map(|l| u32::from(l) as usize == buf.len()).unwrap_or(false);
    let mut bad = buf.clone();
    match dam {
        "none" => {
            let b = T::from_der(&buf);
            if std::env::var("SHOW_TEXT").is_ok() { eprintln!("{x:?}\n{b:?}"); }
            rec.ev("rt", json!({"wrote": true, "read": b.is_ok(), "same": b.map(|y| same(x, &y)).unwrap_or(false), "stable": stable}));
            return;
        }
        "cut" => bad.truncate(r.u(buf.len())),
        "more" => bad.extend_from_slice(*r.pick(&[&[0x05u8, 0x00][..], &[0x02, 0x01, 0x07], &[0x01, 0x01, 0xff], &[0x00]])),
        _ => {
            let mut t = vec![];
            tags(&buf, 0, buf.len(), &mut t);
            let small: Vec<usize> = t.iter().copied().filter(|i| (buf[*i] == 2 || buf[*i] == 10) && buf[*i + 1] == 1).collect();
            if r.b() && !small.is_empty() && !spacecraft { bad[r.pick(&small) + 2] = *r.pick(&[0x63, 0x0c, 0x20]); } else { let i = *r.pick(&t); bad[i] = if buf[i] == 4 { 2 } else { 4 }; }
        }
    }
    if bad == buf { return; }
    let b = T::from_der(&bad);
    // accepted only as what it says: writing what was read gives the damaged text again, or the damage did not matter
    let kept = b.as_ref().map(|y| { let mut o = Vec::new(); y.encode_to_vec(&mut o).is_ok() && o == bad || same(x, y) && dam == "value" }).unwrap_or(false);
    if std::env::var("SHOW_TEXT").is_ok() { eprintln!("{buf:02x?}\n{bad:02x?}\n{b:?}"); }
    rec.ev("dam", json!({"err": b.is_err(), "kept": kept && dam == "value"}));
}
/// a parameter without payload, which serde_dhall does not write (it refuses tuple variants)
fn tuple_variant(v: &Value) -> bool {
    match v {
        Value::Object(m) => (m.len() == 1 && m.iter().all(|(k, x)| k != "perturbers" && *x == json!([]))) || m.values().any(tuple_variant),
        Value::Array(a) => a.iter().any(tuple_variant),
        _ => false,
    }
}
fn dhall<T: Debug + Serialize + DeserializeOwned + StaticType>(rec: &Rec, x: &T, dam: &str, r: &mut Rng64) {
    let w = serde_dhall::serialize(x).static_type_annotation().to_string();
    if std::env::var("SHOW_TEXT").is_ok() { match &w { Ok(t) => eprintln!("{t}"), Err(e) => eprintln!("{e}") } }
    let Ok(txt) = w else { if !tuple_variant(&show(x).1) { rec.ev("rt", json!({"wrote": false, "read": false, "same": false, "stable": true})); } return; };
    match dam {
        "none" => {
            let b = serde_dhall::from_str(&txt).parse::<T>();
            if std::env::var("SHOW_TEXT").is_ok() { eprintln!("{x:?}\n{b:?}"); }
            // with the type spelled out as well
            let c = serde_dhall::from_str(&txt).static_type_annotation().parse::<T>();
            rec.ev("rt", json!({"wrote": true, "read": b.is_ok() && c.is_ok(), "same": b.map(|y| same(x, &y)).unwrap_or(false) && c.map(|y| same(x, &y)).unwrap_or(false), "stable": true}));
        }
        "cut" => {
            let t = txt.trim();
            if !t.ends_with('}') { return; }
            let mut n = r.u(t.len());
            while !t.is_char_boundary(n) { n -= 1; }
            rec.ev("dam", json!({"err": serde_dhall::from_str(&t[..n]).parse::<T>().is_err(), "kept": false}));
        }
        "value" => {
            // one number replaced by a text
            let c: Vec<(usize, usize)> = nums(&txt);
            if c.is_empty() { return; }
            let (a, b) = *r.pick(&c);
            let bad = format!("{}\"{TAG}\"{}", &txt[..a], &txt[b..]);
            rec.ev("dam", json!({"err": serde_dhall::from_str(&bad).parse::<T>().is_err(), "kept": false}));
        }
        _ => {}
    }
}
fn nums(t: &str) -> Vec<(usize, usize)> {
    let b = t.as_bytes();
    let (mut out, mut i, mut quote) = (vec![], 0, false);
    while i < b.len() {
        if b[i] == b'"' { quote = !quote; }
        if !quote && b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
            let s = if i > 0 && (b[i - 1] == b'-' || b[i - 1] == b'+') { i - 1 } else { i };
            while i < b.len() && (b[i].is_ascii_digit() || b[i] == b'.' || b[i] == b'e' || b[i] == b'-' || b[i] == b'+') { i += 1; }
            out.push((s, i));
        } else { i += 1; }
    }
    out
}

struct G { r: Rng64, pat: Vec<bool>, used: usize }
impl G {
    fn opt(&mut self) -> bool { let v = self.pat[self.used % self.pat.len()]; self.used += 1; v }
    fn f(&mut self) -> f64 { match self.r.u(6) { 0 => 0.0, 1 => self.r.i(-50, 50) as f64, 2 => self.r.r(-1e9, 1e9), 3 => self.r.r(-1e-9, 1e-9), 4 => 10f64.powi(self.r.i(-12, 12) as i32), _ => self.r.r(-10.0, 10.0) } }
    fn pos(&mut self) -> f64 { self.f().abs() + 1e-3 }
    fn dur(&mut self) -> Duration { match self.r.u(4) { 0 => (self.r.i(0, 100_000_000_000) as f64 * 1e3).nanoseconds(), 1 => self.r.i(1, 100).minutes(), 2 => Duration::from_total_nanoseconds(self.r.i(1, 9_000_000_000_000_000) as i128), _ => self.r.i(1, 86400).seconds() } }
    fn epoch(&mut self) -> Epoch { let e = Epoch::from_gregorian_utc_hms(2000 + self.r.u(40) as i32, 1 + self.r.u(12) as u8, 1 + self.r.u(28) as u8, self.r.u(24) as u8, self.r.u(60) as u8, self.r.u(60) as u8) + Duration::from_total_nanoseconds(self.r.i(0, 999_999_999) as i128); match self.r.u(4) { 0 => e.to_time_scale(TimeScale::TAI), 1 => e.to_time_scale(TimeScale::TT), _ => e } }
    fn text(&mut self) -> String { (*self.r.pick(&["a", "DSS-65 Madrid", "yes", "1", "Canbérra: #1", "a \"quoted\" name", "  spaced ", "null", "-", "x\ty"])).to_string() }
    fn frame(&mut self) -> Frame {
        let mut f = *self.r.pick(&[EARTH_J2000, MOON_J2000, IAU_EARTH_FRAME, SUN_J2000]);
        f.force_inertial = self.r.u(4) == 0;
        if self.r.u(3) > 0 { f.mu_km3_s2 = Some(self.pos()); }
        if self.r.b() { f.shape = Some(Ellipsoid { semi_major_equatorial_radius_km: self.pos(), semi_minor_equatorial_radius_km: self.pos(), polar_radius_km: self.pos() }); }
        if self.r.u(4) == 0 { f.frozen_epoch = Some(self.epoch()); }
        f
    }
    fn local(&mut self) -> LocalFrame { *self.r.pick(&[LocalFrame::Inertial, LocalFrame::RIC, LocalFrame::VNC, LocalFrame::RCN]) }
    fn vec(&mut self) -> Vector3<f64> { Vector3::new(self.f(), self.f(), self.f()) }
    fn mass(&mut self) -> Mass { Mass { dry_mass_kg: self.pos(), prop_mass_kg: self.pos(), extra_mass_kg: self.pos() } }
    fn srp(&mut self) -> SRPData { SRPData { area_m2: self.pos(), coeff_reflectivity: self.pos() } }
    fn drag(&mut self) -> DragData { DragData { area_m2: self.pos(), coeff_drag: self.pos() } }
    fn thruster(&mut self) -> Thruster { Thruster { thrust_N: self.pos(), isp_s: self.pos() } }
    fn sc(&mut self, dir: bool) -> Spacecraft {
        let e = self.epoch();
        let mut o = rand_orbit(&mut self.r, e);
        o.frame = self.frame();
        let (mass, srp, drag) = (self.mass(), self.srp(), self.drag());
        let mut s = Spacecraft::builder().orbit(o).mass(mass).srp(srp).drag(drag).build();
        if self.opt() { s.thruster = Some(self.thruster()); }
        if dir && self.opt() { s.thrust_direction = Some(self.vec().into()); }
        s.mode = *self.r.pick(&[GuidanceMode::Coast, GuidanceMode::Thrust, GuidanceMode::Inhibit]);
        s
    }
    fn white(&mut self) -> WhiteNoise { WhiteNoise { mean: self.f(), sigma: self.pos() } }
    fn gm(&mut self) -> GaussMarkov { let mut g = GaussMarkov::new(self.dur() + 1.seconds(), self.pos()).unwrap(); if self.opt() { g.constant = Some(self.f()); } g }
    fn noise(&mut self) -> StochasticNoise { StochasticNoise { white_noise: if self.opt() { Some(self.white()) } else { None }, bias: if self.opt() { Some(self.gm()) } else { None } } }
    fn msr(&mut self) -> MeasurementType { use MeasurementType as M; *self.r.pick(&[M::Range, M::Doppler, M::Azimuth, M::Elevation, M::ReceiveFrequency, M::TransmitFrequency, M::TransmitFrequencyRate, M::X, M::Y, M::Z]) }
    fn noises(&mut self) -> IndexMap<MeasurementType, StochasticNoise> { let mut m = IndexMap::new(); for _ in 0..self.r.u(4) { let k = self.msr(); m.insert(k, self.noise()); } m }
    fn types(&mut self) -> IndexSet<MeasurementType> { let mut m = IndexSet::new(); for _ in 0..self.r.u(5) { m.insert(self.msr()); } m }
    fn gs(&mut self) -> GroundStation {
        let mut uid: anise::frames::FrameUid = IAU_EARTH_FRAME.into();
        if self.r.u(4) == 0 { uid.frozen_epoch = Some(self.epoch()); }
        uid.force_inertial = self.r.b();
        let mut mask = vec![];
        for k in 0..self.r.u(4) { mask.push(TerrainMask { azimuth_deg: 90.0 * k as f64, elevation_mask_deg: self.r.r(0.0, 30.0) }); }
        GroundStation { name: self.text(), location: Location { latitude_deg: self.r.r(-90.0, 90.0), longitude_deg: self.r.r(0.0, 360.0), height_km: self.f(), frame: uid, terrain_mask: mask, terrain_mask_ignored: self.r.b() },
            measurement_types: self.types(), integration_time: if self.opt() { Some(self.dur()) } else { None }, light_time_correction: self.r.b(),
            timestamp_noise_s: if self.opt() { Some(self.noise()) } else { None }, stochastic_noises: if self.opt() { Some(self.noises()) } else { None } }
    }
    fn cadence(&mut self) -> Cadence { if self.opt() { Cadence::Intermittent { on: self.dur(), off: self.dur() } } else { Cadence::Continuous } }
    fn sched(&mut self) -> Scheduler { let mut s = Scheduler::builder().handoff(*self.r.pick(&[Handoff::Eager, Handoff::Greedy, Handoff::Overlap])).cadence(self.cadence()).min_samples(self.r.u(5000) as u32).build(); s.sample_alignment = if self.opt() { Some(self.dur()) } else { None }; s }
    fn strand(&mut self) -> Strand { Strand { start: self.epoch(), end: self.epoch() } }
    fn trk(&mut self) -> TrkConfig { TrkConfig { scheduler: if self.opt() { Some(self.sched()) } else { None }, sampling: self.dur(), strands: if self.opt() { Some((0..self.r.u(4)).map(|_| self.strand()).collect()) } else { None } } }
    fn param(&mut self) -> StateParameter {
        use StateParameter as S;
        match self.r.u(4) {
            0 => S::Element(*self.r.pick(&[OrbitalElement::SemiMajorAxis, OrbitalElement::RAAN, OrbitalElement::Eccentricity, OrbitalElement::VZ, OrbitalElement::Declination])),
            1 => S::ThrustInPlane(self.local()),
            2 => S::ThrustOutOfPlane(self.local()),
            _ => *self.r.pick(&[S::BdotR(), S::BdotT(), S::BLTOF(), S::Cd(), S::Cr(), S::DryMass(), S::Epoch(), S::GuidanceMode(), S::Isp(), S::PropMass(), S::ThrustX(), S::ThrustY(), S::ThrustZ(), S::Thrust(), S::TotalMass()]),
        }
    }
    fn objective(&mut self) -> Objective { Objective { parameter: self.param(), desired_value: self.f(), tolerance: self.pos(), multiplicative_factor: self.f(), additive_factor: self.f() } }
    fn poly(&mut self) -> CommonPolynomial { match self.r.u(3) { 0 => CommonPolynomial::Constant { a: self.f() }, 1 => CommonPolynomial::Linear { a: self.f(), b: self.f() }, _ => CommonPolynomial::Quadratic { a: self.f(), b: self.f(), c: self.f() } } }
    fn mnvr(&mut self) -> Maneuver { let representation = if self.opt() { MnvrRepr::Vector(self.vec()) } else { MnvrRepr::Angles { azimuth: self.poly(), elevation: self.poly() } }; Maneuver { start: self.epoch(), end: self.epoch(), thrust_prct: self.f(), representation, frame: self.local() } }
    fn impulse(&mut self) -> ImpulsiveManeuver { ImpulsiveManeuver { local_frame: self.local(), dv_km_s: self.vec() } }
    fn opts(&mut self) -> IntegratorOptions { IntegratorOptions { init_step: self.dur(), min_step: self.dur(), max_step: self.dur(), tolerance: self.pos(), attempts: self.r.u(256) as u8, fixed_step: self.r.b(), error_ctrl: *self.r.pick(&[ErrorControl::RSSCartesianState, ErrorControl::RSSCartesianStep, ErrorControl::RSSState, ErrorControl::RSSStep, ErrorControl::LargestError, ErrorControl::LargestState, ErrorControl::LargestStep]), integration_frame: if self.opt() { Some(self.frame()) } else { None } } }
    fn props(&mut self) -> PhysicalProperties { PhysicalProperties { mass: if self.opt() { Some(self.mass()) } else { None }, srp: if self.opt() { Some(self.srp()) } else { None }, drag: if self.opt() { Some(self.drag()) } else { None } } }
    fn event(&mut self) -> DiscreteEvent {
        match self.r.u(3) {
            0 => DiscreteEvent::Staging { impulsive_maneuver: if self.opt() { Some(self.impulse()) } else { None }, decrement_properties: if self.opt() { Some(self.props()) } else { None } },
            1 => DiscreteEvent::Docking { impulsive_maneuver: if self.opt() { Some(self.impulse()) } else { None }, increment_properties: if self.opt() { Some(self.props()) } else { None } },
            _ => DiscreteEvent::FrameSwap { new_frame: self.frame() },
        }
    }
    fn guidance(&mut self) -> GuidanceConfig {
        let law = match self.r.u(3) {
            0 => SteeringLaw::FiniteBurn(self.mnvr()),
            1 => SteeringLaw::Kluever { objectives: (0..self.r.u(3)).map(|_| ObjectiveWeight { objective: self.objective(), weight: self.f() }).collect(), max_eclipse_prct: if self.opt() { Some(self.f()) } else { None } },
            _ => SteeringLaw::Ruggiero { objectives: (0..self.r.u(3)).map(|_| ObjectiveEfficiency { objective: self.objective(), efficiency: self.f() }).collect(), max_eclipse_prct: if self.opt() { Some(self.f()) } else { None } },
        };
        GuidanceConfig { thruster_model: self.text(), disable_prop_mass: self.r.b(), law }
    }
    fn gravity(&mut self) -> GravityFieldConfig { let f = self.frame(); GravityFieldConfig { degree: self.r.u(100), order: self.r.u(100), filepath: "data/01_planetary/JGM3.cof.gz".into(), gunzipped: self.r.b(), frame: f.into() } }
    fn prop(&mut self) -> PropagatorConfig {
        let perturbers = |g: &mut G| (0..g.r.u(3)).map(|_| TidalPerturber { frame: g.frame(), compute_degree_3: g.r.b() }).collect();
        let point_masses = if self.opt() { Some(PointMasses::with_correction(vec![301, -74, 10][..self.r.u(4)].to_vec(), if self.opt() { Some(Aberration { converged: self.r.b(), stellar: self.r.b(), transmit_mode: self.r.b() }) } else { None })) } else { None };
        let gravity_field = if self.opt() { Some(self.gravity()) } else { None };
        let solid_tides = if self.opt() { Some(SolidTides { frame: self.frame(), k2: self.f(), k3: self.f(), perturbers: perturbers(self) }) } else { None };
        let solar_pressure = if self.opt() { Some(SolarPressure { phi: self.pos(), estimate: self.r.b(), shadow_model: nyx_space::cosmic::eclipse::ShadowModel { light_source: self.frame(), shadow_bodies: (0..self.r.u(3)).map(|_| self.frame()).collect() } }) } else { None };
        let drag = if self.opt() { Some(Drag { density: match self.r.u(3) { 0 => AtmDensity::Constant(self.pos()), 1 => AtmDensity::Exponential { rho0: self.pos(), r0: self.pos(), ref_alt_m: self.pos() }, _ => AtmDensity::StdAtm { max_alt_m: self.pos() } }, frame: self.frame(), estimate: self.r.b() }) } else { None };
        PropagatorConfig { dynamics: nyx_space::dynamics::sequence::Dynamics { accel_models: AccelModels { point_masses, gravity_field, solid_tides }, force_models: ForceModels { solar_pressure, drag } }, method: *self.r.pick(&METHODS), options: self.opts() }
    }
    fn phase(&mut self) -> Phase {
        let guidance = if self.opt() { Some(Box::new(self.guidance())) } else { None };
        let on_entry = if self.opt() { Some(Box::new(self.event())) } else { None };
        if self.r.u(8) == 0 { return Phase::Terminate; }
        Phase::Activity { name: self.text(), propagator: self.text(), guidance, on_entry, disabled: self.r.b() }
    }
    fn seq(&mut self) -> SpacecraftSequence {
        let mut s = SpacecraftSequence::default();
        for _ in 0..self.r.u(3) { let (k, v) = (self.text(), self.thruster()); s.thruster_sets.insert(k, v); }
        for _ in 0..self.r.u(3) { let (k, v) = (self.text(), self.prop()); s.propagators.insert(k, v); }
        for _ in 0..self.r.u(4) {
            let p = self.phase();
            s.seq.insert(self.epoch(), p);
        }
        s.seq.insert(self.epoch(), Phase::Terminate);
        s
    }
    fn export(&mut self) -> ExportCfg {
        let mut c = ExportCfg::default();
        if self.opt() { c.fields = Some((0..self.r.u(4)).map(|_| self.param()).collect()); }
        if self.opt() { c.start_epoch = Some(self.epoch()); }
        if self.opt() { c.end_epoch = Some(self.epoch()); }
        if self.opt() { c.step = Some(self.dur()); }
        if self.r.b() { c.metadata = Some(HashMap::from([(self.text(), self.text())])); }
        c.timestamp = self.r.b();
        c
    }
}
const YAML: [&str; 24] = ["Spacecraft", "GroundStation", "TrkConfig", "Scheduler", "Strand", "GaussMarkov", "StochasticNoise", "WhiteNoise", "PositionDevice", "SigmaRejection", "IntegratorOptions", "Maneuver", "ImpulsiveManeuver", "StateDispersion", "Objective",
    "ExportCfg", "PropagatorConfig", "GravityFieldConfig", "GuidanceConfig", "DiscreteEvent", "SpacecraftSequence", "StateParameter", "MeasurementType", "Thruster"];
const DER: [&str; 10] = ["Spacecraft", "GroundStation", "TrkConfig", "Scheduler", "Strand", "Cadence", "GaussMarkov", "StochasticNoise", "Thruster", "MeasurementType"];
const DHALL: [&str; 9] = ["IntegratorOptions", "Maneuver", "ImpulsiveManeuver", "Objective", "PropagatorConfig", "GuidanceConfig", "DiscreteEvent", "SpacecraftSequence", "StateParameter"];
macro_rules! run { ($f:ident, $rec:expr, $g:expr, $dam:expr, $v:expr) => {{ let v = $v; $f($rec, &v, $dam, &mut $g.r) }} }
fn go(rec: &Rec, ty: &str, fmt: &str, dam: &str, g: &mut G) {
    match (fmt, ty) {
        ("yaml", "Spacecraft") => run!(yaml, rec, g, dam, g.sc(true)),
        ("yaml", "GroundStation") => run!(yaml, rec, g, dam, g.gs()),
        ("yaml", "TrkConfig") => run!(yaml, rec, g, dam, g.trk()),
        ("yaml", "Scheduler") => run!(yaml, rec, g, dam, g.sched()),
        ("yaml", "Strand") => run!(yaml, rec, g, dam, g.strand()),
        ("yaml", "GaussMarkov") => run!(yaml, rec, g, dam, g.gm()),
        ("yaml", "StochasticNoise") => run!(yaml, rec, g, dam, g.noise()),
        ("yaml", "WhiteNoise") => run!(yaml, rec, g, dam, g.white()),
        ("yaml", "PositionDevice") => run!(yaml, rec, g, dam, PositionDevice { name: g.text(), stochastic_noises: if g.opt() { Some(g.noises()) } else { None }, measurement_types: g.types() }),
        ("yaml", "SigmaRejection") => run!(yaml, rec, g, dam, SigmaRejection { num_sigmas: g.f() }),
        ("yaml", "IntegratorOptions") => run!(yaml, rec, g, dam, g.opts()),
        ("yaml", "Maneuver") => run!(yaml, rec, g, dam, g.mnvr()),
        ("yaml", "ImpulsiveManeuver") => run!(yaml, rec, g, dam, g.impulse()),
        ("yaml", "StateDispersion") => run!(yaml, rec, g, dam, StateDispersion { param: g.param(), mean: if g.opt() { Some(g.f()) } else { None }, std_dev: if g.opt() { Some(g.f()) } else { None } }),
        ("yaml", "Objective") => run!(yaml, rec, g, dam, g.objective()),
        ("yaml", "ExportCfg") => run!(yaml, rec, g, dam, g.export()),
        ("yaml", "PropagatorConfig") => run!(yaml, rec, g, dam, g.prop()),
        ("yaml", "GravityFieldConfig") => run!(yaml, rec, g, dam, g.gravity()),
        ("yaml", "GuidanceConfig") => run!(yaml, rec, g, dam, g.guidance()),
        ("yaml", "DiscreteEvent") => run!(yaml, rec, g, dam, g.event()),
        ("yaml", "SpacecraftSequence") => run!(yaml, rec, g, dam, g.seq()),
        ("yaml", "StateParameter") => run!(yaml, rec, g, dam, g.param()),
        ("yaml", "MeasurementType") => run!(yaml, rec, g, dam, g.msr()),
        ("yaml", "Thruster") => run!(yaml, rec, g, dam, g.thruster()),
        ("der", "Spacecraft") => run!(derr, rec, g, dam, g.sc(false)),
        ("der", "GroundStation") => run!(derr, rec, g, dam, g.gs()),
        ("der", "TrkConfig") => run!(derr, rec, g, dam, g.trk()),
        ("der", "Scheduler") => run!(derr, rec, g, dam, g.sched()),
        ("der", "Strand") => run!(derr, rec, g, dam, g.strand()),
        ("der", "Cadence") => run!(derr, rec, g, dam, g.cadence()),
        ("der", "GaussMarkov") => run!(derr, rec, g, dam, g.gm()),
        ("der", "StochasticNoise") => run!(derr, rec, g, dam, g.noise()),
        ("der", "Thruster") => run!(derr, rec, g, dam, g.thruster()),
        ("der", "MeasurementType") => run!(derr, rec, g, dam, g.msr()),
        ("dhall", "IntegratorOptions") => run!(dhall, rec, g, dam, g.opts()),
        ("dhall", "Maneuver") => run!(dhall, rec, g, dam, g.mnvr()),
        ("dhall", "ImpulsiveManeuver") => run!(dhall, rec, g, dam, g.impulse()),
        ("dhall", "Objective") => run!(dhall, rec, g, dam, g.objective()),
        ("dhall", "PropagatorConfig") => run!(dhall, rec, g, dam, g.prop()),
        ("dhall", "GuidanceConfig") => run!(dhall, rec, g, dam, g.guidance()),
        ("dhall", "DiscreteEvent") => run!(dhall, rec, g, dam, g.event()),
        ("dhall", "SpacecraftSequence") => run!(dhall, rec, g, dam, g.seq()),
        ("dhall", "StateParameter") => run!(dhall, rec, g, dam, g.param()),
        _ => rec.ev("no-such-type", json!({})),
    }
}
fn file<T: ConfigRepr>(rec: &Rec, dir: &std::path::Path, n: usize, mut make: impl FnMut() -> T) {
    let _ = std::fs::create_dir_all(dir);
    let xs: Vec<T> = (0..n).map(|_| make()).collect();
    let names: Vec<String> = (0..n).map(|k| format!("item {k}")).collect();
    let (one, many, named) = (dir.join("one.yaml"), dir.join("many.yaml"), dir.join("named.yaml"));
    std::fs::write(&one, serde_yml::to_string(&xs[0]).unwrap()).unwrap();
    std::fs::write(&many, serde_yml::to_string(&xs).unwrap()).unwrap();
    std::fs::write(&named, serde_yml::to_string(&names.iter().zip(xs.iter()).collect::<std::collections::BTreeMap<_, _>>()).unwrap()).unwrap();
    let eq = |got: Vec<T>| got.len() == n && got.iter().zip(&xs).all(|(a, b)| same(a, b));
    let good = T::load(&one).map(|y| same(&y, &xs[0])).unwrap_or(false)
        && T::load_many(&many).map(&eq).unwrap_or(false)
        && T::load_named(&named).map(|m| m.keys().cloned().collect::<Vec<_>>() == names && eq(m.into_values().collect())).unwrap_or(false)
        && T::loads_many(&std::fs::read_to_string(&many).unwrap()).map(&eq).unwrap_or(false)
        && T::loads_named(&std::fs::read_to_string(&named).unwrap()).map(|m| eq(m.into_values().collect())).unwrap_or(false);
    let no = dir.join("none.yaml");
    std::fs::write(dir.join("bad.yaml"), "a: [1, 2\nb: }").unwrap();
    let bad = dir.join("bad.yaml");
    let missing = T::load(&no).is_err() && T::load_many(&no).is_err() && T::load_named(&no).is_err() && T::load(&bad).is_err() && T::load_many(&bad).is_err() && T::load_named(&bad).is_err();
    rec.ev("file", json!({"same": good, "missing": missing}));
    let _ = std::fs::remove_dir_all(dir);
}

pub fn cases(cx: &Ctx) -> Vec<Case> {
    let mut out = vec![];
    let all: Vec<(&str, &str)> = YAML.iter().map(|t| ("yaml", *t)).chain(DER.iter().map(|t| ("der", *t))).chain(DHALL.iter().map(|t| ("dhall", *t))).collect();
    let reps = cx.n(1, 12);
    for rep in 0..reps {
        for (fmt, ty) in &all {
            // every pattern of optional fields that the model enumerates, with every damage
            for s in &cx.scen {
                let pat: Vec<bool> = s["pat"].as_array().unwrap().iter().map(|b| b.as_bool().unwrap()).collect();
                let dam = s["dam"].as_str().unwrap().to_string();
                if (*fmt == "yaml" && (dam == "cut" || dam == "more")) || (*fmt == "dhall" && dam == "more") { continue; }
                // (a sequence is never written in Dhall: known finding sequence-dhall)
                if *fmt == "dhall" && *ty == "SpacecraftSequence" && (dam != "none" || pat.iter().any(|b| *b)) { continue; }
                if *fmt == "dhall" && s["style"] == "mask" && !cx.thorough { continue; }
                let bits: String = pat.iter().map(|b| if *b { '1' } else { '0' }).collect();
                let id = format!("{fmt}-{ty}-{dam}-{bits}-{}-{rep}", s["style"].as_str().unwrap());
                let (fmt, ty) = (fmt.to_string(), ty.to_string());
                let r = cx.rng(&id);
                let kf = if fmt == "dhall" && ty == "SpacecraftSequence" { "sequence-dhall" } else { "" };
                out.push(case(&id, json!({"ty": ty, "fmt": fmt, "kf": kf}), move |rec| { let mut g = G { r, pat, used: 0 }; go(rec, &ty, &fmt, &dam, &mut g); }));
            }
        }
        for k in 0..6 {
            let id = format!("file-{k}-{rep}");
            let r = cx.rng(&id);
            let dir = cx.scratch.join(&id);
            out.push(case(&id, json!({"ty": "file", "fmt": "file"}), move |rec| {
                let mut g = G { r, pat: vec![true, false, true], used: k };
                let n = 1 + g.r.u(4);
                match k { 0 => file(rec, &dir, n, || g.sc(true)), 1 => file(rec, &dir, n, || g.gs()), 2 => file(rec, &dir, n, || g.trk()), 3 => file(rec, &dir, n, || g.gm()), 4 => file(rec, &dir, n, || SigmaRejection { num_sigmas: g.f() }), _ => file(rec, &dir, n, || g.trk()) }
            }));
        }
    }
    out
}
