//! Runs histories of self-checks on simulated lens models, sound ones and ones with a single fault,
//! and judges every verdict against what is known about the model (C12).
use crate::plan::*;
use crate::runner::{silence, Runner};
use cam_geom::coordinate_system::CameraFrame;
use cam_geom::ray_bundle_types::{SharedDirectionRayBundle, SharedOriginRayBundle};
use cam_geom::{
    Bundle, IntrinsicParameters, IntrinsicParametersOrthographic, IntrinsicParametersPerspective, OrthographicParams, PerspectiveParams, Pixels,
    Points, RayBundle,
};
use camsd::spec::F;
use nalgebra::allocator::Allocator;
use nalgebra::storage::{Owned, Storage};
use nalgebra::{DefaultAllocator, Dim, OMatrix, RealField, U1, U2, U3};
use serde::{Deserialize, Serialize};
use simcore::engine::rec;
use simcore::proc::{child, Exit};
use simcore::rng::{mix, Rng};
use simcore::shared::{ctr, fk};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Base {
    /// rays through (u, v, 1) from a shared origin
    ExactO,
    /// parallel rays from (u, v, 0)
    ExactD,
    /// this crate's models
    Persp([F; 5]),
    Ortho([F; 4]),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum What {
    /// deviation in units of the tolerance, per coordinate
    Off(F, F),
    /// invalid or infinite values, per coordinate (0 leaves it alone)
    Bad(u8, u8),
    /// the other coordinate's value
    Swap,
    /// the model panics
    Panic,
}

/// A fault of the model at one pixel.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Fault {
    pub col: u32,
    pub row: u32,
    pub what: What,
    /// in casting the ray instead of projecting the point
    pub cast: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Ck {
    pub single: bool,
    pub base: Base,
    pub w: u32,
    pub h: u32,
    pub step: u32,
    pub border: u32,
    pub eps: F,
    /// every answer deviates by up to this part of the tolerance (below 1)
    #[serde(default, skip_serializing_if = "is_zero")]
    pub noise: f64,
    /// rays are cast through shifted pixels and projections shifted back
    #[serde(default, skip_serializing_if = "is_zero")]
    pub cancel: f64,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub fault: Option<Fault>,
    /// the model runs another self-check while it answers
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub nested: Option<usize>,
    #[serde(default)]
    pub nested_cast: bool,
}
fn is_zero(x: &f64) -> bool {
    *x == 0.0
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Selfcheck {
    pub models: Vec<Ck>,
    /// the models in the order in which they are checked
    pub order: Vec<usize>,
}

impl Ck {
    fn grid(&self, col: i64, row: i64) -> bool {
        let ok = |x: i64, n: u32| {
            x >= self.border as i64 && x < n as i64 - self.border as i64 && (x - self.border as i64) % self.step as i64 == 0
        };
        ok(col, self.w) && ok(row, self.h)
    }
    /// Bound on what rounding adds to a round trip of the underlying model.
    fn rounding(&self) -> f64 {
        let mut s = (self.w + self.h) as f64;
        match &self.base {
            Base::Persp(k) => s += k.iter().map(|x| x.0.abs()).sum::<f64>(),
            Base::Ortho(k) => s += k.iter().map(|x| x.0.abs()).sum::<f64>(),
            _ => {}
        }
        64.0 * s * if self.single { f32::EPSILON as f64 } else { f64::EPSILON }
    }
    /// Whether the check has to pass. None: too close to the tolerance to say.
    fn sound(&self) -> Option<bool> {
        let e = self.eps.0;
        if !(e >= 20.0 * self.rounding()) {
            return None;
        }
        let Some(f) = &self.fault else { return Some(true) };
        if !self.grid(f.col as i64, f.row as i64) {
            return Some(true);
        }
        let off = match f.what {
            What::Off(a, b) => a.0.abs().max(b.0.abs()),
            What::Bad(a, b) if a == 0 && b == 0 => 0.0,
            What::Bad(..) | What::Panic => return Some(false),
            What::Swap => (f.col as f64 - f.row as f64).abs() / e,
        };
        if off + self.noise <= 0.93 {
            Some(true)
        } else if off - self.noise >= 1.07 {
            Some(false)
        } else {
            None
        }
    }
}

trait Num: RealField + Copy {
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
}
impl Num for f64 {
    fn of(x: f64) -> f64 {
        x
    }
    fn f(self) -> f64 {
        self
    }
}
impl Num for f32 {
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
}

/// The simulated model.
struct Sim<'a, B> {
    ck: &'a Ck,
    nest: &'a dyn Fn(),
    nested: Cell<bool>,
    /// pixels of the image that were tried
    seen: RefCell<Vec<u64>>,
    _b: std::marker::PhantomData<B>,
}

impl<B> Sim<'_, B> {
    fn hash(&self, u: f64, v: f64, j: u64) -> f64 {
        let h = mix(mix(u.round() as i64 as u64 ^ 0xABCD) ^ (v.round() as i64 as u64) ^ j << 40);
        (h >> 11) as f64 / (1u64 << 53) as f64 * 2.0 - 1.0
    }
    fn at(&self, u: f64, v: f64, cast: bool) -> Option<What> {
        let f = self.ck.fault?;
        (f.cast == cast && (u - f.col as f64).abs() < 0.5 && (v - f.row as f64).abs() < 0.5).then_some(f.what)
    }
    fn faulty(&self, u: f64, v: f64, cast: bool) -> (f64, f64) {
        let Some(w) = self.at(u, v, cast) else { return (u, v) };
        rec().ctr[ctr::MODEL_GARBAGE] += 1;
        let bad = |x: f64, k: u8| match k {
            0 => x,
            1 => f64::NAN,
            2 => f64::INFINITY,
            3 => f64::NEG_INFINITY,
            _ => -f64::NAN,
        };
        match w {
            What::Off(a, b) => (u + a.0 * self.ck.eps.0, v + b.0 * self.ck.eps.0),
            What::Bad(a, b) => (bad(u, a), bad(v, b)),
            What::Swap => (v, u),
            What::Panic => std::panic::panic_any("the model gave up"),
        }
    }
    fn cast(&self, u: f64, v: f64) -> (f64, f64) {
        let (c, r) = (u.round(), v.round());
        if c >= 0.0 && r >= 0.0 && c < self.ck.w as f64 && r < self.ck.h as f64 {
            let k = r as usize * self.ck.w as usize + c as usize;
            self.seen.borrow_mut()[k / 64] |= 1 << (k % 64);
        }
        let (a, b) = self.faulty(u, v, true);
        (a + self.ck.cancel, b - self.ck.cancel)
    }
    fn project(&self, u: f64, v: f64) -> (f64, f64) {
        let (u, v) = (u - self.ck.cancel, v + self.ck.cancel);
        let (mut a, mut b) = self.faulty(u, v, false);
        if self.ck.noise != 0.0 {
            let n = self.ck.noise * self.ck.eps.0;
            a += n * self.hash(u, v, 0);
            b += n * self.hash(u, v, 1);
        }
        (a, b)
    }
    fn interrupt(&self, cast: bool) {
        if self.ck.nested_cast == cast && !self.nested.replace(true) {
            (self.nest)();
        }
    }
}

fn persp<R: Num>(k: &[F; 5]) -> IntrinsicParametersPerspective<R> {
    PerspectiveParams { fx: R::of(k[0].0), fy: R::of(k[1].0), skew: R::of(k[2].0), cx: R::of(k[3].0), cy: R::of(k[4].0) }.into()
}
fn ortho<R: Num>(k: &[F; 4]) -> IntrinsicParametersOrthographic<R> {
    OrthographicParams { sx: R::of(k[0].0), sy: R::of(k[1].0), cx: R::of(k[2].0), cy: R::of(k[3].0) }.into()
}

/// How bundles of the kind are made, and rows of their data for one pixel.
trait Kind<R: Num>: Bundle<R> + Sized {
    fn bundle<N: Dim>(d: OMatrix<R, N, U3>) -> RayBundle<CameraFrame, Self, R, N, Owned<R, N, U3>>
    where
        DefaultAllocator: Allocator<N, U3>;
    fn ray(base: &Base, u: R, v: R) -> [R; 3];
    fn pixel(base: &Base, p: [R; 3]) -> [R; 2];
}
fn one_px<R: Num>(u: R, v: R) -> Pixels<R, U1, Owned<R, U1, U2>> {
    Pixels::new(nalgebra::SMatrix::<R, 1, 2>::new(u, v))
}
fn one_pt<R: Num>(p: [R; 3]) -> Points<CameraFrame, R, U1, Owned<R, U1, U3>> {
    Points::new(nalgebra::SMatrix::<R, 1, 3>::new(p[0], p[1], p[2]))
}
impl<R: Num> Kind<R> for SharedOriginRayBundle<R> {
    fn bundle<N: Dim>(d: OMatrix<R, N, U3>) -> RayBundle<CameraFrame, Self, R, N, Owned<R, N, U3>>
    where
        DefaultAllocator: Allocator<N, U3>,
    {
        RayBundle::new_shared_zero_origin(d)
    }
    fn ray(base: &Base, u: R, v: R) -> [R; 3] {
        if let Base::Persp(k) = base {
            let d = persp::<R>(k).pixel_to_camera(&one_px(u, v)).data;
            [d[(0, 0)], d[(0, 1)], d[(0, 2)]]
        } else {
            [u, v, R::one()]
        }
    }
    fn pixel(base: &Base, p: [R; 3]) -> [R; 2] {
        if let Base::Persp(k) = base {
            let d = persp::<R>(k).camera_to_pixel(&one_pt(p)).data;
            [d[(0, 0)], d[(0, 1)]]
        } else {
            [p[0] / p[2], p[1] / p[2]]
        }
    }
}
impl<R: Num> Kind<R> for SharedDirectionRayBundle<R> {
    fn bundle<N: Dim>(d: OMatrix<R, N, U3>) -> RayBundle<CameraFrame, Self, R, N, Owned<R, N, U3>>
    where
        DefaultAllocator: Allocator<N, U3>,
    {
        RayBundle::new_shared_plusz_direction(d)
    }
    fn ray(base: &Base, u: R, v: R) -> [R; 3] {
        if let Base::Ortho(k) = base {
            let d = ortho::<R>(k).pixel_to_camera(&one_px(u, v)).data;
            [d[(0, 0)], d[(0, 1)], d[(0, 2)]]
        } else {
            [u, v, R::zero()]
        }
    }
    fn pixel(base: &Base, p: [R; 3]) -> [R; 2] {
        if let Base::Ortho(k) = base {
            let d = ortho::<R>(k).camera_to_pixel(&one_pt(p)).data;
            [d[(0, 0)], d[(0, 1)]]
        } else {
            [p[0], p[1]]
        }
    }
}

impl<R: Num, B: Kind<R>> IntrinsicParameters<R> for Sim<'_, B> {
    type BundleType = B;

    fn pixel_to_camera<IN, NPTS>(&self, pixels: &Pixels<R, NPTS, IN>) -> RayBundle<CameraFrame, B, R, NPTS, Owned<R, NPTS, U3>>
    where
        IN: Storage<R, NPTS, U2>,
        NPTS: Dim,
        DefaultAllocator: Allocator<U1, U2>,
        DefaultAllocator: Allocator<NPTS, U2>,
        DefaultAllocator: Allocator<NPTS, U3>,
    {
        rec().ctr[ctr::MODEL_CALL] += 1;
        let n = pixels.data.nrows();
        let mut out = OMatrix::<R, NPTS, U3>::zeros_generic(NPTS::from_usize(n), U3);
        for i in 0..n {
            let (u, v) = self.cast(pixels.data[(i, 0)].f(), pixels.data[(i, 1)].f());
            let r = B::ray(&self.ck.base, R::of(u), R::of(v));
            for j in 0..3 {
                out[(i, j)] = r[j];
            }
            if i == n / 2 {
                self.interrupt(true);
            }
        }
        B::bundle(out)
    }

    fn camera_to_pixel<IN, NPTS>(&self, camera: &Points<CameraFrame, R, NPTS, IN>) -> Pixels<R, NPTS, Owned<R, NPTS, U2>>
    where
        IN: Storage<R, NPTS, U3>,
        NPTS: Dim,
        DefaultAllocator: Allocator<NPTS, U2>,
    {
        rec().ctr[ctr::MODEL_CALL] += 1;
        let n = camera.data.nrows();
        let mut out = OMatrix::<R, NPTS, U2>::zeros_generic(NPTS::from_usize(n), U2);
        for i in 0..n {
            let p = [camera.data[(i, 0)], camera.data[(i, 1)], camera.data[(i, 2)]];
            let q = B::pixel(&self.ck.base, p);
            let (u, v) = self.project(q[0].f(), q[1].f());
            out[(i, 0)] = R::of(u);
            out[(i, 1)] = R::of(v);
            if i == n / 2 {
                self.interrupt(false);
            }
        }
        Pixels::new(out)
    }
}
impl<B> Clone for Sim<'_, B> {
    fn clone(&self) -> Self {
        Sim { ck: self.ck, nest: self.nest, nested: self.nested.clone(), seen: self.seen.clone(), _b: std::marker::PhantomData }
    }
}
impl<B> std::fmt::Debug for Sim<'_, B> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Sim")
    }
}
impl<B> PartialEq for Sim<'_, B> {
    fn eq(&self, o: &Self) -> bool {
        self.ck == o.ck
    }
}

const E_REJECTED: u32 = 1;
const E_ACCEPTED: u32 = 2;
const E_GRID: u32 = 3;
fn class(k: u32) -> &'static str {
    match k {
        E_REJECTED => "SOUND_MODEL_REJECTED",
        E_ACCEPTED => "FAULTY_MODEL_ACCEPTED",
        E_GRID => "GRID_NOT_COVERED",
        _ => "?",
    }
}
fn bad(n: usize, k: u32, what: String) {
    let r = rec();
    if r.nfail == 0 {
        r.set_note(&what);
    }
    r.fail(fk::ASSERT, k, 0, n as u32, [0; 6], None);
}

fn go<R: Num, B: Kind<R>>(p: &Selfcheck, n: usize, k: usize, depth: u32) {
    let ck = &p.models[k];
    let nest = || {
        if let Some(j) = ck.nested {
            if depth < 2 {
                run(p, n, j, depth + 1);
            }
        }
    };
    let sim: Sim<B> = Sim { ck, nest: &nest, nested: Cell::new(false), seen: RefCell::new(vec![0; (ck.w as usize * ck.h as usize).div_ceil(64)]), _b: std::marker::PhantomData };
    let r = catch_unwind(AssertUnwindSafe(|| {
        cam_geom::intrinsic_test_utils::roundtrip_intrinsics(
            &sim,
            ck.w as usize,
            ck.h as usize,
            ck.step as usize,
            ck.border as usize,
            R::of(ck.eps.0),
        )
    }));
    let passed = r.is_ok();
    let seen = sim.seen.borrow();
    let rc = rec();
    rc.ctr[ctr::CALLS] += 1;
    rc.ctr[if passed { ctr::CHECK_OK } else { ctr::CHECK_PANIC }] += 1;
    rc.fold(passed as u64 | (k as u64) << 1 | (depth as u64) << 16);
    rc.fold(seen.iter().fold(seen.len() as u64, |x, y| mix(x ^ y)));
    match ck.sound() {
        Some(true) if !passed => return bad(n, E_REJECTED, format!("the check rejects a model within the tolerance: {ck:?}")),
        Some(false) if passed => return bad(n, E_ACCEPTED, format!("the check accepts a faulty model: {ck:?}")),
        _ => {}
    }
    if passed {
        let mut row = ck.border as i64;
        while row < ck.h as i64 - ck.border as i64 {
            let mut col = ck.border as i64;
            while col < ck.w as i64 - ck.border as i64 {
                let k = row as usize * ck.w as usize + col as usize;
                if seen[k / 64] >> (k % 64) & 1 == 0 {
                    return bad(n, E_GRID, format!("the check never tried pixel ({col}, {row}): {ck:?}"));
                }
                col += ck.step as i64;
            }
            row += ck.step as i64;
        }
    }
}

fn run(p: &Selfcheck, n: usize, k: usize, depth: u32) {
    let ck = &p.models[k];
    match (ck.single, ck.base) {
        (false, Base::ExactO | Base::Persp(_)) => go::<f64, SharedOriginRayBundle<f64>>(p, n, k, depth),
        (true, Base::ExactO | Base::Persp(_)) => go::<f32, SharedOriginRayBundle<f32>>(p, n, k, depth),
        (false, _) => go::<f64, SharedDirectionRayBundle<f64>>(p, n, k, depth),
        (true, _) => go::<f32, SharedDirectionRayBundle<f32>>(p, n, k, depth),
    }
}

impl Runner {
    pub fn selfcheck(&mut self, p: &Selfcheck) -> Outcome {
        let mut o = Outcome::default();
        let ex = child(self.rec, 20, 0, || {
            silence();
            for (n, k) in p.order.iter().enumerate() {
                rec().cur_op[0] = n as u32 + 1;
                run(p, n, *k, 0);
                if rec().nfail > 0 {
                    break;
                }
            }
        });
        let rec = self.rec();
        o.ctr = rec.ctr.to_vec();
        o.calls = rec.ctr[ctr::CALLS];
        o.digest = mix(rec.digest ^ 0xC12);
        let at = rec.cur_op[0].max(1) as usize - 1;
        o.trace = p.order.iter().take(at + 1).map(|k| format!("check model {k}")).collect();
        if rec.nfail > 0 {
            let f = &rec.fails[0];
            o.viol = Some(Viol { class: class(f.aux).into(), what: format!("check {}: {}", f.op, rec.note()) });
            return o;
        }
        match ex {
            Exit::Ok => {}
            Exit::Code(c) => o.harness_error = Some(format!("child exited with {c}")),
            Exit::Signal(s) => o.viol = Some(Viol { class: "CRASH".into(), what: format!("signal {s} in check {at}: {:?}", p.models[p.order[at]]) }),
            Exit::Hang | Exit::Slow => o.viol = Some(Viol { class: "HANG".into(), what: format!("check {at} does not end: {:?}", p.models[p.order[at]]) }),
        }
        o
    }
}

// ------------------------------------------------------------- generation

fn model(r: &mut Rng) -> Ck {
    let single = r.chance(0.3);
    let small = r.chance(0.75);
    let side = |r: &mut Rng| -> u32 {
        if small {
            let most = if r.chance(0.5) { 12 } else { 70 };
            1 + r.usize(most) as u32
        } else {
            *r.pick(&[100, 128, 240, 255, 256, 320, 480, 640, 1000, 1023, 1024, 1025, 1920])
        }
    };
    let (w, h) = (side(r), side(r));
    let low = if small || r.chance(0.02) { 1 } else { 1 + w.max(h) / *r.pick(&[20, 60, 60, 150]) };
    let step = match r.usize(4) {
        0 => 1,
        1 => 1 + r.usize(9) as u32,
        2 => 1 + r.usize(w.max(h) as usize) as u32,
        _ => *r.pick(&[2, 3, 4, 5, 8, 10]),
    }
    .max(low);
    let half = w.min(h) as usize / 2;
    let border = match r.usize(4) {
        0 | 1 => 0,
        2 => r.usize(half.min(12) + 1) as u32,
        _ => r.usize(half + 1) as u32,
    };
    let f = |r: &mut Rng| F(r.uni(40.0, 1500.0) * if r.chance(0.1) { -1.0 } else { 1.0 });
    let base = match r.usize(8) {
        0..=2 => Base::ExactO,
        3 | 4 => Base::ExactD,
        5 | 6 => Base::Persp([f(r), f(r), F(if r.chance(0.5) { 0.0 } else { r.uni(-5.0, 5.0) }), F(r.uni(0.0, w as f64)), F(r.uni(0.0, h as f64))]),
        _ => Base::Ortho([f(r), f(r), F(r.uni(0.0, w as f64)), F(r.uni(0.0, h as f64))]),
    };
    let mut c = Ck { single, base, w, h, step, border, eps: F(0.0), noise: 0.0, cancel: 0.0, fault: None, nested: None, nested_cast: false };
    let least = 21.0 * c.rounding();
    let most = *r.pick(&[0.3, 0.3, 5.0, 100.0]);
    let hi = if r.chance(0.5) { most } else { 0.01 };
    c.eps = F(if hi <= least { least * r.uni(1.0, 3.0) } else { least * (hi / least).powf(r.unit()) });
    if r.chance(0.35) {
        c.noise = *r.pick(&[0.1, 0.5, 0.9]);
    }
    if r.chance(0.1) {
        c.cancel = r.uni(-0.4, 0.4);
    }
    c
}

fn with_fault(r: &mut Rng, c: &Ck) -> Ck {
    let mut c = c.clone();
    let cells = |n: u32| -> u32 { (n - c.border * 2).div_ceil(c.step) };
    let (nx, ny) = (cells(c.w), cells(c.h));
    let inside = nx > 0 && ny > 0 && r.chance(0.8);
    let (col, row) = if inside {
        let pick = |r: &mut Rng, n: u32| match r.usize(5) {
            0 => 0,
            1 => n - 1,
            2 => n / 2,
            _ => r.usize(n as usize) as u32,
        };
        (c.border + c.step * pick(r, nx), c.border + c.step * pick(r, ny))
    } else {
        // next to the grid, in the border, between the grid's pixels
        match r.usize(3) {
            0 => (c.border + c.step * nx, c.border),
            1 => (c.border.saturating_sub(1), c.border.saturating_sub(1)),
            _ => (r.usize(c.w as usize + 2) as u32, r.usize(c.h as usize + 2) as u32),
        }
    };
    let what = match r.usize(12) {
        0 | 1 => {
            let k = 1 + r.usize(4) as u8;
            match r.usize(3) {
                0 => What::Bad(k, 0),
                1 => What::Bad(0, k),
                _ => What::Bad(k, 1 + r.usize(4) as u8),
            }
        }
        2 => What::Swap,
        3 => What::Panic,
        _ => {
            if r.chance(0.7) {
                c.noise = 0.0;
            }
            let m = *r.pick(&[0.5, 0.9, 1.1, 1.1, 1.3, 1.9, 2.5, 10.0, 1e3, 1e6]) * if r.chance(0.5) { -1.0 } else { 1.0 };
            let (a, b) = match r.usize(5) {
                0 | 1 => (m, 0.0),
                2 | 3 => (0.0, m),
                _ => (m, -m),
            };
            What::Off(F(a), F(b))
        }
    };
    let cast = c.cancel == 0.0 && r.chance(0.4);
    if cast {
        // an invalid ray invalidates the projection; an offset survives the round trip as it is,
        // up to skew, which mixes the coordinates only between equal ends
    }
    c.fault = Some(Fault { col, row, what, cast });
    // which pixel a projected point belongs to must not be in doubt
    if !cast && c.rounding() > 0.2 {
        c.fault = None;
    }
    c
}

pub fn plan(r: &mut Rng) -> Selfcheck {
    let mut models: Vec<Ck> = vec![];
    for _ in 0..1 + r.usize(3) {
        let m = model(r);
        models.push(m);
        for _ in 0..1 + r.usize(6) {
            let m = models.last().unwrap().clone();
            let mut f = with_fault(r, &m);
            match r.usize(8) {
                0 => f.step = (f.step + 1).max(1),
                1 => f.border = f.border.saturating_sub(1),
                2 => f.eps = F(f.eps.0 * r.uni(1.0, 4.0)),
                3 => std::mem::swap(&mut f.w, &mut f.h),
                _ => {}
            }
            if 2 * f.border > f.w.min(f.h) {
                f.border = f.w.min(f.h) / 2;
            }
            let mut sound = f.clone();
            models.push(f);
            if r.chance(0.3) {
                sound.fault = None;
                models.push(sound);
            }
        }
    }
    let n = models.len();
    for i in 0..n {
        if r.chance(0.1) {
            models[i].nested = Some(r.usize(n));
            models[i].nested_cast = r.chance(0.5);
        }
    }
    let order = (0..n + r.usize(n)).map(|_| r.usize(n)).collect();
    Selfcheck { models, order }
}

/// Simpler variants, for the minimiser.
pub fn smaller(d: &Selfcheck) -> Vec<Selfcheck> {
    let mut v = vec![];
    let n = d.order.len();
    let mut chunk = n.div_ceil(2);
    while chunk > 0 {
        let mut a = 0;
        while a < n {
            let mut e = d.clone();
            e.order.drain(a..(a + chunk).min(n));
            if !e.order.is_empty() {
                v.push(e);
            }
            a += chunk;
        }
        if chunk == 1 {
            break;
        }
        chunk = chunk.div_ceil(2);
    }
    for i in 0..d.models.len() {
        let used = d.order.contains(&i) || d.models.iter().any(|m| m.nested == Some(i));
        if !used && d.models.len() > 1 {
            let mut e = d.clone();
            e.models.remove(i);
            for k in e.order.iter_mut() {
                *k -= (*k > i) as usize;
            }
            for m in e.models.iter_mut() {
                if let Some(k) = &mut m.nested {
                    *k -= (*k > i) as usize;
                }
            }
            v.push(e);
            continue;
        }
        let mut set = |f: &dyn Fn(&mut Ck)| {
            let mut e = d.clone();
            f(&mut e.models[i]);
            if e != *d && e.models[i].sound() == d.models[i].sound() {
                v.push(e);
            }
        };
        set(&|m| m.nested = None);
        set(&|m| m.nested_cast = false);
        set(&|m| m.noise = 0.0);
        set(&|m| m.cancel = 0.0);
        set(&|m| m.single = false);
        set(&|m| m.border = 0);
        set(&|m| m.step = 1);
        set(&|m| m.base = Base::ExactO);
        set(&|m| m.w = m.w / 2 + 1);
        set(&|m| m.h = m.h / 2 + 1);
        set(&|m| {
            m.w = m.w.max(2) - 1;
        });
        set(&|m| {
            m.h = m.h.max(2) - 1;
        });
        set(&|m| m.eps = F(0.125));
        set(&|m| {
            if let Some(f) = &mut m.fault {
                f.cast = false
            }
        });
        set(&|m| {
            if let Some(f) = &mut m.fault {
                f.col /= 2
            }
        });
        set(&|m| {
            if let Some(f) = &mut m.fault {
                f.row /= 2
            }
        });
        // (a grid needs some width)
        v.retain(|e| e.models.iter().all(|m| 2 * m.border <= m.w.min(m.h) && m.w > 0 && m.h > 0 && m.step > 0));
    }
    v
}

