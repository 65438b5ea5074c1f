//! Executes one described call against the real code. Everything between `enter` and `leave` is
//! inside a call; preparing inputs and copying results out is not.
use crate::model::{Mk, Tap, User};
use crate::scalar::{Sc, SimF64};
use crate::spec::*;
use cam_geom::ray_bundle_types::{SharedDirectionRayBundle, SharedOriginRayBundle};
use cam_geom::*;
use nalgebra::allocator::Allocator;
use nalgebra::storage::{RawStorage, Storage};
use nalgebra::{
    DefaultAllocator, Dim, DimName, Isometry3, Matrix, OMatrix, Point3, Quaternion,     RowVector3, SMatrix, Translation3, Unit, UnitQuaternion, Vector3, U1, U2, U3,
};
use simcore::engine::{self, push};
use simcore::shared::st;
use std::any::Any;
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};

type P<R> = IntrinsicParametersPerspective<R>;
type O<R> = IntrinsicParametersOrthographic<R>;
type UO<R> = User<R, SharedOriginRayBundle<R>>;
type UD<R> = User<R, SharedDirectionRayBundle<R>>;

/// Objects are handed to several threads whether or not the compiler would allow it; that the
/// compiler does allow it is checked separately (`share_probe`).
pub struct Shared {
    cam: AnyCam,
    /// a linearization of the camera, shared like the camera itself
    jac: Option<Box<dyn Any>>,
}
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}
/// A ray bundle shared by all callers.
pub struct SharedBundle(Box<dyn Any>);
unsafe impl Sync for SharedBundle {}
unsafe impl Send for SharedBundle {}

type Jac<R> = cam_geom::linearize::JacobianPerspectiveCache<R>;
type DynBundle<R, B> = RayBundle<WorldFrame, B, R, nalgebra::Dyn, nalgebra::storage::Owned<R, nalgebra::Dyn, U3>>;
type Ctx<'a> = (Option<&'a dyn Any>, Option<&'a dyn Any>);

pub enum AnyCam {
    Pd(Camera<f64, P<f64>>),
    Od(Camera<f64, O<f64>>),
    Ud(Camera<f64, UO<f64>>),
    Vd(Camera<f64, UD<f64>>),
    Pf(Camera<f32, P<f32>>),
    Of(Camera<f32, O<f32>>),
    Ps(Camera<SimF64, P<SimF64>>),
    Os(Camera<SimF64, O<SimF64>>),
    Us(Camera<SimF64, UO<SimF64>>),
}

/// Run part of a call. Err: it unwound (the status is set).
pub fn call<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    engine::enter();
    let r = catch_unwind(AssertUnwindSafe(f));
    engine::leave();
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            engine::set_status(if p.is::<engine::Injected>() { st::INJECTED } else { st::PANICKED });
            drop(p);
            Err(())
        }
    }
}

fn v3<R: Sc>(a: &[F; 3]) -> Vector3<R> {
    Vector3::new(R::of(a[0].0), R::of(a[1].0), R::of(a[2].0))
}
fn quat<R: Sc>(q: &[F; 4]) -> UnitQuaternion<R> {
    UnitQuaternion::new_normalize(Quaternion::new(
        R::of(q[0].0),
        R::of(q[1].0),
        R::of(q[2].0),
        R::of(q[3].0),
    ))
}
fn mat34<R: Sc>(p: &[F; 12]) -> SMatrix<R, 3, 4> {
    SMatrix::<R, 3, 4>::from_fn(|i, j| R::of(p[i * 4 + j].0))
}

fn err_code(e: &Error) -> u64 {
    match e {
        Error::InvalidInput => 1,
        Error::SvdFailed => 2,
        Error::MinimumTwoRaysNeeded => 3,
        Error::InvalidRotationMatrix => 4,
        _ => 9,
    }
}
fn push_err(e: &Error) {
    use std::fmt::Write;
    push(0xE44_0000 + err_code(e));
    let mut t = TextHash;
    let _ = call(|| write!(t, "{e}").is_ok());
}

pub fn build_pose<R: Sc>(p: &Pose) -> ExtrinsicParameters<R> {
    match p {
        Pose::Rot(q, c) => {
            ExtrinsicParameters::from_rotation_and_camcenter(quat(q), Point3::from(v3::<R>(c)))
        }
        Pose::View(c, a, u) => {
            ExtrinsicParameters::from_view(&v3(c), &v3(a), &Unit::new_normalize(v3(u)))
        }
        Pose::Iso(q, t) => ExtrinsicParameters::from_pose(&Isometry3::from_parts(
            Translation3::from(v3::<R>(t)),
            quat(q),
        )),
        Pose::Pmat(_) => ExtrinsicParameters::from_view(
            &Vector3::new(R::of(1.0), R::of(2.0), R::of(3.0)),
            &Vector3::zeros(),
            &Vector3::z_axis(),
        ),
    }
}

/// The lens models the simulator can build from a description.
pub trait Mdl<R: Sc>: IntrinsicParameters<R, BundleType = Self::B> + PartialEq + Sized {
    type B: Mk<R>;
    fn build(l: &Lens) -> Result<Self, Error>;
    fn whole(l: &Lens, p: &Pose) -> Result<Camera<R, Self>, Error> {
        Ok(Camera::new(Self::build(l)?, build_pose(p)))
    }
    fn persp(_: &Camera<R, Self>) -> Option<&Camera<R, P<R>>> {
        None
    }
    fn params(&self);
    fn saveload(_: &Camera<R, Self>, _: f64) -> Option<Result<Camera<R, Self>, ()>> {
        None
    }
}

impl<R: Sc> Mdl<R> for P<R> {
    type B = SharedOriginRayBundle<R>;
    fn build(l: &Lens) -> Result<Self, Error> {
        match l {
            Lens::Matrix(m) => IntrinsicParametersPerspective::from_normalized_3x4_matrix(mat34(m)),
            Lens::Persp([fx, fy, skew, cx, cy]) => Ok(PerspectiveParams {
                fx: R::of(fx.0),
                fy: R::of(fy.0),
                skew: R::of(skew.0),
                cx: R::of(cx.0),
                cy: R::of(cy.0),
            }
            .into()),
            _ => Err(Error::InvalidInput),
        }
    }
    fn whole(l: &Lens, p: &Pose) -> Result<Camera<R, Self>, Error> {
        match p {
            Pose::Pmat(m) => Camera::from_perspective_matrix(&mat34::<R>(m)),
            _ => Ok(Camera::new(Self::build(l)?, build_pose(p))),
        }
    }
    fn persp(c: &Camera<R, Self>) -> Option<&Camera<R, P<R>>> {
        Some(c)
    }
    fn params(&self) {
        for v in [self.fx(), self.fy(), self.skew(), self.cx(), self.cy()] {
            push(v.word());
        }
        let p = self.params();
        for v in [&p.fx, &p.fy, &p.skew, &p.cx, &p.cy] {
            push(v.word());
        }
    }
    fn saveload(c: &Camera<R, Self>, d: f64) -> Option<Result<Camera<R, Self>, ()>> {
        Some(tree_roundtrip(c, d))
    }
}
impl<R: Sc> Mdl<R> for O<R> {
    type B = SharedDirectionRayBundle<R>;
    fn build(l: &Lens) -> Result<Self, Error> {
        match l {
            Lens::Ortho([sx, sy, cx, cy]) => Ok(OrthographicParams {
                sx: R::of(sx.0),
                sy: R::of(sy.0),
                cx: R::of(cx.0),
                cy: R::of(cy.0),
            }
            .into()),
            _ => Err(Error::InvalidInput),
        }
    }
    fn params(&self) {}
    fn saveload(c: &Camera<R, Self>, d: f64) -> Option<Result<Camera<R, Self>, ()>> {
        Some(tree_roundtrip(c, d))
    }
}
impl<R: Sc, B: Mk<R>> Mdl<R> for User<R, B> {
    type B = B;
    fn build(l: &Lens) -> Result<Self, Error> {
        match l {
            Lens::UserO(k, b, a) | Lens::UserD(k, b, a) => Ok(User {
                k: [R::of(k[0].0), R::of(k[1].0), R::of(k[2].0), R::of(k[3].0)],
                behave: *b,
                arg: *a,
                b: PhantomData,
            }),
            _ => Err(Error::InvalidInput),
        }
    }
    fn params(&self) {
        for v in &self.k {
            push(v.word());
        }
    }
}

/// Save into and load from the simulator's own format, which calls back at every event.
/// `d` chooses a fault of the load: below 0 none, below 100 a failure at that event, else damage;
/// its thousands choose how the data is presented to the loader.
fn tree_roundtrip<T: serde::Serialize + serde::de::DeserializeOwned>(v: &T, d: f64) -> Result<T, ()> {
    let (how, d) = if d >= 1000.0 { ((d / 1000.0) as u64, d % 1000.0) } else { (0, d) };
    let d = if d == 999.0 { -1.0 } else { d };
    let pres = simcodec::Pres {
        shape: (how % 3) as u8,
        key: (how / 3 % 5) as u8,
        perm: how / 15 % 3,
        hint: (how / 45 % 3) as u8,
        human: how % 2 == 0,
        widen: how % 7 == 6,
    };
    let c = simcodec::Ctl::new(u64::MAX);
    let mut tree = simcodec::save(v, &c).map_err(|_| ())?;
    if d >= 100.0 {
        let mut k = (d as u64 - 100) / 4;
        engine::quiet(|| {
            k %= fields(&tree).max(1);
            damage(&mut tree, &mut k, (d as u64) % 4)
        });
    }
    let c = simcodec::Ctl::new(if (0.0..100.0).contains(&d) { d as u64 } else { u64::MAX });
    simcodec::load(&tree, pres, &c).map_err(|_| ())
}

fn fields(v: &simcodec::Val) -> u64 {
    use simcodec::Val::*;
    match v {
        Struct(_, f) => f.iter().map(|x| 1 + fields(&x.1)).sum(),
        Seq(x) => x.iter().map(fields).sum(),
        Newtype(_, x) => fields(x),
        _ => 0,
    }
}

/// Drop, repeat, retype or rename the k-th field met.
fn damage(v: &mut simcodec::Val, k: &mut u64, how: u64) {
    use simcodec::Val::*;
    match v {
        Struct(_, f) => {
            for i in 0..f.len() {
                if *k == 0 {
                    *k = u64::MAX;
                    match how {
                        0 => {
                            f.remove(i);
                        }
                        1 => {
                            let x = f[i].clone();
                            f.push(x);
                        }
                        2 => f[i].1 = Str("x".into()),
                        _ => f[i].0.push('_'),
                    }
                    return;
                }
                *k -= 1;
                damage(&mut f[i].1, k, how);
                if *k == u64::MAX {
                    return;
                }
            }
        }
        Seq(x) => {
            for y in x {
                damage(y, k, how);
                if *k == u64::MAX {
                    return;
                }
            }
        }
        Newtype(_, x) => damage(x, k, how),
        _ => {}
    }
}

fn push_mat<R: Sc, N: Dim, C: Dim, S: RawStorage<R, N, C>>(m: &Matrix<R, N, C, S>) {
    push(m.nrows() as u64);
    for i in 0..m.nrows() {
        for j in 0..m.ncols() {
            push(m[(i, j)].word());
        }
    }
}

/// All a user can learn from a bundle whatever its size.
fn push_bundle<R, B, N, F>(b: &RayBundle<F, B, R, N, nalgebra::storage::Owned<R, N, U3>>, d: f64)
where
    R: Sc,
    B: Mk<R>,
    N: Dim,
    F: CoordinateSystem,
    DefaultAllocator: Allocator<N, U3>,
{
    push_mat(&b.data);
    if let Ok(p) = call(|| b.point_on_ray()) {
        push_mat(&p.data);
    } else {
        return;
    }
    if let Ok(p) = call(|| b.point_on_ray_at_distance(R::of(d))) {
        push_mat(&p.data);
    }
}

fn fixed_bundle<R, M, N, S>(cam: &Camera<R, M>, px: Pixels<R, N, S>)
where
    R: Sc,
    M: Mdl<R>,
    N: DimName,
    S: Storage<R, N, U2>,
    DefaultAllocator: Allocator<N, U3> + Allocator<N, U2> + Allocator<U1, U2>,
{
    if let Ok((d, c)) = call(|| {
        let b = cam.pixel_to_world(&px);
        (b.directions(), b.centers())
    }) {
        push_mat(&d);
        push_mat(&c);
    }
}

fn on3<R, M, N, S>(cam: &Camera<R, M>, c: &Combo, m: Matrix<R, N, U3, S>)
where
    R: Sc,
    M: Mdl<R>,
    N: Dim,
    S: Storage<R, N, U3>,
    DefaultAllocator: Allocator<N, U3> + Allocator<N, U2>,
{
    match c.op {
        Op::WorldToPixel => {
            let p = Points::<WorldFrame, R, N, S>::new(m);
            if let Ok(r) = call(|| cam.world_to_pixel(&p)) {
                push_mat(&r.data);
            }
        }
        Op::WorldToCamera => {
            let p = Points::<WorldFrame, R, N, S>::new(m);
            if let Ok(r) = call(|| cam.extrinsics().world_to_camera(&p)) {
                push_mat(&r.data);
            }
        }
        Op::CameraToWorld => {
            let p = Points::<CameraFrame, R, N, S>::new(m);
            if let Ok(r) = call(|| cam.extrinsics().camera_to_world(&p)) {
                push_mat(&r.data);
            }
        }
        Op::CameraToPixel => {
            let p = Points::<CameraFrame, R, N, S>::new(m);
            if let Ok(r) = call(|| cam.intrinsics().camera_to_pixel(&p)) {
                push_mat(&r.data);
            }
        }
        // a bundle of rays made by the user
        Op::RayCameraToWorld => {
            if let Ok(b) = call(|| M::B::over(m)) {
                if let Ok(r) = call(|| cam.extrinsics().ray_camera_to_world(&b)) {
                    push_bundle(&r, c.inp.d.0);
                }
            }
        }
        _ => {}
    }
}

fn on2<R, M, N, S>(cam: &Camera<R, M>, c: &Combo, m: Matrix<R, N, U2, S>)
where
    R: Sc,
    M: Mdl<R>,
    N: Dim,
    S: Storage<R, N, U2>,
    DefaultAllocator: Allocator<N, U3> + Allocator<N, U2> + Allocator<U1, U2>,
{
    let p = Pixels::new(m);
    match c.op {
        Op::PixelToWorld => {
            if let Ok(r) = call(|| cam.pixel_to_world(&p)) {
                push_bundle(&r, c.inp.d.0);
            }
        }
        Op::PixelToCamera => {
            if let Ok(r) = call(|| cam.intrinsics().pixel_to_camera(&p)) {
                push_bundle(&r, c.inp.d.0);
            }
        }
        Op::RayCameraToWorld => {
            if let Ok(b) = call(|| cam.intrinsics().pixel_to_camera(&p)) {
                if let Ok(r) = call(|| cam.extrinsics().ray_camera_to_world(&b)) {
                    push_bundle(&r, c.inp.d.0);
                }
            }
        }
        _ => {}
    }
}

fn push_pose<R: Sc>(e: &ExtrinsicParameters<R>) -> Result<(), ()> {
    let (cc, pose, m, rot, t) =
        call(|| (e.camcenter(), e.pose(), e.matrix(), e.rotation(), e.translation()))?;
    for j in 0..3 {
        push(cc[j].word());
        push(t[j].word());
        push(pose.translation.vector[j].word());
        for i in 0..3 {
            push(rot.matrix()[(i, j)].word());
        }
    }
    for j in 0..4 {
        push(pose.rotation.coords[j].word());
        for i in 0..3 {
            push(m[(i, j)].word());
        }
    }
    Ok(())
}

struct TextHash;
impl std::fmt::Write for TextHash {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        engine::quiet(|| {
            for b in s.as_bytes() {
                push(*b as u64);
            }
        });
        Ok(())
    }
}

fn intersect<R: Sc>(c: &Combo) {
    let rays: Vec<Ray<WorldFrame, R>> = c
        .inp
        .rows
        .chunks(2)
        .filter(|p| p.len() == 2)
        .map(|p| {
            Ray::new(
                RowVector3::new(R::of(p[0][0].0), R::of(p[0][1].0), R::of(p[0][2].0)),
                RowVector3::new(R::of(p[1][0].0), R::of(p[1][1].0), R::of(p[1][2].0)),
            )
        })
        .collect();
    match call(|| best_intersection_of_rays(&rays)) {
        Ok(Ok(p)) => push_mat(&p.data),
        Ok(Err(e)) => push_err(&e),
        Err(()) => {}
    }
}

fn dyn_pixels<R: Sc>(c: &Combo) -> Pixels<R, nalgebra::Dyn, nalgebra::storage::Owned<R, nalgebra::Dyn, U2>> {
    Pixels::new(OMatrix::<R, nalgebra::Dyn, U2>::from_fn(c.inp.rows.len(), |i, j| R::of(c.inp.rows[i][j].0)))
}

fn on_pixels<R, M>(cam: &Camera<R, M>, c: &Combo)
where
    R: Sc,
    M: Mdl<R>,
{
    let rows = &c.inp.rows;
    let n = rows.len();
    let get = |i: usize, j: usize| R::of(if n == 0 { 0.5 } else { rows[i % n][j].0 });
    match c.inp.store {
            Store::Fixed1 => on2(cam, c, SMatrix::<R, 1, 2>::from_fn(get)),
            Store::Fixed2 => on2(cam, c, SMatrix::<R, 2, 2>::from_fn(get)),
            Store::Fixed4 => on2(cam, c, SMatrix::<R, 4, 2>::from_fn(get)),
            Store::Dynamic => on2(cam, c, OMatrix::<R, nalgebra::Dyn, U2>::from_fn(n, get)),
            Store::View => {
                let big = OMatrix::<R, nalgebra::Dyn, U2>::from_fn(n + 3, |i, j| {
                    if i < 2 || i >= n + 2 {
                        R::of(777.0)
                    } else {
                        get(i - 2, j)
                    }
                });
                on2(cam, c, big.rows(2, n))
            }
            Store::Tapped => {
                on2(cam, c, Matrix::from_data(Tap::new(n, 2, get)));
            }
        }
}

fn on_cam<R, M>(cam: &Camera<R, M>, c: &Combo, ctx: Ctx)
where
    R: Sc,
    M: Mdl<R>,
{
    let rows = &c.inp.rows;
    let n = rows.len();
    let get = |i: usize, j: usize| R::of(if n == 0 { 0.5 } else { rows[i % n][j].0 });
    let own_rays = c.op == Op::RayCameraToWorld && matches!(c.inp.store, Store::View | Store::Tapped | Store::Fixed2);
    match c.op {
        Op::PixelToWorld | Op::PixelToCamera => on_pixels(cam, c),
        Op::RayCameraToWorld if !own_rays => on_pixels(cam, c),
        Op::WorldToPixel | Op::WorldToCamera | Op::CameraToWorld | Op::CameraToPixel | Op::RayCameraToWorld => {
            match c.inp.store {
            Store::Fixed1 => on3(cam, c, SMatrix::<R, 1, 3>::from_fn(get)),
            Store::Fixed2 => on3(cam, c, SMatrix::<R, 2, 3>::from_fn(get)),
            Store::Fixed4 => on3(cam, c, SMatrix::<R, 4, 3>::from_fn(get)),
            Store::Dynamic => on3(cam, c, OMatrix::<R, nalgebra::Dyn, U3>::from_fn(n, get)),
            Store::View => {
                let big = OMatrix::<R, nalgebra::Dyn, U3>::from_fn(n + 3, |i, j| {
                    if i < 2 || i >= n + 2 {
                        R::of(777.0)
                    } else {
                        get(i - 2, j)
                    }
                });
                on3(cam, c, big.rows(2, n))
            }
            Store::Tapped => {
                on3(cam, c, Matrix::from_data(Tap::new(n, 3, get)));
            }
            }
        }
        Op::Bundle => match c.inp.store {
            Store::Fixed2 => fixed_bundle(cam, Pixels::new(SMatrix::<R, 2, 2>::from_fn(get))),
            Store::Fixed4 => fixed_bundle(cam, Pixels::new(SMatrix::<R, 4, 2>::from_fn(get))),
            _ => {
                let px = Pixels::new(SMatrix::<R, 1, 2>::from_fn(get));
                if let Ok(r) = call(|| cam.pixel_to_world(&px).to_single_ray()) {
                    push_mat(&r.center);
                    push_mat(&r.direction);
                }
                if let Ok(r) = call(|| cam.intrinsics().pixel_to_camera(&px).to_single_ray()) {
                    push_mat(&r.center);
                    push_mat(&r.direction);
                }
                fixed_bundle(cam, px);
            }
        },
        Op::Axes => {
            if let Ok((f, u, r)) = call(|| {
                let e = cam.extrinsics();
                (e.forward(), e.up(), e.right())
            }) {
                push_mat(f.as_ref());
                push_mat(u.as_ref());
                push_mat(r.as_ref());
            }
        }
        Op::Getters => {
            if push_pose(cam.extrinsics()).is_ok() {
                let _ = call(|| cam.intrinsics()).map(|i| Mdl::params(i));
            }
        }
        Op::AsMatrix => {
            if let Some(p) = M::persp(cam) {
                if let Ok(m) = call(|| p.as_camera_matrix()) {
                    push_mat(&m);
                }
            }
        }
        Op::Jacobian => {
            if let Some(p) = M::persp(cam) {
                let own;
                let j: &Jac<R> = match ctx.0.and_then(|a| a.downcast_ref()) {
                    Some(j) => j,
                    None => {
                        let Ok(k) = call(|| Jac::new(p)) else { return };
                        own = k;
                        &own
                    }
                };
                for i in 0..n.min(4) {
                    let pt = Points::new(RowVector3::new(get(i, 0), get(i, 1), get(i, 2)));
                    match call(|| j.linearize_at(&pt)) {
                        Ok(a) => push_mat(&a),
                        Err(()) => return,
                    }
                }
            }
        }
        Op::BundleUse => {
            let own;
            let b: &DynBundle<R, M::B> = match ctx.1.and_then(|a| a.downcast_ref()) {
                Some(b) => b,
                None => {
                    let px = dyn_pixels::<R>(c);
                    let Ok(b) = call(|| cam.pixel_to_world(&px)) else { return };
                    own = b;
                    &own
                }
            };
            push_bundle(b, c.inp.d.0);
            if let Ok((k, eq)) = call(|| {
                let k = b.clone();
                let eq = k == *b;
                (k, eq)
            }) {
                push(eq as u64);
                push_mat(&k.data);
                let _ = call(move || drop(k));
            }
        }
        Op::Intersect => intersect::<R>(c),
        Op::CloneEq => {
            if let Ok((k, eq)) = call(|| {
                let k = cam.clone();
                let eq = k == *cam && k.extrinsics() == cam.extrinsics();
                // an object built from the same parameters
                let twin = M::whole(&c.cam.lens, &c.cam.pose).map(|t| t == *cam && *cam == t);
                (k, u64::from(eq) + matches!(twin, Ok(true)) as u64 * 2 + twin.is_err() as u64 * 4)
            }) {
                push(eq);
                let _ = push_pose(k.extrinsics());
                let _ = call(move || drop(k));
            }
        }
        Op::DebugText => {
            use std::fmt::Write;
            let mut t = TextHash;
            let _ = call(|| write!(t, "{:?}", cam).is_ok());
        }
        Op::SaveLoad => match call(|| M::saveload(cam, c.inp.d.0)) {
            Ok(Some(Ok(k))) => {
                push(1);
                push((k == *cam) as u64);
                let _ = push_pose(k.extrinsics());
                Mdl::params(k.intrinsics());
            }
            Ok(Some(Err(()))) => push(2),
            Ok(None) => push(3),
            Err(()) => {}
        },
        Op::SelfCheck => {
            // grid and tolerance from the input
            let w = rows.first().map_or(8, |r| r[0].0.abs().min(64.0) as usize + 2);
            let h = rows.first().map_or(8, |r| r[1].0.abs().min(64.0) as usize + 2);
            let _ = call(|| {
                cam_geom::intrinsic_test_utils::roundtrip_intrinsics(
                    cam.intrinsics(),
                    w,
                    h,
                    3,
                    0,
                    R::of(c.inp.d.0),
                )
            });
        }
    }
}

fn build_cam<R: Sc, M: Mdl<R>>(c: &CamSpec) -> Result<Camera<R, M>, ()> {
    match call(|| M::whole(&c.lens, &c.pose)) {
        Ok(Ok(k)) => Ok(k),
        Ok(Err(e)) => {
            push_err(&e);
            Err(())
        }
        Err(()) => Err(()),
    }
}

/// Objects that calls leave behind for later calls, of whichever caller.
static mut SLOTS: [Option<(CamSpec, AnyCam)>; 4] = [const { None }; 4];

/// Take what lies in a slot.
fn taken(keep: u8) -> Option<(CamSpec, AnyCam)> {
    unsafe { (*std::ptr::addr_of_mut!(SLOTS))[keep as usize % 4].take() }
}

/// The end of an object made for a call: dropped, or left in a slot in place of another one, which
/// is dropped.
fn part<R: Sc, M: Mdl<R>>(c: &Combo, k: Camera<R, M>, keep: u8, v: &Variant<R, M>) {
    if keep == 0 {
        let _ = call(move || drop(k));
    } else {
        let old = taken(keep);
        unsafe { (*std::ptr::addr_of_mut!(SLOTS))[keep as usize % 4] = Some((c.cam.clone(), (v.wrap)(k))) };
        let _ = call(move || drop(old));
    }
}

struct Variant<R: Sc, M: Mdl<R>> {
    wrap: fn(Camera<R, M>) -> AnyCam,
    unwrap: fn(AnyCam) -> Option<Camera<R, M>>,
}

fn go<R: Sc, M: Mdl<R>>(c: &Combo, shared: Option<&Camera<R, M>>, ctx: Ctx, how: How, keep: u8, v: Variant<R, M>) {
    match (how, shared) {
        (How::Shared, Some(k)) => on_cam(k, c, ctx),
        (How::Clone, Some(k)) => {
            if let Ok(k2) = call(|| k.clone()) {
                engine::built();
                on_cam(&k2, c, (None, None));
                part(c, k2, keep, &v);
            }
        }
        _ => {
            let mut found = None;
            if keep != 0 {
                match taken(keep) {
                    Some((s, k)) if s == c.cam => found = (v.unwrap)(k),
                    other => unsafe { (*std::ptr::addr_of_mut!(SLOTS))[keep as usize % 4] = other },
                }
            }
            let made = match found {
                Some(k) => Ok(k),
                None => build_cam::<R, M>(&c.cam),
            };
            if let Ok(k) = made {
                engine::built();
                on_cam(&k, c, (None, None));
                part(c, k, keep, &v);
            }
        }
    }
}

macro_rules! dispatch {
    ($c:expr, $x:ident) => {
        match ($c.num, &$c.lens) {
            (Num::F64, Lens::Persp(_) | Lens::Matrix(_)) => $x!(f64, P<f64>, Pd),
            (Num::F64, Lens::Ortho(_)) => $x!(f64, O<f64>, Od),
            (Num::F64, Lens::UserO(..)) => $x!(f64, UO<f64>, Ud),
            (Num::F64, Lens::UserD(..)) => $x!(f64, UD<f64>, Vd),
            (Num::F32, Lens::Ortho(_)) => $x!(f32, O<f32>, Of),
            (Num::F32, _) => $x!(f32, P<f32>, Pf),
            (Num::Sim, Lens::Ortho(_)) => $x!(SimF64, O<SimF64>, Os),
            (Num::Sim, Lens::UserO(..) | Lens::UserD(..)) => $x!(SimF64, UO<SimF64>, Us),
            (Num::Sim, _) => $x!(SimF64, P<SimF64>, Ps),
        }
    };
}

/// Build the object of a description outside of any run (it is going to be shared).
pub fn build_shared(c: &CamSpec) -> Option<Shared> {
    macro_rules! b {
        ($R:ty, $M:ty, $V:ident) => {
            catch_unwind(AssertUnwindSafe(|| {
                let k = <$M as Mdl<$R>>::whole(&c.lens, &c.pose).ok()?;
                let jac = <$M as Mdl<$R>>::persp(&k).map(|p| Box::new(Jac::<$R>::new(p)) as Box<dyn Any>);
                Some(Shared { cam: AnyCam::$V(k), jac })
            }))
            .ok()
            .flatten()
        };
    }
    dispatch!(c, b)
}

/// Build the ray bundle a `BundleUse` call works on.
pub fn build_bundle(c: &Combo, s: &Shared) -> Option<SharedBundle> {
    macro_rules! b {
        ($R:ty, $M:ty, $V:ident) => {
            match &s.cam {
                AnyCam::$V(k) => catch_unwind(AssertUnwindSafe(|| {
                    let px = dyn_pixels::<$R>(c);
                    let b: DynBundle<$R, <$M as Mdl<$R>>::B> = k.pixel_to_world(&px);
                    SharedBundle(Box::new(b))
                }))
                .ok(),
                _ => None,
            }
        };
    }
    dispatch!(c.cam, b)
}

/// Execute one call; the result is in the caller's record.
pub fn exec(c: &Combo, shared: Option<&Shared>, bundle: Option<&SharedBundle>, how: How, keep: u8) {
    let ctx: Ctx = (shared.and_then(|s| s.jac.as_deref()), bundle.map(|b| &*b.0));
    macro_rules! x {
        ($R:ty, $M:ty, $V:ident) => {
            go::<$R, $M>(
                c,
                match shared {
                    Some(Shared { cam: AnyCam::$V(k), .. }) => Some(k),
                    _ => None,
                },
                ctx,
                how,
                keep,
                Variant {
                    wrap: AnyCam::$V,
                    unwrap: |a| match a {
                        AnyCam::$V(k) => Some(k),
                        _ => None,
                    },
                },
            )
        };
    }
    dispatch!(c.cam, x);
    engine::done_if_running();
}

// ---------------------------------------------------------------- may it be shared at all?

struct Probe<T>(PhantomData<T>);
#[allow(dead_code)]
trait NotSync {
    fn sync(&self) -> bool {
        false
    }
    fn send(&self) -> bool {
        false
    }
}
impl<T> NotSync for Probe<T> {}
impl<T: Sync + Send> Probe<T> {
    fn sync(&self) -> bool {
        true
    }
    #[allow(dead_code)]
    fn send(&self) -> bool {
        true
    }
}
struct ProbeUw<T>(PhantomData<T>);
#[allow(dead_code)]
trait NotUw {
    fn uw(&self) -> bool {
        false
    }
}
impl<T> NotUw for ProbeUw<T> {}
impl<T: std::panic::RefUnwindSafe + std::panic::UnwindSafe> ProbeUw<T> {
    fn uw(&self) -> bool {
        true
    }
}

/// Types that a program shares between threads, and whether the compiler lets it.
pub fn share_probe() -> Vec<(&'static str, bool, bool)> {
    type Ow<R, N> = nalgebra::storage::Owned<R, N, U3>;
    macro_rules! p {
        ($($n:expr => $t:ty),* $(,)?) => { vec![$( ($n, Probe::<$t>(PhantomData).sync(), ProbeUw::<$t>(PhantomData).uw()) ),*] };
    }
    p! {
        "Camera<f64, Perspective>" => Camera<f64, P<f64>>,
        "Camera<f64, Orthographic>" => Camera<f64, O<f64>>,
        "Camera<f32, Perspective>" => Camera<f32, P<f32>>,
        "Camera<f32, Orthographic>" => Camera<f32, O<f32>>,
        "ExtrinsicParameters<f64>" => ExtrinsicParameters<f64>,
        "ExtrinsicParameters<f32>" => ExtrinsicParameters<f32>,
        "IntrinsicParametersPerspective<f64>" => P<f64>,
        "IntrinsicParametersOrthographic<f64>" => O<f64>,
        "PerspectiveParams<f64>" => PerspectiveParams<f64>,
        "OrthographicParams<f64>" => OrthographicParams<f64>,
        "Points<WorldFrame, f64, U1>" => Points<WorldFrame, f64, U1, Ow<f64, U1>>,
        "Ray<WorldFrame, f64>" => Ray<WorldFrame, f64>,
        "RayBundle<WorldFrame, SharedOrigin, f64>" => RayBundle<WorldFrame, SharedOriginRayBundle<f64>, f64, nalgebra::Dyn, Ow<f64, nalgebra::Dyn>>,
        "RayBundle<WorldFrame, SharedDirection, f64>" => RayBundle<WorldFrame, SharedDirectionRayBundle<f64>, f64, nalgebra::Dyn, Ow<f64, nalgebra::Dyn>>,
        "JacobianPerspectiveCache<f64>" => cam_geom::linearize::JacobianPerspectiveCache<f64>,
        "Error" => Error,
    }
}
