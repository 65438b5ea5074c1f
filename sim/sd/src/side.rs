// One version of the crate (`cg`) as seen by a program that saves and loads its objects. Included
// twice: for the working tree and for the frozen release.
use crate::obj::{bits, leaves, load_thing, Fmt, Obj, Thing, W};
use crate::spec::*;
use cg::ray_bundle_types::{SharedDirectionRayBundle, SharedOriginRayBundle};
use cg::*;
use nalgebra::storage::Owned;
use nalgebra::{Dyn, OMatrix, Point3, Quaternion, RealField, SMatrix, UnitQuaternion, Vector3, U1, U2, U3};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub trait Num: RealField + Copy + Serialize + DeserializeOwned {
    fn of(x: f64) -> Self;
    fn w(self) -> u64;
}
impl Num for f64 {
    fn of(x: f64) -> f64 {
        x
    }
    fn w(self) -> u64 {
        bits(self)
    }
}
impl Num for f32 {
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn w(self) -> u64 {
        bits(self as f64)
    }
}

type P<R> = IntrinsicParametersPerspective<R>;
type O<R> = IntrinsicParametersOrthographic<R>;
type SO<R> = SharedOriginRayBundle<R>;
type SD<R> = SharedDirectionRayBundle<R>;
type Rays<R, B, N> = RayBundle<WorldFrame, B, R, N, Owned<R, N, U3>>;

fn quiet<T>(o: &mut Vec<u64>, f: impl FnOnce() -> T) -> Option<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Some(v),
        Err(_) => {
            o.push(0xDEAD);
            None
        }
    }
}

fn mat<R: Num, N: nalgebra::Dim, C: nalgebra::Dim, S: nalgebra::RawStorage<R, N, C>>(
    o: &mut Vec<u64>,
    m: &nalgebra::Matrix<R, N, C, S>,
) {
    o.push(m.nrows() as u64);
    o.extend(m.iter().map(|x| x.w()));
}

fn tree<T: Serialize>(v: &T) -> Vec<u64> {
    match simcodec::save(v, &simcodec::Ctl::new(u64::MAX)) {
        Ok(t) => leaves(&t),
        Err(_) => vec![0xBAD],
    }
}

fn points<R: Num>() -> SMatrix<R, 4, 3> {
    let c = R::of;
    SMatrix::<R, 4, 3>::new(
        c(0.3), c(-0.7), c(4.0),
        c(-11.0), c(3.5), c(-8.25),
        c(100.0), c(0.0), c(1.5),
        c(1e-3), c(2.0), c(0.75),
    )
}
fn pixels<R: Num>() -> SMatrix<R, 3, 2> {
    let c = R::of;
    SMatrix::<R, 3, 2>::new(c(0.0), c(0.0), c(640.0), c(479.5), c(-17.25), c(1000.0))
}

fn probe_lens<R: Num, I: IntrinsicParameters<R>>(i: &I, o: &mut Vec<u64>)
where
    I::BundleType: Bundle<R>,
{
    if let Some(p) = quiet(o, || i.camera_to_pixel(&Points::new(points::<R>()))) {
        mat(o, &p.data);
    }
    if let Some(r) = quiet(o, || i.pixel_to_camera(&Pixels::new(pixels::<R>()))) {
        mat(o, &r.data);
        mat(o, &r.directions());
        mat(o, &r.centers());
        mat(o, &r.point_on_ray_at_distance(R::of(2.5)).data);
    }
}
fn probe_pose<R: Num>(e: &ExtrinsicParameters<R>, o: &mut Vec<u64>) {
    if let Some((c, p, m, r, t)) =
        quiet(o, || (*e.camcenter(), *e.pose(), *e.matrix(), *e.rotation(), *e.translation()))
    {
        mat(o, &c.coords);
        mat(o, &p.translation.vector);
        mat(o, &p.rotation.coords);
        mat(o, &m);
        mat(o, r.matrix());
        mat(o, &t.coords);
    }
    if let Some((a, b, c)) = quiet(o, || (e.right(), e.up(), e.forward())) {
        mat(o, &a.into_inner());
        mat(o, &b.into_inner());
        mat(o, &c.into_inner());
    }
    if let Some(p) = quiet(o, || e.world_to_camera(&Points::new(points::<R>()))) {
        mat(o, &p.data);
    }
    if let Some(p) = quiet(o, || e.camera_to_world(&Points::new(points::<R>()))) {
        mat(o, &p.data);
    }
    let b = RayBundle::<CameraFrame, SO<R>, R, _, _>::new_shared_zero_origin(points::<R>());
    if let Some(r) = quiet(o, || e.ray_camera_to_world(&b)) {
        mat(o, &r.data);
        mat(o, &r.centers());
    }
    let b = RayBundle::<CameraFrame, SD<R>, R, _, _>::new_shared_plusz_direction(points::<R>());
    if let Some(r) = quiet(o, || e.ray_camera_to_world(&b)) {
        mat(o, &r.data);
        mat(o, &r.directions());
    }
}
fn probe_cam<R: Num, I: IntrinsicParameters<R>>(c: &Camera<R, I>, o: &mut Vec<u64>)
where
    I::BundleType: Bundle<R>,
{
    if let Some(p) = quiet(o, || c.world_to_pixel(&Points::new(points::<R>()))) {
        mat(o, &p.data);
    }
    let d = OMatrix::<R, Dyn, U3>::from_fn(3, |i, j| points::<R>()[(i, j)] * R::of(0.5));
    if let Some(p) = quiet(o, || c.world_to_pixel(&Points::new(d))) {
        mat(o, &p.data);
    }
    if let Some(r) = quiet(o, || c.pixel_to_world(&Pixels::new(pixels::<R>()))) {
        mat(o, &r.data);
        mat(o, &r.directions());
        mat(o, &r.centers());
        mat(o, &r.point_on_ray().data);
        mat(o, &r.point_on_ray_at_distance(R::of(12.5)).data);
    }
    probe_lens(c.intrinsics(), o);
    probe_pose(c.extrinsics(), o);
}
fn params_pose<R: Num>(e: &ExtrinsicParameters<R>) -> Vec<u64> {
    let mut v: Vec<u64> = e.pose().rotation.coords.iter().map(|x| x.w()).collect();
    v.extend(e.camcenter().coords.iter().map(|x| x.w()));
    v
}
fn params_persp<R: Num>(i: &P<R>) -> Vec<u64> {
    let p = i.params();
    [p.fx, p.fy, p.skew, p.cx, p.cy].iter().map(|x| x.w()).collect()
}
fn again_pose<R: Num>(e: &ExtrinsicParameters<R>) -> ExtrinsicParameters<R> {
    ExtrinsicParameters::from_rotation_and_camcenter(e.pose().rotation, *e.camcenter())
}
fn again_persp<R: Num>(i: &P<R>) -> P<R> {
    let p = i.params();
    PerspectiveParams { fx: p.fx, fy: p.fy, skew: p.skew, cx: p.cx, cy: p.cy }.into()
}

impl<R: Num> Thing for Camera<R, P<R>> {
    const WRAPS: bool = true;
    fn params(&self) -> Vec<u64> {
        let mut v = params_persp(self.intrinsics());
        v.extend(params_pose(self.extrinsics()));
        v
    }
    fn probe(&self, o: &mut Vec<u64>) {
        probe_cam(self, o);
        let i = self.intrinsics();
        o.extend([i.fx(), i.fy(), i.skew(), i.cx(), i.cy()].iter().map(|x| x.w()));
        if let Some(m) = quiet(o, || self.as_camera_matrix()) {
            mat(o, &m);
        }
        if let Some(m) = quiet(o, || {
            let j = cg::linearize::JacobianPerspectiveCache::new(self);
            j.linearize_at(&Points::new(SMatrix::<R, 1, 3>::new(R::of(0.5), R::of(0.25), R::of(7.0))))
        }) {
            mat(o, &m);
        }
    }
    fn rebuilt(&self) -> Option<Self> {
        Some(Camera::new(again_persp(self.intrinsics()), again_pose(self.extrinsics())))
    }
}
impl<R: Num> Thing for Camera<R, O<R>> {
    const WRAPS: bool = true;
    fn params(&self) -> Vec<u64> {
        let mut v = tree(self.intrinsics());
        v.extend(params_pose(self.extrinsics()));
        v
    }
    fn probe(&self, o: &mut Vec<u64>) {
        probe_cam(self, o);
    }
    fn rebuilt(&self) -> Option<Self> {
        Some(Camera::new(self.intrinsics().clone(), again_pose(self.extrinsics())))
    }
}
impl<R: Num> Thing for ExtrinsicParameters<R> {
    const WRAPS: bool = true;
    fn params(&self) -> Vec<u64> {
        params_pose(self)
    }
    fn probe(&self, o: &mut Vec<u64>) {
        probe_pose(self, o);
    }
    fn rebuilt(&self) -> Option<Self> {
        Some(again_pose(self))
    }
}
impl<R: Num> Thing for P<R> {
    const WRAPS: bool = true;
    fn params(&self) -> Vec<u64> {
        params_persp(self)
    }
    fn probe(&self, o: &mut Vec<u64>) {
        probe_lens(self, o);
        o.extend([self.fx(), self.fy(), self.skew(), self.cx(), self.cy()].iter().map(|x| x.w()));
    }
    fn rebuilt(&self) -> Option<Self> {
        Some(again_persp(self))
    }
}
impl<R: Num> Thing for O<R> {
    const WRAPS: bool = true;
    fn params(&self) -> Vec<u64> {
        tree(self)
    }
    fn probe(&self, o: &mut Vec<u64>) {
        probe_lens(self, o);
    }
    fn rebuilt(&self) -> Option<Self> {
        None
    }
}
impl<R: Num> Thing for PerspectiveParams<R> {
    fn params(&self) -> Vec<u64> {
        [self.fx, self.fy, self.skew, self.cx, self.cy].iter().map(|x| x.w()).collect()
    }
    fn probe(&self, o: &mut Vec<u64>) {
        P::<R>::from(self.clone()).probe(o);
    }
    fn rebuilt(&self) -> Option<Self> {
        Some(P::<R>::from(self.clone()).params().clone())
    }
}
impl<R: Num> Thing for OrthographicParams<R> {
    fn params(&self) -> Vec<u64> {
        [self.sx, self.sy, self.cx, self.cy].iter().map(|x| x.w()).collect()
    }
    fn probe(&self, o: &mut Vec<u64>) {
        O::<R>::from(self.clone()).probe(o);
    }
    fn rebuilt(&self) -> Option<Self> {
        None
    }
}
macro_rules! fixed_rays {
    ($($b:ident $n:ty),*) => {$(
        impl<R: Num> Thing for Rays<R, $b<R>, $n> {
            fn params(&self) -> Vec<u64> {
                let mut v: Vec<u64> = self.data.iter().map(|x| x.w()).collect();
                v.extend(self.directions().iter().map(|x| x.w()));
                v.extend(self.centers().iter().map(|x| x.w()));
                v
            }
            fn probe(&self, o: &mut Vec<u64>) {
                if let Some(p) = quiet(o, || self.point_on_ray()) {
                    mat(o, &p.data);
                }
                if let Some(p) = quiet(o, || self.point_on_ray_at_distance(R::of(3.0))) {
                    mat(o, &p.data);
                }
            }
            fn rebuilt(&self) -> Option<Self> {
                None
            }
        }
    )*};
}
fixed_rays!(SO U1, SO U2, SD U1);
macro_rules! dyn_rays {
    ($($b:ident),*) => {$(
        impl<R: Num> Thing for Rays<R, $b<R>, Dyn> {
            fn params(&self) -> Vec<u64> {
                if self.data.nrows() > 10_000 {
                    return vec![self.data.nrows() as u64; 1 << 16];
                }
                let mut v = tree(self);
                v.push(self.data.nrows() as u64);
                v.extend(self.data.iter().map(|x| x.w()));
                v
            }
            fn probe(&self, o: &mut Vec<u64>) {
                if let Some(p) = quiet(o, || self.point_on_ray()) {
                    mat(o, &p.data);
                }
                if let Some(p) = quiet(o, || self.point_on_ray_at_distance(R::of(3.0))) {
                    mat(o, &p.data);
                }
            }
            fn rebuilt(&self) -> Option<Self> {
                None
            }
        }
    )*};
}
dyn_rays!(SO, SD);
macro_rules! bundle_types {
    ($($b:ident),*) => {$(
        impl<R: Num> Thing for $b<R> {
            fn params(&self) -> Vec<u64> {
                let r = self.to_single_ray::<WorldFrame>(&SMatrix::<R, 1, 3>::new(R::of(1.0), R::of(2.0), R::of(3.0)));
                let mut v: Vec<u64> = r.center.iter().map(|x| x.w()).collect();
                v.extend(r.direction.iter().map(|x| x.w()));
                v
            }
            fn probe(&self, o: &mut Vec<u64>) {
                o.extend(Thing::params(self));
            }
            fn rebuilt(&self) -> Option<Self> {
                None
            }
        }
    )*};
}
bundle_types!(SO, SD);

fn persp<R: Num>(s: &ObjSpec) -> PerspectiveParams<R> {
    let l = |i: usize| R::of(s.lens[i].0);
    PerspectiveParams { fx: l(0), fy: l(1), skew: l(2), cx: l(3), cy: l(4) }
}
fn ortho<R: Num>(s: &ObjSpec) -> OrthographicParams<R> {
    let l = |i: usize| R::of(s.lens[i].0);
    OrthographicParams { sx: l(0), sy: l(1), cx: l(2), cy: l(3) }
}
fn pose<R: Num>(s: &ObjSpec) -> ExtrinsicParameters<R> {
    let q = |i: usize| R::of(s.quat[i].0);
    let c = |i: usize| R::of(s.cen[i].0);
    ExtrinsicParameters::from_rotation_and_camcenter(
        UnitQuaternion::new_normalize(Quaternion::new(q(0), q(1), q(2), q(3))),
        Point3::from(Vector3::new(c(0), c(1), c(2))),
    )
}
fn px<R: Num>(s: &ObjSpec, i: usize, j: usize) -> R {
    s.px.get(i).map_or(R::of(i as f64 + 0.5), |p| R::of(p[j].0))
}

fn build_as<R: Num>(s: &ObjSpec) -> Box<dyn Obj> {
    let cp = || Camera::new(P::<R>::from(persp(s)), pose(s));
    let co = || Camera::new(O::<R>::from(ortho(s)), pose(s));
    let p1 = || Pixels::new(SMatrix::<R, 1, 2>::from_fn(|i, j| px(s, i, j)));
    let p2 = || Pixels::new(SMatrix::<R, 2, 2>::from_fn(|i, j| px(s, i, j)));
    let pn = || Pixels::new(OMatrix::<R, Dyn, U2>::from_fn(s.px.len(), |i, j| px(s, i, j)));
    match s.kind {
        Kind::CamP => Box::new(W(cp())),
        Kind::CamO => Box::new(W(co())),
        Kind::Ext => Box::new(W(pose::<R>(s))),
        Kind::IntP => Box::new(W(P::<R>::from(persp(s)))),
        Kind::IntO => Box::new(W(O::<R>::from(ortho(s)))),
        Kind::ParP => Box::new(W(persp::<R>(s))),
        Kind::ParO => Box::new(W(ortho::<R>(s))),
        Kind::RayO1 => Box::new(W(cp().pixel_to_world(&p1()))),
        Kind::RayO2 => Box::new(W(cp().pixel_to_world(&p2()))),
        Kind::RayOn => Box::new(W(cp().pixel_to_world(&pn()))),
        Kind::RayD1 => Box::new(W(co().pixel_to_world(&p1()))),
        Kind::RayDn => Box::new(W(co().pixel_to_world(&pn()))),
        Kind::BunO => Box::new(W(SO::<R>::new_shared_zero_origin())),
        Kind::BunD => Box::new(W(SD::<R>::new_plusz_shared_direction())),
    }
}
pub fn build(s: &ObjSpec) -> Box<dyn Obj> {
    if s.single {
        build_as::<f32>(s)
    } else {
        build_as::<f64>(s)
    }
}

fn load_r<R: Num>(k: Kind, f: &Fmt, r: &mut dyn std::io::Read) -> Result<Box<dyn Obj>, String> {
    match k {
        Kind::CamP => load_thing::<Camera<R, P<R>>>(f, r),
        Kind::CamO => load_thing::<Camera<R, O<R>>>(f, r),
        Kind::Ext => load_thing::<ExtrinsicParameters<R>>(f, r),
        Kind::IntP => load_thing::<P<R>>(f, r),
        Kind::IntO => load_thing::<O<R>>(f, r),
        Kind::ParP => load_thing::<PerspectiveParams<R>>(f, r),
        Kind::ParO => load_thing::<OrthographicParams<R>>(f, r),
        Kind::RayO1 => load_thing::<Rays<R, SO<R>, U1>>(f, r),
        Kind::RayO2 => load_thing::<Rays<R, SO<R>, U2>>(f, r),
        Kind::RayOn => load_thing::<Rays<R, SO<R>, Dyn>>(f, r),
        Kind::RayD1 => load_thing::<Rays<R, SD<R>, U1>>(f, r),
        Kind::RayDn => load_thing::<Rays<R, SD<R>, Dyn>>(f, r),
        Kind::BunO => load_thing::<SO<R>>(f, r),
        Kind::BunD => load_thing::<SD<R>>(f, r),
    }
}
pub fn load(k: Kind, single: bool, f: &Fmt, r: &mut dyn std::io::Read) -> Result<Box<dyn Obj>, String> {
    if single {
        load_r::<f32>(k, f, r)
    } else {
        load_r::<f64>(k, f, r)
    }
}
