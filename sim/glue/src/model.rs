//! A user-supplied lens model, and point storage supplied by the user.
use crate::scalar::Sc;
use cam_geom::coordinate_system::CameraFrame;
use cam_geom::ray_bundle_types::{SharedDirectionRayBundle, SharedOriginRayBundle};
use cam_geom::{Bundle, IntrinsicParameters, Pixels, Points, RayBundle};
use nalgebra::allocator::Allocator;
use nalgebra::storage::{Owned, RawStorage, Storage};
use nalgebra::{DefaultAllocator, Dim, Dyn, Matrix, OMatrix, U1, U2, U3};
use simcore::engine::{self, quiet, rec, seam};
use simcore::shared::ctr;
use std::marker::PhantomData;

/// How a user model builds its ray bundle.
pub trait Mk<R: Sc>: Bundle<R> + Clone + std::fmt::Debug + PartialEq + Send + Sync + 'static {
    fn mk<N: Dim>(data: OMatrix<R, N, U3>) -> RayBundle<CameraFrame, Self, R, N, Owned<R, N, U3>>
    where
        DefaultAllocator: Allocator<N, U3>;
    /// a bundle made by the user, over storage of any kind
    fn over<N: Dim, S: Storage<R, N, U3>>(data: Matrix<R, N, U3, S>) -> RayBundle<CameraFrame, Self, R, N, S>;
}
impl<R: Sc> Mk<R> for SharedOriginRayBundle<R> {
    fn mk<N: Dim>(data: OMatrix<R, N, U3>) -> RayBundle<CameraFrame, Self, R, N, Owned<R, N, U3>>
    where
        DefaultAllocator: Allocator<N, U3>,
    {
        RayBundle::new_shared_zero_origin(data)
    }
    fn over<N: Dim, S: Storage<R, N, U3>>(data: Matrix<R, N, U3, S>) -> RayBundle<CameraFrame, Self, R, N, S> {
        RayBundle::new_shared_zero_origin(data)
    }
}
impl<R: Sc> Mk<R> for SharedDirectionRayBundle<R> {
    fn mk<N: Dim>(data: OMatrix<R, N, U3>) -> RayBundle<CameraFrame, Self, R, N, Owned<R, N, U3>>
    where
        DefaultAllocator: Allocator<N, U3>,
    {
        RayBundle::new_shared_plusz_direction(data)
    }
    fn over<N: Dim, S: Storage<R, N, U3>>(data: Matrix<R, N, U3, S>) -> RayBundle<CameraFrame, Self, R, N, S> {
        RayBundle::new_shared_plusz_direction(data)
    }
}

pub struct User<R, B> {
    pub k: [R; 4],
    pub behave: u8,
    pub arg: u32,
    pub b: PhantomData<fn() -> B>,
}
impl<R: Clone, B> Clone for User<R, B> {
    fn clone(&self) -> Self {
        User { k: self.k.clone(), behave: self.behave, arg: self.arg, b: PhantomData }
    }
}
impl<R: PartialEq, B> PartialEq for User<R, B> {
    fn eq(&self, o: &Self) -> bool {
        self.k == o.k && self.behave == o.behave && self.arg == o.arg
    }
}
impl<R: std::fmt::Debug, B> std::fmt::Debug for User<R, B> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        seam();
        f.debug_struct("User").field("k", &self.k).field("behave", &self.behave).finish()
    }
}

/// Whether the calls that reach user models are recorded word by word.
pub static mut LOG: bool = false;
pub const MAGIC: u64 = 0xCA11_0000_0000_0000;

fn log_call<R: Sc, N: Dim, C: Dim, S: RawStorage<R, N, C>>(kind: u64, m: &Matrix<R, N, C, S>) {
    quiet(|| {
        let r = rec();
        r.ctr[ctr::MODEL_CALL] += 1;
        if unsafe { LOG } {
            let tid = engine::managed().map_or(0, |t| t.id as u64);
            r.push_log(MAGIC | kind << 8 | tid);
            r.push_log(m.nrows() as u64);
            for i in 0..m.nrows() {
                for j in 0..m.ncols() {
                    r.push_log(m[(i, j)].word());
                }
            }
        }
    })
}
fn log_answer<R: Sc, N: Dim, C: Dim, S: RawStorage<R, N, C>>(m: &Matrix<R, N, C, S>) {
    quiet(|| {
        if unsafe { LOG } {
            let r = rec();
            let tid = engine::managed().map_or(0, |t| t.id as u64);
            r.push_log(MAGIC | 0xA << 8 | tid);
            r.push_log(m.nrows() as u64);
            for i in 0..m.nrows() {
                for j in 0..m.ncols() {
                    r.push_log(m[(i, j)].word());
                }
            }
        }
    })
}

impl<R: Sc, B> User<R, B> {
    /// A fault of the model: an invalid, infinite, absurd or constant answer for some points.
    fn garble(&self, i: usize, j: usize, v: R) -> R {
        let hit = self.behave != 0 && (i as u32).wrapping_add(self.arg) % (2 + self.arg % 5) == 0;
        if !hit {
            return v;
        }
        quiet(|| rec().ctr[ctr::MODEL_GARBAGE] += 1);
        match self.behave {
            1 => R::of(f64::NAN),
            2 => R::of(if j == 0 { f64::INFINITY } else { f64::NEG_INFINITY }),
            3 => R::of(-0.0),
            4 => R::of(1e30),
            _ => v,
        }
    }
}

impl<R: Sc, B: Mk<R>> IntrinsicParameters<R> for User<R, B> {
    type BundleType = B;

    fn pixel_to_camera<IN, NPTS>(
        &self,
        pixels: &Pixels<R, NPTS, IN>,
    ) -> RayBundle<CameraFrame, B, R, NPTS, Owned<R, NPTS, U3>>
    where
        IN: Storage<R, NPTS, U2>,
        NPTS: Dim,
        DefaultAllocator: Allocator<U1, U2>,
        DefaultAllocator: Allocator<NPTS, U2>,
        DefaultAllocator: Allocator<NPTS, U3>,
    {
        seam();
        log_call(1, &pixels.data);
        let n = pixels.data.nrows();
        let mut out = OMatrix::<R, NPTS, U3>::zeros_generic(NPTS::from_usize(n), U3);
        for i in 0..n {
            seam();
            let u = pixels.data[(i, 0)].clone();
            let v = pixels.data[(i, 1)].clone();
            let x = (u - self.k[1].clone()) / self.k[0].clone();
            let y = (v - self.k[3].clone()) / self.k[2].clone();
            out[(i, 0)] = self.garble(i, 0, x);
            out[(i, 1)] = self.garble(i, 1, y);
            out[(i, 2)] = self.garble(i, 2, R::one());
        }
        log_answer(&out);
        seam();
        B::mk(out)
    }

    fn camera_to_pixel<IN, NPTS>(
        &self,
        camera: &Points<CameraFrame, R, NPTS, IN>,
    ) -> Pixels<R, NPTS, Owned<R, NPTS, U2>>
    where
        IN: Storage<R, NPTS, U3>,
        NPTS: Dim,
        DefaultAllocator: Allocator<NPTS, U2>,
    {
        seam();
        log_call(2, &camera.data);
        let n = camera.data.nrows();
        let mut out = OMatrix::<R, NPTS, U2>::zeros_generic(NPTS::from_usize(n), U2);
        for i in 0..n {
            seam();
            let x = camera.data[(i, 0)].clone();
            let y = camera.data[(i, 1)].clone();
            let z = camera.data[(i, 2)].clone();
            // not a pinhole: the depth enters asymmetrically, so a mix-up of coordinates shows
            let u = x / (R::one() + z.clone() * z.clone()) * self.k[0].clone() + self.k[1].clone();
            let v = (y + z) * self.k[2].clone() - self.k[3].clone();
            out[(i, 0)] = self.garble(i, 0, u);
            out[(i, 1)] = self.garble(i, 1, v);
        }
        log_answer(&out);
        seam();
        Pixels::new(out)
    }
}

/// Point storage supplied by the user: every access is user code.
pub struct Tap<R> {
    v: Vec<R>,
    n: usize,
}
impl<R: Sc> Tap<R> {
    pub fn new(n: usize, cols: usize, f: impl Fn(usize, usize) -> R) -> Self {
        let mut v = Vec::with_capacity(n * cols);
        for j in 0..cols {
            for i in 0..n {
                v.push(f(i, j));
            }
        }
        Tap { v, n }
    }
}
macro_rules! tap {
    ($($C:ident $k:expr),*) => { $(
        unsafe impl<R: Sc> RawStorage<R, Dyn, $C> for Tap<R> {
            type RStride = U1;
            type CStride = Dyn;
            fn ptr(&self) -> *const R { seam(); self.v.as_ptr() }
            fn shape(&self) -> (Dyn, $C) { (Dyn(self.n), $C) }
            fn strides(&self) -> (U1, Dyn) { (U1, Dyn(self.n)) }
            fn linear_index(&self, i: usize, j: usize) -> usize { seam(); i + j * self.n }
            fn is_contiguous(&self) -> bool { true }
            unsafe fn as_slice_unchecked(&self) -> &[R] { seam(); &self.v }
        }
        unsafe impl<R: Sc> Storage<R, Dyn, $C> for Tap<R> {
            fn into_owned(self) -> Owned<R, Dyn, $C> {
                Storage::<R, Dyn, $C>::clone_owned(&self)
            }
            fn clone_owned(&self) -> Owned<R, Dyn, $C> {
                seam();
                nalgebra::VecStorage::new(Dyn(self.n), $C, self.v.clone())
            }
            fn forget_elements(mut self) { unsafe { self.v.set_len(0) } }
        }
    )* };
}
tap!(U2 2, U3 3);
