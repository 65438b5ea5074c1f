//! Plain descriptions of cameras, calls and inputs; everything a run does is made of these.
use serde::{Deserialize, Deserializer, Serialize, Serializer};

/// A number that survives JSON exactly, invalid and infinite values included.
#[derive(Clone, Copy, Debug)]
pub struct F(pub f64);
impl PartialEq for F {
    fn eq(&self, o: &F) -> bool {
        self.0.to_bits() == o.0.to_bits()
    }
}
impl Serialize for F {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{:?}", self.0))
    }
}
impl<'de> Deserialize<'de> for F {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        s.parse().map(F).map_err(serde::de::Error::custom)
    }
}
impl From<f64> for F {
    fn from(v: f64) -> F {
        F(v)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Num {
    F64,
    F32,
    Sim,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Lens {
    /// fx, fy, skew, cx, cy
    Persp([F; 5]),
    /// perspective, through `from_normalized_3x4_matrix`
    Matrix([F; 12]),
    /// sx, sy, cx, cy
    Ortho([F; 4]),
    /// user model answering with rays of shared origin / shared direction; behaviour, its argument
    UserO([F; 4], u8, u32),
    UserD([F; 4], u8, u32),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Pose {
    /// quaternion (w, i, j, k; normalized on construction) and camera centre
    Rot([F; 4], [F; 3]),
    /// camera centre, target, up
    View([F; 3], [F; 3], [F; 3]),
    /// quaternion and translation
    Iso([F; 4], [F; 3]),
    /// the whole camera comes from this projection matrix (perspective only)
    Pmat([F; 12]),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct CamSpec {
    pub num: Num,
    pub lens: Lens,
    pub pose: Pose,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    WorldToPixel,
    PixelToWorld,
    CameraToWorld,
    WorldToCamera,
    RayCameraToWorld,
    PixelToCamera,
    CameraToPixel,
    Bundle,
    Axes,
    Getters,
    AsMatrix,
    Jacobian,
    Intersect,
    CloneEq,
    DebugText,
    SaveLoad,
    SelfCheck,
    BundleUse,
}

pub const OPS: [Op; 18] = [
    Op::WorldToPixel,
    Op::PixelToWorld,
    Op::CameraToWorld,
    Op::WorldToCamera,
    Op::RayCameraToWorld,
    Op::PixelToCamera,
    Op::CameraToPixel,
    Op::Bundle,
    Op::Axes,
    Op::Getters,
    Op::AsMatrix,
    Op::Jacobian,
    Op::Intersect,
    Op::CloneEq,
    Op::DebugText,
    Op::SaveLoad,
    Op::SelfCheck,
    Op::BundleUse,
];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Store {
    Fixed1,
    Fixed2,
    Fixed4,
    Dynamic,
    View,
    Tapped,
}

impl Store {
    pub fn rows(self) -> Option<usize> {
        match self {
            Store::Fixed1 => Some(1),
            Store::Fixed2 => Some(2),
            Store::Fixed4 => Some(4),
            _ => None,
        }
    }
}

/// Rows of the input: points (x, y, z), or pixels (u, v, -), or for `Intersect` alternating
/// origins and directions; and one more number (distance, tolerance).
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Inp {
    pub store: Store,
    pub rows: Vec<[F; 3]>,
    pub d: F,
}

/// One call: on which camera, which operation, on which input.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Combo {
    pub cam: CamSpec,
    pub op: Op,
    pub inp: Inp,
}

impl Combo {
    pub fn key(&self) -> String {
        format!("{self:?}")
    }
    /// Data of fixed size throughout: no memory is needed from the heap.
    pub fn fixed(&self) -> bool {
        match self.op {
            Op::Intersect | Op::DebugText | Op::SaveLoad | Op::SelfCheck | Op::BundleUse => false,
            Op::Axes | Op::Getters | Op::AsMatrix | Op::Jacobian | Op::CloneEq => true,
            _ => self.inp.store.rows().is_some(),
        }
    }
}

/// Which object a call works on.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum How {
    /// the object shared by all callers
    Shared,
    /// an object built for this call and dropped after it
    Fresh,
    /// a clone of the shared object, dropped after the call
    Clone,
}
