//! Plain descriptions of objects to save.
use serde::{Deserialize, Deserializer, Serialize, Serializer};

/// A number that survives the plan's own JSON exactly.
#[derive(Clone, Copy, Debug)]
pub struct F(pub f64);
impl PartialEq for F {
    fn eq(&self, o: &F) -> bool {
        self.0.to_bits() == o.0.to_bits()
    }
}
impl Serialize for F {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{:?}", self.0))
    }
}
impl<'de> Deserialize<'de> for F {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        s.parse().map(F).map_err(serde::de::Error::custom)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind {
    /// whole cameras
    CamP,
    CamO,
    /// pose
    Ext,
    /// lens models
    IntP,
    IntO,
    /// their parameters
    ParP,
    ParO,
    /// ray bundles: shared origin / shared direction; one ray, two rays, any number
    RayO1,
    RayO2,
    RayOn,
    RayD1,
    RayDn,
    /// bundle types alone
    BunO,
    BunD,
}
pub const KINDS: [Kind; 14] = [
    Kind::CamP,
    Kind::CamO,
    Kind::Ext,
    Kind::IntP,
    Kind::IntO,
    Kind::ParP,
    Kind::ParO,
    Kind::RayO1,
    Kind::RayO2,
    Kind::RayOn,
    Kind::RayD1,
    Kind::RayDn,
    Kind::BunO,
    Kind::BunD,
];

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ObjSpec {
    pub kind: Kind,
    /// single precision
    pub single: bool,
    /// fx, fy, skew, cx, cy or sx, sy, cx, cy
    pub lens: [F; 5],
    /// rotation, normalized on construction
    pub quat: [F; 4],
    pub cen: [F; 3],
    /// pixels the rays go through
    pub px: Vec<[F; 2]>,
}
