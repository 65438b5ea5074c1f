//! Saving and loading: every serializable object of the crate, in the working tree and in the
//! frozen release, through real formats onto a simulated disk.
pub mod disk;
pub mod obj;
pub mod spec;
pub mod val;

pub mod cur {
    use cam_geom as cg;
    include!("side.rs");
}
pub mod old {
    use cam_geom_frozen as cg;
    include!("side.rs");
}

use obj::{Fmt, Obj};
use spec::{Kind, ObjSpec};

/// Build an object with the working tree (`old` false) or with the frozen release.
pub fn build(s: &ObjSpec, old: bool) -> Box<dyn Obj> {
    if old {
        old::build(s)
    } else {
        cur::build(s)
    }
}

pub fn load(kind: Kind, single: bool, old: bool, f: &Fmt, r: &mut dyn std::io::Read) -> Result<Box<dyn Obj>, String> {
    if old {
        old::load(kind, single, f, r)
    } else {
        cur::load(kind, single, f, r)
    }
}
