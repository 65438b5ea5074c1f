//! Generation of cameras, inputs and calls. Cameras and inputs come in *families* whose members are
//! easily confused with each other: anything the code might remember about one call is put next to
//! a call for which remembering it would be wrong.
use camglue::spec::*;
use simcore::rng::Rng;

fn f(v: f64) -> F {
    F(v)
}

pub fn ulp(v: f64, k: i64) -> f64 {
    if !v.is_finite() || v == 0.0 {
        return f64::from_bits(k.unsigned_abs());
    }
    f64::from_bits((v.to_bits() as i64 + k) as u64)
}

pub fn nice(r: &mut Rng) -> f64 {
    match r.usize(12) {
        0 => r.range(-10, 10) as f64,
        1 => r.range(-10, 10) as f64 / 4.0,
        2 => 0.0,
        3 => -0.0,
        4 => r.uni(-1e-3, 1e-3),
        5 => r.uni(-1e3, 1e3),
        _ => r.uni(-10.0, 10.0),
    }
}
pub fn wild(r: &mut Rng) -> f64 {
    match r.usize(14) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => 0.0,
        4 => -0.0,
        5 => 5e-324,
        6 => 1e308,
        7 => -1e308,
        8 => 1e-300,
        _ => nice(r),
    }
}
pub fn vec3(r: &mut Rng) -> [F; 3] {
    [f(nice(r)), f(nice(r)), f(nice(r))]
}
pub fn quat(r: &mut Rng) -> [F; 4] {
    match r.usize(8) {
        0 => [f(1.0), f(0.0), f(0.0), f(0.0)],
        1 => {
            let mut q = [f(0.0); 4];
            q[r.usize(4)] = f(1.0);
            q
        }
        _ => loop {
            let q = [r.uni(-1.0, 1.0), r.uni(-1.0, 1.0), r.uni(-1.0, 1.0), r.uni(-1.0, 1.0)];
            let n: f64 = q.iter().map(|x| x * x).sum();
            if n > 0.05 {
                return [f(q[0]), f(q[1]), f(q[2]), f(q[3])];
            }
        },
    }
}

pub fn lens(r: &mut Rng, num: Num, users: bool) -> Lens {
    let w = if users { [6, 1, 3, 4, 2] } else { [8, 1, 4, 1, 1] };
    match r.weighted(&w) {
        0 => {
            let sign = |r: &mut Rng| if r.chance(0.06) { -1.0 } else { 1.0 };
            let fx = r.uni(50.0, 1500.0) * sign(r);
            let fy = if r.chance(0.5) { fx } else { r.uni(50.0, 1500.0) * sign(r) };
            Lens::Persp([
                f(fx),
                f(fy),
                f(if r.chance(0.6) { 0.0 } else if r.chance(0.8) { r.uni(-2.0, 2.0) } else { r.uni(-90.0, 90.0) }),
                f(r.uni(0.0, 1280.0)),
                f(r.uni(0.0, 960.0)),
            ])
        }
        1 => {
            let mut m = [f(0.0); 12];
            m[0] = f(r.uni(50.0, 1500.0));
            m[1] = f(r.uni(-1.0, 1.0));
            m[2] = f(r.uni(0.0, 1000.0));
            m[5] = f(r.uni(50.0, 1500.0));
            m[6] = f(r.uni(0.0, 1000.0));
            m[10] = f(1.0);
            if r.chance(0.3) {
                m[r.usize(12)] = f(wild(r)); // mostly rejected
            }
            Lens::Matrix(m)
        }
        2 => Lens::Ortho([f(r.uni(1.0, 300.0)), f(r.uni(1.0, 300.0)), f(r.uni(0.0, 1280.0)), f(r.uni(0.0, 960.0))]),
        k => {
            let p = [f(r.uni(1.0, 300.0)), f(r.uni(0.0, 900.0)), f(r.uni(1.0, 300.0)), f(r.uni(0.0, 900.0))];
            let b = if r.chance(0.3) { 1 + r.usize(4) as u8 } else { 0 };
            let a = r.usize(20) as u32;
            if k == 3 || num == Num::Sim {
                Lens::UserO(p, b, a)
            } else {
                Lens::UserD(p, b, a)
            }
        }
    }
}

pub fn pose(r: &mut Rng, lens: &Lens) -> Pose {
    let w = match lens {
        Lens::Persp(_) => [5, 4, 2, 2],
        _ => [5, 4, 2, 0],
    };
    match r.weighted(&w) {
        0 => Pose::Rot(quat(r), vec3(r)),
        1 => {
            let c = vec3(r);
            let mut a = vec3(r);
            let up = *r.pick(&[[0.0, 0.0, 1.0], [0.0, 1.0, 0.0], [1.0, 0.0, 0.0], [0.3, -0.2, 0.9], [0.0, -1.0, 0.0]]);
            match r.usize(24) {
                // looks along its up vector, exactly or very nearly, or nowhere
                k @ 0..=2 => {
                    let d = *r.pick(&[1.0, -1.0, 4.0, -0.5, 1000.0]);
                    for j in 0..3 {
                        a[j] = f(c[j].0 + d * up[j]);
                    }
                    if k == 2 {
                        a[r.usize(3)].0 += 1e-9;
                    }
                }
                3 => a = c,
                _ => {}
            }
            Pose::View(c, a, [f(up[0]), f(up[1]), f(up[2])])
        }
        2 => Pose::Iso(quat(r), vec3(r)),
        _ => {
            let mut m = [f(0.0); 12];
            for x in &mut m {
                *x = f(r.uni(-5.0, 5.0));
            }
            m[0] = f(r.uni(50.0, 800.0));
            m[5] = f(r.uni(50.0, 800.0));
            m[2] = f(r.uni(0.0, 500.0));
            m[6] = f(r.uni(0.0, 500.0));
            m[10] = f(r.uni(0.5, 2.0));
            match r.usize(10) {
                // the same projection, written with the opposite sign
                0 | 1 => {
                    for x in &mut m {
                        x.0 = -x.0;
                    }
                }
                // mirrored
                2 => {
                    let k = 4 * r.usize(3);
                    for x in &mut m[k..k + 3] {
                        x.0 = -x.0;
                    }
                }
                // anything
                3 => {
                    for x in &mut m {
                        *x = f(nice(r));
                    }
                }
                // no rotation at all
                4 => {
                    for i in [1, 4, 8, 9] {
                        m[i] = f(0.0);
                    }
                }
                _ => {}
            }
            if r.chance(0.25) {
                // degenerate: an all-zero row, invalid or infinite entries
                match r.usize(3) {
                    0 => {
                        for j in 0..4 {
                            m[4 + j] = f(0.0)
                        }
                    }
                    _ => m[r.usize(12)] = f(wild(r)),
                }
            }
            Pose::Pmat(m)
        }
    }
}

pub fn num(r: &mut Rng) -> Num {
    [Num::F64, Num::F32, Num::Sim][r.weighted(&[6, 2, 3])]
}

pub fn camera(r: &mut Rng, n: Num, users: bool) -> CamSpec {
    let n = n;
    let lens = lens(r, n, users);
    let lens = match (n, lens) {
        (Num::F32, Lens::UserO(..) | Lens::UserD(..)) => Lens::Ortho([f(3.0), f(4.0), f(5.0), f(6.0)]),
        (_, l) => l,
    };
    let pose = pose(r, &lens);
    CamSpec { num: n, lens, pose }
}

fn params_mut(c: &mut CamSpec) -> Vec<&mut F> {
    let mut v: Vec<&mut F> = match &mut c.lens {
        Lens::Persp(a) => a.iter_mut().collect(),
        Lens::Matrix(a) => a.iter_mut().collect(),
        Lens::Ortho(a) => a.iter_mut().collect(),
        Lens::UserO(a, ..) | Lens::UserD(a, ..) => a.iter_mut().collect(),
    };
    match &mut c.pose {
        Pose::Rot(q, p) | Pose::Iso(q, p) => {
            v.extend(q.iter_mut());
            v.extend(p.iter_mut());
        }
        Pose::View(a, b, u) => {
            v.extend(a.iter_mut());
            v.extend(b.iter_mut());
            v.extend(u.iter_mut());
        }
        Pose::Pmat(m) => v.extend(m.iter_mut()),
    }
    v
}

fn tweak(r: &mut Rng, v: f64, num: Num) -> f64 {
    match r.usize(11) {
        0 => {
            // the smallest step of the number type
            if num == Num::F32 {
                let x = v as f32;
                (if x == 0.0 { f32::from_bits(1) } else { f32::from_bits(x.to_bits().wrapping_add(1)) }) as f64
            } else {
                ulp(v, 1)
            }
        }
        1 => ulp(v, -1),
        2 => -v,
        3 => v + 1e-9,
        4 => v + 1e-6 * v.abs().max(1.0),
        5 => v * (1.0 + 1e-12),
        6 => v + 1.0,
        7 => wild(r),
        8 => v * 2.0,
        9 => {
            if v == 0.0 {
                -v
            } else {
                v + 0.5
            }
        }
        _ => v + 1e-3,
    }
}

/// A camera that is easily confused with `c`.
pub fn relative(r: &mut Rng, c: &CamSpec) -> CamSpec {
    let mut k = c.clone();
    match r.usize(10) {
        0 => {} // the same once more
        1 => {
            // swap two parameters
            let mut p = params_mut(&mut k);
            let n = p.len();
            let (i, j) = (r.usize(n), r.usize(n));
            let t = *p[i];
            *p[i] = *p[j];
            *p[j] = t;
        }
        2 => {
            // other pose, same lens; keep part of the pose
            match &mut k.pose {
                Pose::Rot(q, p) | Pose::Iso(q, p) => {
                    if r.chance(0.5) {
                        *q = quat(r)
                    } else {
                        *p = vec3(r)
                    }
                }
                Pose::View(a, b, u) => match r.usize(3) {
                    0 => *a = vec3(r),
                    1 => *b = vec3(r),
                    _ => *u = [f(0.1), f(0.7), f(0.7)],
                },
                Pose::Pmat(m) => m[3 + 4 * r.usize(3)] = f(r.uni(-5.0, 5.0)),
            }
        }
        3 => {
            // other lens of the same kind, same pose
            for p in match &mut k.lens {
                Lens::Persp(a) => a.iter_mut(),
                Lens::Ortho(a) => a.iter_mut(),
                Lens::UserO(a, ..) | Lens::UserD(a, ..) => a.iter_mut(),
                Lens::Matrix(a) => a[..1].iter_mut(),
            } {
                if r.chance(0.6) {
                    *p = f(r.uni(10.0, 900.0));
                }
            }
        }
        4 => {
            // same rotation written with the opposite sign
            if let Pose::Rot(q, _) | Pose::Iso(q, _) = &mut k.pose {
                for x in q {
                    x.0 = -x.0
                }
            }
        }
        5 => {
            // same numbers, another number type
            if !matches!(k.lens, Lens::UserO(..) | Lens::UserD(..)) {
                k.num = *r.pick(&[Num::F64, Num::F32, Num::Sim]);
            }
        }
        6 => {
            // same numbers, another kind of pose
            k.pose = match k.pose {
                Pose::Rot(q, p) => Pose::Iso(q, p),
                Pose::Iso(q, p) => Pose::Rot(q, p),
                p => p,
            };
        }
        _ => {
            let n = k.num;
            let mut p = params_mut(&mut k);
            let i = r.usize(p.len());
            p[i].0 = tweak(r, p[i].0, n);
        }
    }
    k
}

pub fn rows(r: &mut Rng, n: usize) -> Vec<[F; 3]> {
    // (one wild number spoils the result of a whole intersection)
    let wilds = match r.usize(4) {
        0 => 0.0,
        1 => 0.06 * 8.0 / (8 + n) as f64,
        _ => 0.06,
    };
    (0..n)
        .map(|_| {
            let mut v = vec3(r);
            if r.chance(wilds) {
                v[r.usize(3)] = f(wild(r));
            }
            v
        })
        .collect()
}

pub fn store(r: &mut Rng) -> Store {
    [Store::Fixed1, Store::Fixed2, Store::Fixed4, Store::Dynamic, Store::View, Store::Tapped]
        [r.weighted(&[3, 2, 2, 4, 2, 3])]
}

pub fn batch(r: &mut Rng) -> usize {
    match r.usize(24) {
        0 => 0,
        1 => 16 + r.usize(20),
        2 => 60 + r.usize(80),
        3..=6 => 1,
        _ => 1 + r.usize(8),
    }
}

/// A batch size around those at which work might be treated differently.
pub fn big_batch(r: &mut Rng) -> usize {
    match r.usize(16) {
        0..=8 => 100 + r.usize(420),
        9..=11 => *r.pick(&[128usize, 256, 256, 512, 1000, 1024]) + r.usize(4) - 1,
        12 | 13 => 500 + r.usize(700),
        14 => *r.pick(&[2048usize, 4096, 5000]) + r.usize(3) - 1,
        _ => 1200 + r.usize(3000),
    }
}

pub fn input(r: &mut Rng, op: Op, big: bool) -> Inp {
    if op == Op::Intersect {
        let k = if big { big_batch(r) } else { [0, 1, 2, 2, 2, 3, 3, 5, 9, 9, 17, 34, 40 + r.usize(40)][r.usize(13)] };
        let mut v = rows(r, 2 * k);
        if r.chance(0.15) && k >= 2 {
            // parallel rays
            for i in 1..k {
                v[2 * i + 1] = v[1];
            }
        }
        return Inp { store: Store::Dynamic, rows: v, d: f(1.0) };
    }
    let st = if big && r.chance(0.8) { *r.pick(&[Store::Dynamic, Store::Dynamic, Store::View, Store::Tapped]) } else { store(r) };
    let n = st.rows().unwrap_or_else(|| if big && r.chance(0.9) { big_batch(r) } else { batch(r) });
    let d = match op {
        Op::SelfCheck => f(*r.pick(&[1e-6, 1e-9, 1e-3, 1e-20])),
        Op::SaveLoad => save_fault(r),
        _ => f(*r.pick(&[1.0, 2.5, 10.0, 0.0, -1.0])),
    };
    let mut v = rows(r, n);
    if matches!(op, Op::PixelToWorld | Op::PixelToCamera | Op::RayCameraToWorld | Op::Bundle | Op::BundleUse) {
        for x in &mut v {
            if r.chance(0.8) {
                x[0] = f(r.uni(0.0, 1280.0));
                x[1] = f(r.uni(0.0, 960.0));
            }
        }
    }
    Inp { store: st, rows: v, d }
}

/// What happens to the data between saving and loading, and how the loader sees it.
fn save_fault(r: &mut Rng) -> F {
    let how = if r.chance(0.6) { 1000 * r.usize(135) } else { 0 };
    f((how
        + match r.usize(5) {
            0 => r.usize(60),
            1 | 2 => 100 + r.usize(48),
            _ => 999,
        }) as f64)
}

/// An input that is easily confused with `i`.
pub fn input_relative(r: &mut Rng, op: Op, i: &Inp) -> Inp {
    let mut k = i.clone();
    let n = k.rows.len();
    if op == Op::Intersect {
        if n >= 4 {
            match r.usize(4) {
                0 => {
                    let t = k.rows[0];
                    k.rows[0] = k.rows[2];
                    k.rows[2] = t;
                }
                1 => k.rows.truncate(n - 2),
                _ => {
                    let j = r.usize(n);
                    let c = r.usize(3);
                    k.rows[j][c].0 = tweak(r, k.rows[j][c].0, Num::F64)
                }
            }
        }
        return k;
    }
    match r.usize(8) {
        0 => {
            // other storage, same rows as far as they go
            k.store = store(r);
            if let Some(m) = k.store.rows() {
                while k.rows.len() < m {
                    let x = k.rows.last().copied().unwrap_or_else(|| vec3(r));
                    k.rows.push(x);
                }
                k.rows.truncate(m);
            }
        }
        1 if n > 1 => k.rows.rotate_left(1),
        2 if k.store.rows().is_none() => k.rows.push(vec3(r)),
        3 if k.store.rows().is_none() && n > 0 => {
            k.rows.pop();
        }
        4 if n > 0 => {
            // swap coordinates: equal sums, equal bags of bits
            let j = r.usize(n);
            k.rows[j].swap(0, 1);
        }
        5 if n > 1 => k.rows.swap(0, n - 1),
        6 => k.d.0 = tweak(r, k.d.0, Num::F64),
        _ => {
            if n > 0 {
                let j = r.usize(n);
                let c = r.usize(3);
                k.rows[j][c].0 = tweak(r, k.rows[j][c].0, Num::F64)
            }
        }
    }
    k
}

#[derive(Clone)]
pub struct Taste {
    /// weights of the operations in `OPS`
    pub ops: [u32; 18],
    pub cams: usize,
    pub combos: usize,
    pub users: bool,
    pub num: [u32; 3],
    /// dynamically sized inputs are large
    pub big: bool,
}

pub const OPW: [u32; 18] = [9, 9, 4, 5, 4, 4, 5, 4, 3, 2, 4, 5, 3, 2, 1, 2, 1, 3];

/// A universe of related calls.
pub fn universe(r: &mut Rng, t: &Taste) -> Vec<Combo> {
    let mut cams: Vec<CamSpec> = vec![];
    let roots = 1 + r.usize(2);
    for i in 0..t.cams {
        if i < roots {
            let n = [Num::F64, Num::F32, Num::Sim][r.weighted(&t.num)];
            cams.push(camera(r, n, t.users));
        } else {
            let j = r.usize(cams.len());
            let c = relative(r, &cams[j]);
            cams.push(c);
        }
    }
    // a swarm: only some operations take part
    let mut ops: Vec<Op> = vec![];
    let k = 2 + r.usize(4);
    for _ in 0..k {
        ops.push(OPS[r.weighted(&t.ops)]);
    }
    let mut inputs: Vec<(Op, Inp)> = vec![];
    let mut v: Vec<Combo> = vec![];
    while v.len() < t.combos {
        let op = *r.pick(&ops);
        let known: Vec<&(Op, Inp)> = inputs.iter().filter(|(o, _)| same_kind(*o, op)).collect();
        let inp = if known.is_empty() || r.chance(0.12) {
            input(r, op, t.big)
        } else {
            let b = known[r.usize(known.len())].1.clone();
            if r.chance(0.45) {
                b
            } else {
                input_relative(r, op, &b)
            }
        };
        if inputs.len() < 24 {
            inputs.push((op, inp.clone()));
        }
        let cam = cams[r.usize(cams.len())].clone();
        let mut inp = inp;
        if op == Op::SaveLoad && r.chance(0.7) {
            inp.d = save_fault(r);
        }
        let world = matches!(op, Op::WorldToPixel | Op::WorldToCamera | Op::Jacobian);
        if (world || op == Op::CameraToPixel) && !inp.rows.is_empty() && r.chance(0.12) {
            // a point in the plane of the camera, or at its center
            let at = match &cam.pose {
                Pose::Rot(_, c) | Pose::View(c, ..) if world => *c,
                _ => [f(0.0); 3],
            };
            let j = r.usize(inp.rows.len());
            match r.usize(4) {
                0 => inp.rows[j] = at,
                1 => inp.rows[j][2] = at[2],
                _ => {
                    let c = r.usize(3);
                    inp.rows[j][c] = at[c];
                }
            }
        }
        v.push(Combo { cam, op, inp });
    }
    v
}

fn same_kind(a: Op, b: Op) -> bool {
    let k = |o: Op| match o {
        Op::Intersect => 1,
        Op::PixelToWorld | Op::PixelToCamera | Op::RayCameraToWorld | Op::Bundle | Op::BundleUse => 2,
        Op::SelfCheck => 3,
        _ => 4,
    };
    k(a) == k(b)
}
