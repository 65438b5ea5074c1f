//! Checks what reached the user-supplied lens models of a run, and what came of their answers,
//! against the described arguments and an independent computation of the change of frame.
use crate::plan::*;
use crate::runner::{Ref, Runner};
use camglue::model::MAGIC;
use camglue::spec::*;
use simcore::shared::{st, NLOG};

#[derive(Default, Clone)]
struct Open {
    op: u32,
    /// (kind, input, answer)
    calls: Vec<(u64, Vec<u64>, Option<Vec<u64>>)>,
    result: Vec<u64>,
    nested: bool,
    active: bool,
}

type M3 = [[f64; 3]; 3];

fn rot(q: &[F; 4]) -> M3 {
    let n = q.iter().map(|x| x.0 * x.0).sum::<f64>().sqrt();
    let [w, x, y, z] = [q[0].0 / n, q[1].0 / n, q[2].0 / n, q[3].0 / n];
    [
        [1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y - z * w), 2.0 * (x * z + y * w)],
        [2.0 * (x * y + z * w), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z - x * w)],
        [2.0 * (x * z - y * w), 2.0 * (y * z + x * w), 1.0 - 2.0 * (x * x + y * y)],
    ]
}
fn mulv(m: &M3, v: &[f64; 3]) -> [f64; 3] {
    let mut o = [0.0; 3];
    for i in 0..3 {
        o[i] = m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2];
    }
    o
}
fn tr(m: &M3) -> M3 {
    let mut o = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            o[i][j] = m[j][i];
        }
    }
    o
}
fn sub(a: &[f64; 3], b: &[f64; 3]) -> [f64; 3] {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn cross(a: &[f64; 3], b: &[f64; 3]) -> [f64; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn norm(a: &[f64; 3]) -> f64 {
    a.iter().map(|x| x * x).sum::<f64>().sqrt()
}
fn unit(a: &[f64; 3]) -> [f64; 3] {
    let n = norm(a);
    [a[0] / n, a[1] / n, a[2] / n]
}
fn arr(a: &[F; 3]) -> [f64; 3] {
    [a[0].0, a[1].0, a[2].0]
}

/// Rotation and camera centre by our own arithmetic; None where the pose is degenerate.
pub fn frame(p: &Pose) -> Option<(M3, [f64; 3])> {
    let (r, c) = match p {
        Pose::Rot(q, _) | Pose::Iso(q, _)
            if !(1e-100..1e100).contains(&q.iter().map(|x| x.0 * x.0).sum::<f64>()) =>
        {
            return None;
        }
        Pose::Rot(q, c) => (rot(q), arr(c)),
        Pose::Iso(q, t) => {
            let r = rot(q);
            let c = mulv(&tr(&r), &arr(t));
            (r, [-c[0], -c[1], -c[2]])
        }
        Pose::View(c, a, u) => {
            let (c, a, u) = (arr(c), arr(a), arr(u));
            let d = sub(&a, &c);
            if !(norm(&d) > 1e-6) {
                return None;
            }
            let f = unit(&d);
            let rgt = cross(&f, &u);
            if !(norm(&rgt) > 1e-3 * norm(&u)) {
                return None;
            }
            let rgt = unit(&rgt);
            let dn = cross(&f, &rgt);
            ([rgt, dn, f], c)
        }
        Pose::Pmat(_) => return None,
    };
    let ok = r.iter().flatten().chain(c.iter()).all(|x| x.is_finite() && x.abs() < 1e100);
    ok.then_some((r, c))
}

fn near(got: f64, want: f64, scale: f64) -> bool {
    !want.is_finite() || !scale.is_finite() || scale > 1e150 || (got - want).abs() <= 1e-9 * (scale + 1.0)
}

pub fn check(run: &Runner, p: &Calls, refs: &[Ref]) -> Result<(), String> {
    let rec = run.rec();
    let n = (rec.nlog as usize).min(NLOG);
    let log = &rec.log[..n];
    let truncated = rec.nlog as usize > NLOG;
    let mut open: Vec<Open> = vec![Open::default(); 8];
    let single = p.progs.len() == 1;
    let mut i = 0;
    while i < n {
        let w = log[i];
        i += 1;
        if w & 0xFFFF_FFFF_FFFF_0000 != MAGIC {
            if single && !open[0].nested {
                open[0].result.push(w);
            }
            continue;
        }
        let kind = w >> 8 & 0xff;
        let o = &mut open[(w & 7) as usize];
        match kind {
            0xB => {
                let op = log.get(i).copied().unwrap_or(0) as u32;
                i += 1;
                *o = Open { op, active: true, ..Default::default() };
            }
            0xC => o.nested = true,
            0xD => o.nested = false,
            0xE => {
                if o.active {
                    let o = o.clone();
                    one(p, (w & 7) as usize, &o, refs, single && !truncated)?;
                }
                open[(w & 7) as usize].active = false;
            }
            1 | 2 | 0xA => {
                let rows = log.get(i).copied().unwrap_or(0) as usize;
                i += 1;
                let cols = match kind {
                    1 => 2,
                    2 => 3,
                    _ => {
                        // the answer belongs to the last call of this caller
                        0
                    }
                };
                let cols = if kind == 0xA {
                    o.calls.last().map_or(3, |c| if c.0 == 1 { 3 } else { 2 })
                } else {
                    cols
                };
                if i + rows * cols > n {
                    break;
                }
                let mut d = vec![rows as u64];
                d.extend_from_slice(&log[i..i + rows * cols]);
                i += rows * cols;
                if o.nested {
                    // keep the shape of the outer call: nested entries come in pairs and are dropped
                    if kind != 0xA {
                        // remember the kind for the answer that follows
                        o.calls.push((kind, vec![], Some(vec![])));
                    } else {
                        o.calls.pop();
                    }
                    continue;
                }
                if kind == 0xA {
                    if let Some(c) = o.calls.iter_mut().rev().find(|c| c.2.is_none()) {
                        c.2 = Some(d);
                    }
                } else {
                    o.calls.push((kind, d, None));
                }
            }
            _ => {}
        }
    }
    Ok(())
}

fn f(w: u64) -> f64 {
    f64::from_bits(w)
}

fn one(p: &Calls, tid: usize, o: &Open, refs: &[Ref], single: bool) -> Result<(), String> {
    let prog = &p.progs[tid];
    let it = &prog[o.op as usize % prog.len()];
    let c = &p.combos[it.combo];
    let user = matches!(c.cam.lens, Lens::UserO(..) | Lens::UserD(..));
    if !user || it.vary != 0 {
        return Ok(());
    }
    let faulty = it.panic_at.is_some() || it.deny.is_some() || refs[it.combo].res.status != st::DONE;
    let at = || format!("caller {tid}, call {}: {}", o.op, crate::describe(c, it.how.0));
    let want_kind = match c.op {
        Op::WorldToPixel => 2,
        Op::PixelToWorld | Op::BundleUse => 1,
        Op::WorldToCamera | Op::CameraToWorld | Op::Axes | Op::Getters | Op::CloneEq => 0,
        _ => return Ok(()),
    };
    if c.op == Op::BundleUse && it.how.0 == How::Shared {
        return Ok(());
    }
    // calls abandoned by a re-entrant call that unwound leave unpaired entries
    let calls: Vec<_> = o.calls.iter().filter(|x| !x.1.is_empty()).collect();
    if want_kind == 0 {
        if !calls.is_empty() {
            return Err(format!("{}: the lens model was consulted", at()));
        }
        return Ok(());
    }
    if calls.len() > 1 || (calls.is_empty() && !faulty) {
        let sizes: Vec<u64> = calls.iter().map(|x| x.1[0]).collect();
        return Err(format!("{}: the batch of {} points reached the lens model in {} calls {:?}", at(), c.inp.rows.len(), calls.len(), sizes));
    }
    let Some(call) = calls.first() else { return Ok(()) };
    let n = match c.op {
        Op::BundleUse => c.inp.rows.len(),
        _ => c.inp.store.rows().unwrap_or(c.inp.rows.len()),
    };
    if call.0 != want_kind || call.1[0] != n as u64 {
        return Err(format!("{}: the lens model got {} points instead of {n}", at(), call.1[0]));
    }
    let input = &call.1[1..];
    let row = |i: usize| if c.inp.rows.is_empty() { [0.5; 3] } else { arr(&c.inp.rows[i % c.inp.rows.len()]) };
    let fr = frame(&c.cam.pose);
    if want_kind == 1 {
        for i in 0..n {
            let r = row(i);
            for j in 0..2 {
                if input[i * 2 + j] != r[j].to_bits() && !(r[j].is_nan() && f(input[i * 2 + j]).is_nan()) {
                    return Err(format!("{}: pixel {i} reached the lens model as {:?}", at(), (f(input[i * 2]), f(input[i * 2 + 1]))));
                }
            }
        }
    } else if let Some((r, cc)) = &fr {
        for i in 0..n {
            let v = row(i);
            let want = mulv(r, &sub(&v, cc));
            let scale = norm(&v) + norm(cc);
            for j in 0..3 {
                if !near(f(input[i * 3 + j]), want[j], scale) {
                    return Err(format!(
                        "{}: point {i} reached the lens model as {:?} instead of {:?} in camera coordinates",
                        at(),
                        (f(input[i * 3]), f(input[i * 3 + 1]), f(input[i * 3 + 2])),
                        want
                    ));
                }
            }
        }
    }
    if faulty || !single {
        return Ok(());
    }
    let Some(ans) = &call.2 else { return Ok(()) };
    let res = &o.result;
    if want_kind == 2 {
        if res != ans {
            let k = res.iter().zip(ans).position(|(a, b)| a != b).unwrap_or(res.len().min(ans.len()));
            return Err(format!(
                "{}: the answer of the lens model was changed: word {k} of ({} points) {:?} became {:?}",
                at(),
                ans[0],
                ans.get(k).map(|x| f(*x)),
                res.get(k).map(|x| f(*x))
            ));
        }
    } else if let Some((r, cc)) = &fr {
        if res.is_empty() || res[0] != ans[0] || res.len() < 1 + n * 3 {
            return Err(format!("{}: {} rays returned instead of {}", at(), res.first().copied().unwrap_or(0), ans[0]));
        }
        let origin = matches!(c.cam.lens, Lens::UserO(..)) || c.cam.num == Num::Sim;
        let rt = tr(r);
        for i in 0..n {
            let a = [f(ans[1 + i * 3]), f(ans[2 + i * 3]), f(ans[3 + i * 3])];
            let mut w = mulv(&rt, &a);
            if !origin {
                for j in 0..3 {
                    w[j] += cc[j];
                }
            }
            let scale = norm(&a) + if origin { 0.0 } else { norm(cc) };
            for j in 0..3 {
                if !near(f(res[1 + i * 3 + j]), w[j], scale) {
                    return Err(format!(
                        "{}: ray {i} came out as {:?}, but the lens model's answer in world coordinates is {:?}",
                        at(),
                        (f(res[1 + i * 3]), f(res[2 + i * 3]), f(res[3 + i * 3])),
                        w
                    ));
                }
            }
        }
        // second block: points on the rays, which tell the origin
        let base = 1 + n * 3;
        if origin && res.len() >= base + 1 + n * 3 && res[base] == n as u64 {
            for i in 0..n {
                for j in 0..3 {
                    let d = f(res[1 + i * 3 + j]);
                    let got = f(res[base + 1 + i * 3 + j]);
                    if !near(got, cc[j] + d, norm(cc) + d.abs()) {
                        return Err(format!("{}: ray {i} does not start at the camera centre", at()));
                    }
                }
            }
        }
    }
    Ok(())
}
