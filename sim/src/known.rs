//! Known findings: `<property> | <class> | <text that `what` contains> | <description>`.
use crate::plan::Outcome;

pub fn listed(verif: &str, prop: &str, o: &Outcome) -> Option<String> {
    let v = o.viol.as_ref()?;
    let s = std::fs::read_to_string(format!("{verif}/KNOWN_FINDINGS.txt")).ok()?;
    for l in s.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') || l.starts_with("fixed:") {
            continue;
        }
        let p: Vec<&str> = l.splitn(4, '|').map(str::trim).collect();
        if p.len() == 4 && p[0] == prop && p[1] == v.class && !p[2].is_empty() && v.what.contains(p[2]) {
            return Some(p[3].to_string());
        }
    }
    None
}
