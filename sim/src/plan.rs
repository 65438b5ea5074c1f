//! The plan of one simulated run. A run is a pure function of its plan (and of the code under test).
use camglue::spec::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Item {
    pub combo: usize,
    #[serde(default = "shared")]
    pub how: HowJ,
    /// panic when user code is entered for the k-th time in this call
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub panic_at: Option<u64>,
    /// refuse all heap allocations of this call from the k-th on
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub deny: Option<u64>,
    /// user code, when entered for the k-th time, makes another call (combo)
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub reenter: Option<(u64, usize)>,
    /// hand over to caller (sw - 1) before the call
    #[serde(default, skip_serializing_if = "is0")]
    pub sw: u8,
    /// perturb parameters and inputs of the call (its result is not compared)
    #[serde(default, skip_serializing_if = "is032")]
    pub vary: u32,
    /// an object made for the call stays behind in this place (1-3) and the next call there on an
    /// equal camera finds it; 0: it is dropped
    #[serde(default, skip_serializing_if = "is0")]
    pub keep: u8,
    /// the call is made by a destructor while its caller unwinds from a panic of its own
    #[serde(default, skip_serializing_if = "no")]
    pub unwind: bool,
}
fn no(x: &bool) -> bool {
    !*x
}
fn is0(x: &u8) -> bool {
    *x == 0
}
fn is032(x: &u32) -> bool {
    *x == 0
}
fn shared() -> HowJ {
    HowJ(How::Shared)
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct HowJ(pub How);
impl Default for HowJ {
    fn default() -> Self {
        shared()
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct EvJ {
    /// call number, tick within the call
    pub op: u32,
    pub step: u64,
    /// 0: switch, 1: stall
    pub act: u8,
    pub arg: u8,
}

/// Concurrent / sequential calls on cameras.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Calls {
    pub combos: Vec<Combo>,
    pub progs: Vec<Vec<Item>>,
    /// how often each caller goes through its program (default: once)
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub reps: Vec<u32>,
    #[serde(default)]
    pub evs: Vec<Vec<EvJ>>,
    #[serde(default)]
    pub first: usize,
    /// the last caller starts after all others are done
    #[serde(default)]
    pub audit: bool,
    pub quantum: u64,
    pub env_seed: u64,
    pub addr_seed: u64,
    /// the machine may refuse threads, and nobody reads what is printed
    #[serde(default, skip_serializing_if = "no")]
    pub scarce: bool,
    /// compare memory in use when caller 0 is half done and at the end
    #[serde(default)]
    pub leak: bool,
    /// record what reaches user models and check it
    #[serde(default)]
    pub model_log: bool,
}

impl Calls {
    pub fn rep(&self, t: usize) -> u32 {
        self.reps.get(t).copied().unwrap_or(1)
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Plan {
    Calls(Calls),
    Disk(crate::store::Disk),
    Selfcheck(crate::selfcheck::Selfcheck),
    Render(crate::render::Render),
}

/// What a run did wrong.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Viol {
    /// violation class: the minimiser keeps it
    pub class: String,
    pub what: String,
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub viol: Option<Viol>,
    pub digest: u64,
    pub sched: u64,
    pub steps: u64,
    pub clock: u64,
    pub switches: u32,
    pub ctr: Vec<u64>,
    pub trace: Vec<String>,
    pub calls: u64,
    pub harness_error: Option<String>,
    pub aborted_on_denial: bool,
    pub nontrivial: bool,
    pub extra: std::collections::BTreeMap<String, u64>,
}
