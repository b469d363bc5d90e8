pub mod content;
pub mod deadlock;
pub mod ehlo;
pub mod faults;
pub mod history;
pub mod inputs;
pub mod login;
pub mod parallel;
pub mod runtimes;
pub mod schedules;
pub mod sends;
pub mod session;
pub mod usual;
pub mod values;

use crate::client::*;
use crate::explore::*;
use crate::server::*;
use crate::world::*;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    /// The bounds C17's quick run uses for the jobs of other checks.
    Small,
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Small | Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
    pub fn pick3<T>(self, s: T, q: T, t: T) -> T {
        match self {
            Tier::Small => s,
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

pub struct Check {
    pub jobs: Vec<Job>,
    pub rule: &'static str,
}

pub fn check(id: &str, tier: Tier) -> Option<Check> {
    Some(match id {
        "C01" => content::c01(tier),
        "C02" => content::c02(tier),
        "C03" => sends::c03(tier),
        "C04" => history::c04(tier),
        "C05" => inputs::c05(tier),
        "C06" => schedules::c06(tier),
        "C07" => faults::c07(tier),
        "C08" => inputs::c08(tier),
        "C09" => sends::c09(tier),
        "C10" => ehlo::c10(tier),
        "C11" => login::c11(tier),
        "C12" => login::c12(tier),
        "C13" => ehlo::c13(tier),
        "C14" => deadlock::c14(tier),
        "C15" => inputs::c15(tier),
        "C16" => ehlo::c16(tier),
        "C17" => runtimes::c17(tier),
        "C18" => history::c18(tier),
        "C19" => ehlo::c19(tier),
        "C20" => sends::c20(tier),
        "C21" => inputs::c21(tier),
        "C22" => schedules::c22(tier),
        "C23" => values::c23(tier),
        "C24" => parallel::c24(tier),
        "C25" => history::c25(tier),
        "C26" => faults::c26(tier),
        _ => return None,
    })
}

/// What the server is to answer to one command.
#[derive(Clone, Debug)]
pub struct V {
    pub code: u16,
    /// Text lines; "{}" is replaced by the tag of the command.
    pub lines: Vec<String>,
    pub close: bool,
}
pub fn v(code: u16) -> V {
    V { code, lines: vec!["verdict {}".into()], close: false }
}
pub fn vl(code: u16, lines: &[&str]) -> V {
    V { code, lines: lines.iter().map(|s| s.to_string()).collect(), close: false }
}
impl V {
    pub fn rep(&self, tag: &str) -> Rep {
        let l: Vec<String> = self.lines.iter().map(|l| l.replace("{}", tag)).collect();
        let mut r = reps(self.code, &l);
        r.close = self.close;
        r
    }
}

/// Answers by (operation, command kind, how many of this kind came before in the operation).
pub type Plan = Arc<Mutex<HashMap<(usize, Kind, usize), V>>>;
pub fn plan() -> Plan {
    Plan::default()
}
pub fn plan_policy(p: &Plan) -> Policy {
    let p = p.clone();
    Box::new(move |a| lock(&p).get(&(a.op, a.kind, a.op_kind_index)).map(|v| v.rep(&a.tag)))
}
pub fn set(p: &Plan, op: usize, k: Kind, i: usize, v: V) {
    lock(p).insert((op, k, i), v);
}

pub fn ext(pipe: bool) -> &'static [&'static str] {
    if pipe {
        ALL_EXT
    } else {
        PLAIN_EXT
    }
}

/// Observation of a whole session: bytes written, what the server accepted, outcomes.
pub fn see_session(cx: &mut Cx, w: &W, outs: &[Out]) {
    let g = lock(w);
    cx.see(&g.written);
    if let Some(s) = &g.server {
        for d in &s.rec().deliveries {
            cx.see(&d.content);
            cx.see(&d.from);
            cx.see(&d.to);
            cx.see(&d.accepted);
        }
    }
    for o in outs {
        cx.see(&o.class());
    }
}

/// Codes the grammar allows: 2yz..5yz with second digit 0..5.
pub fn all_codes() -> Vec<u16> {
    (200u16..600).filter(|c| c / 10 % 10 <= 5).collect()
}
pub fn definite_codes() -> Vec<u16> {
    all_codes().into_iter().filter(|c| c / 100 != 3).collect()
}

/// Reply texts of different shapes.
pub const SHAPES: &[&[&str]] = &[
    &["{}"],
    &["{}", "second line"],
    &["", "{} x", ""],
    &["250-{}", "250 ok", "5", "-"],
    &["{} größe ☃ \u{10348}", "\u{e9}{}"],
    &["a {}", "b", "c", "d", "e", "f", "g"],
    &["5.7.1 {}", "\t5.7.1 see http://x.test/?a=b;c"],
];

pub fn shape(code: u16, i: usize) -> V {
    vl(code, SHAPES[i % SHAPES.len()])
}

pub fn is_neg(code: u16) -> bool {
    code / 100 == 4 || code / 100 == 5
}
/// The outcome is exactly the rejection `c`.
pub fn is_rejection(o: &Out, c: &Cmd) -> bool {
    matches!(o, Out::Rej { code, lines, transient, .. } if *code == c.code && *lines == c.lines && *transient == (c.code / 100 == 4))
}

/// Chooses what happened on the connection before; `upto`: how many of the histories.
pub fn any_prior(cx: &mut Cx, upto: usize) -> String {
    let k = 1 + cx.ch.pick(upto.min(PRIORS.len()) - 1);
    cx.ch.set_prior(k);
    format!("after {}: ", PRIORS[k])
}
