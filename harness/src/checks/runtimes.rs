//! C17: the same sessions on both builds.  Each job's observations are folded into a hash that
//! the driver compares between the two binaries; the judgements of the other properties are
//! part of the observation, not verdicts.

use super::*;
use crate::refs::word;
use async_smtp::SendableEmail;
use std::task::Poll;

/// Jobs whose observations do not depend on the number of I/O calls a build makes.
fn battery(tier: Tier) -> Vec<Job> {
    let mut v = vec![];
    let ids = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C16", "C18", "C19", "C20", "C22"];
    for id in ids {
        let Some(c) = check(id, tier.pick(Tier::Small, Tier::Quick)) else { continue };
        for j in c.jobs {
            let skip = j.bound > 0
                || j.name.starts_with("fault/")
                || j.name.starts_with("drop")
                || j.name.starts_with("calls")
                || tier == Tier::Quick && heavy(id, &j.name);
            if skip {
                continue;
            }
            let body = j.body.clone();
            v.push(job(format!("{id}:{}", j.name), 0, move |cx| {
                body(cx);
                if let Some((k, _)) = cx.fail.take() {
                    cx.see(&k);
                }
            }));
        }
    }
    v
}

/// Large families of inputs to code that both builds share.
fn heavy(id: &str, name: &str) -> bool {
    match id {
        "C05" => name.starts_with("words") || name.starts_with("unicode") || name.starts_with("code-pairs"),
        "C08" => name.starts_with("unicode") || name.starts_with("ascii"),
        "C18" => name.starts_with("five"),
        _ => false,
    }
}

pub fn c17(tier: Tier) -> Check {
    let mut jobs = battery(tier);
    // the message as a reader: every sequence of buffer sizes, prefilled buffers, slow sources
    for kind in 0..4usize {
        jobs.push(job(format!("message/{kind}"), 0, move |cx| {
            let data: Vec<u8> = (0..23u8).collect();
            let sizes = [0usize, 1, 2, 5, 64];
            let len = tier.pick(4usize, 6);
            let fail = cx.ch.of(&[None, Some(0usize), Some(6), Some(23)]);
            let pre = cx.ch.pick(3);
            for i in 0..sizes.len().pow(len as u32) {
                let seq = word(&sizes, len, i);
                cx.eval(true);
                let src = SrcCfg { chunk: [None, Some(1), Some(4), Some(7)][kind], pend_always: kind == 2, fail_at: fail.map(|x| (x, 4)), ..Default::default() };
                let e = envelope(None, &["r@y"]);
                let m = if kind == 0 && fail.is_none() { SendableEmail::new(e, data.clone()) } else { SendableEmail::new_with_reader(e, Box::new(Source::new(&data, src, None))) };
                let mut m = Box::pin(m.message());
                let mut got = vec![];
                let mut pends = 0;
                let mut k = 0;
                while k < seq.len() + 40 {
                    let n = seq.get(k).copied().unwrap_or(3);
                    match poll_message(m.as_mut(), n, pre) {
                        Poll::Pending => {
                            pends += 1;
                            if pends > 500 {
                                break;
                            }
                            continue;
                        }
                        Poll::Ready(Ok(b)) => {
                            cx.see(&b.len());
                            got.extend_from_slice(&b);
                        }
                        Poll::Ready(Err(x)) => {
                            cx.see(&format!("{:?} {x}", x.kind()));
                            break;
                        }
                    }
                    k += 1;
                }
                cx.see(&got);
                cx.note = format!("message source {kind} failing at {fail:?}, read into buffers of {seq:?}");
            }
        }));
    }
    Check { jobs, rule: "one case = one session, answer or source run on both builds; distinct = different observation (bytes written, outcomes, deliveries)" }
}
