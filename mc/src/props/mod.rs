//! The properties and their scenarios.
use mc::{bus, explore::Scn, Prop};
mod admit;
mod content;
mod fds;
mod flow;
mod form;
mod labels;
mod names;
mod progress;
mod region;
mod halves;
mod hostile;
mod route;
mod timing;
mod ttl;
mod typed;

/// Explored once more on a bus that has lost its first controller.
const AGAIN: &[(&str, u32)] = &[
    ("C01/mixed", bus::TWO),
    ("C01/par", bus::TWO),
    ("C01/crowd", bus::TWO),
    ("C01/seq", bus::TWO),
    ("C02/mixed", bus::TWO),
    ("C02/par", bus::TWO),
    ("C02/crowd", bus::TWO),
    ("C02/seq", bus::TWO),
    ("C03/burst", bus::TWO),
    ("C03/client", bus::TWO),
    ("C03/to-host", bus::TWO),
    ("C03/seq", bus::TWO),
    ("C04/attachments", bus::TWO),
    ("C04/multicast", bus::TWO),
    ("C04/queue", bus::TWO),
    ("C05/live", bus::TWO),
    ("C05/seq", bus::TWO),
    ("C06/bounds", bus::TWO),
    ("C06/gone", bus::TWO),
    ("C06/many", bus::TWO),
    ("C06/race", bus::TWO),
    ("C06/seq-deaf-host", bus::TWO),
    ("C09/silent", bus::TWO),
    ("C09/last", bus::ONE),
    ("C09/busy", bus::TWO),
    ("C10/tokens", bus::ONE),
    ("C10/tokens-others", bus::ONE),
    ("C10/versions", bus::TWO),
    ("C10/race", bus::TWO),
    ("C14/race-clone", bus::TWO),
    ("C17/transport-names", bus::ONE),
    ("C19/seq-last", bus::TWO),
    ("C19/seq-host", bus::TWO),
    ("C19/served", bus::TWO),
    ("C19/during", bus::TWO),
    ("C22/waiting", bus::TWO),
    ("C22/refused-deep", bus::TWO),
    ("C22/refused-cut", bus::TWO),
    ("C22/refused-own", bus::TWO),
    ("C22/client", bus::TWO),
    ("C22/joins", bus::TWO),
];
fn again(mut v: Vec<Scn>) -> Vec<Scn> {
    for (name, mode) in AGAIN {
        if let Some(s) = v.iter().find(|s| s.name == *name) {
            let s = bus::again(*mode | if name.starts_with("C22") { 0 } else { bus::LATE }, s.clone());
            v.push(s);
        }
    }
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", scns: |t| again(route::c01(t)) },
        Prop { id: "C02", scns: |t| again(route::c02(t)) },
        Prop { id: "C03", scns: |t| again(flow::c03(t)) },
        Prop { id: "C04", scns: |t| again(content::c04(t)) },
        Prop { id: "C05", scns: |t| again(typed::c05(t)) },
        Prop { id: "C06", scns: |t| again(ttl::c06(t)) },
        Prop { id: "C07", scns: |t| again(form::c07(t)) },
        Prop { id: "C08", scns: |t| again(form::c08(t)) },
        Prop { id: "C09", scns: |t| again(form::c09(t)) },
        Prop { id: "C10", scns: |t| again(admit::c10(t)) },
        Prop { id: "C11", scns: |t| again(timing::c11(t)) },
        Prop { id: "C12", scns: |t| again(hostile::c12(t)) },
        Prop { id: "C13", scns: |t| again(region::c13(t)) },
        Prop { id: "C14", scns: |t| again(region::c14(t)) },
        Prop { id: "C15", scns: |t| again(region::c15(t)) },
        Prop { id: "C16", scns: |t| again(fds::c16(t)) },
        Prop { id: "C17", scns: |t| again(labels::c17(t)) },
        Prop { id: "C18", scns: |t| again(names::c18(t)) },
        Prop { id: "C19", scns: |t| again(halves::c19(t)) },
        Prop { id: "C22", scns: |t| again(progress::c22(t)) },
    ]
}
