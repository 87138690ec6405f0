//! Command line shared by the checkers.

use crate::explore::{Replay, Run};
use crate::programs;

pub type Check = fn(&mut Run);

const ASSUME: &[&str] = &[
    "the mini-SVM (accounts, signer/writable privileges, CPI, PDA signing, rent, clock) and its stand-ins for the system program, upgradeable loader, lookup-table program and Wormhole core bridge behave like the real ones; SPL Token, Token-2022 and ATA run their real processors",
    "the programs are compiled natively with the crate versions of the repository instead of to SBF; compute and stack limits are not modelled",
    "cryptographic hashes do not collide; PDAs cannot be forged",
];

fn field<'a>(s: &'a str, k: &str) -> &'a str {
    let i = s.find(&format!("\"{k}\":")).expect("field") + k.len() + 3;
    let r = &s[i..];
    if let Some(r) = r.strip_prefix('"') {
        &r[..r.find('"').unwrap()]
    } else if let Some(r) = r.strip_prefix('[') {
        &r[..r.find(']').unwrap()]
    } else {
        &r[..r.find(|c: char| !c.is_ascii_digit()).unwrap()]
    }
}

fn known(path: &str, id: &str) -> Vec<String> {
    // lines: "known: property=<id> <text contained in the report> ## <what fails>"
    std::fs::read_to_string(path)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={id} ")).map(|s| s.to_string()))
        .collect()
}

pub fn main(props: Vec<(&'static str, Check)>) {
    let a: Vec<String> = std::env::args().collect();
    programs::install();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let code = match cmd {
        "list" => {
            for p in &props {
                println!("{}", p.0);
            }
            0
        }
        "check" => {
            let (id, tier, dir) = (&a[2], &a[3], &a[4]);
            let f = props.iter().find(|p| p.0 == id).expect("unknown property").1;
            let mut run = Run::new(id, tier == "thorough");
            run.known = known(&a[5], id);
            f(&mut run);
            run.finish(dir, ASSUME)
        }
        "replay" => {
            let s = std::fs::read_to_string(&a[2]).unwrap();
            let id = field(&s, "property");
            let f = props.iter().find(|p| p.0 == id).expect("unknown property").1;
            let mut run = Run::new(id, field(&s, "tier") == "thorough");
            run.replay = Some(Replay {
                scenario: field(&s, "scenario").into(),
                init: field(&s, "init").parse().unwrap(),
                path: field(&s, "path").split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
            });
            f(&mut run);
            match run.violation {
                Some(v) => {
                    println!("reproduced: {}/{}: {}", v.div.op, v.div.aspect, v.div.detail);
                    1
                }
                None => {
                    println!("not reproduced");
                    0
                }
            }
        }
        _ => {
            eprintln!("usage: check <ID> <quick|thorough> <evidence dir> <known findings> | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
