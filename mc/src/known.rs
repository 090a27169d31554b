//! Executions that may end the process, run in processes of their own, and
//! the findings that are listed for them in /verif/known_findings.txt.

use std::path::Path;
use std::process::{Command, Stdio};

use crate::Prop;

pub struct Apart {
    pub key: &'static str,
    pub what: &'static str,
    pub run: fn() -> Result<(), String>,
}

pub fn run(p: &Prop, key: &str) -> i32 {
    let a = p
        .apart
        .iter()
        .find(|a| a.key == key)
        .unwrap_or_else(|| crate::fatal("no such case"));
    match (a.run)() {
        Ok(()) => 0,
        Err(d) => {
            println!("{d}");
            1
        }
    }
}

/// Lines `finding: property=<id> key=<key> <what>` and `fixed: ...`.
fn listed(root: &Path, id: &str, key: &str) -> bool {
    let text = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .any(|l| l.starts_with(&format!("finding: property={id} key={key} ")))
}

pub fn check(p: &Prop, root: &Path) -> Result<(), (String, String)> {
    for a in p.apart {
        let out = Command::new(std::env::current_exe().unwrap())
            .args(["apart", p.id, a.key])
            .stderr(Stdio::null())
            .output()
            .unwrap_or_else(|e| crate::fatal(&format!("spawn: {e}")));
        let how = match out.status.code() {
            Some(0) => {
                println!("{} apart:{} holds", p.id, a.key);
                continue;
            }
            Some(1) => String::from_utf8_lossy(&out.stdout).into_owned(),
            Some(c) => crate::fatal(&format!("apart {}: exit {c}", a.key)),
            None => format!("the process was killed: {:?}", out.status),
        };
        if listed(root, p.id, a.key) {
            println!("KNOWN-FINDING: property={} {} ({})", p.id, a.what, how.trim());
        } else {
            return Err((a.key.into(), format!("{}: {how}", a.what)));
        }
    }
    Ok(())
}
