//! Effects: what a function of the library may touch besides its arguments.  Every function of
//! every module is looked at once; no mutable static, no atomic, volatile or assembler access, no
//! call that leaves the program.
use crate::check::{Obl, St};
use crate::interp::demangle;
use std::collections::HashSet;

fn name_after_at(s: &str) -> Option<String> {
    let i = s.find('@')?;
    let r = &s[i + 1..];
    if let Some(q) = r.strip_prefix('"') {
        return q.find('"').map(|e| q[..e].to_string());
    }
    let e = r.find(|c: char| !(c.is_alphanumeric() || c == '_' || c == '.' || c == '$' || c == '-')).unwrap_or(r.len());
    Some(r[..e].to_string())
}
/// The functions of another crate that the compiler may call without an effect.
fn harmless(n: &str) -> bool {
    let d = demangle(n);
    n.starts_with("llvm.")
        || n.starts_with("vf_")
        || matches!(n, "memcpy" | "memmove" | "memset" | "memcmp" | "bcmp" | "rust_eh_personality")
        || d.starts_with("core::")
        || d.starts_with("<core::")
        || n.contains("4core")
}
pub fn run(files: &[(String, String)]) -> Vec<Obl> {
    let mut defined: HashSet<String> = HashSet::new();
    for (_, t) in files {
        for l in t.lines() {
            if l.starts_with("define ") || l.starts_with('@') {
                if let Some(n) = name_after_at(l) {
                    defined.insert(n);
                }
            }
        }
    }
    let mut out = vec![];
    let mk = |what: &str, rule: &str, st: St, d: String, c: &str| Obl { root: "effects".into(), path: what.into(), rule: rule.into(), st, detail: d, construct: c.into() };
    let mut seen: HashSet<(String, String)> = HashSet::new();
    for (_, t) in files {
        let mut cur: Option<(String, bool)> = None;
        for l in t.lines() {
            if l.starts_with('@') {
                let n = name_after_at(l).unwrap_or_default();
                let rest = l.split_once(" = ").map(|x| x.1).unwrap_or("");
                let words: Vec<&str> = rest.split_whitespace().take_while(|w| !w.starts_with('{') && !w.starts_with('[') && !w.starts_with('<')).collect();
                if words.contains(&"alias") || words.contains(&"external") {
                    continue;
                }
                if words.contains(&"global") {
                    out.push(mk(&demangle(&n), "no mutable static", St::Bad, format!("the static {} can change between calls", demangle(&n)), &demangle(&n)));
                }
                continue;
            }
            if l.starts_with("define ") {
                cur = name_after_at(l).map(|n| (demangle(&n), true));
                continue;
            }
            if l == "}" {
                if let Some((f, ok)) = cur.take() {
                    if ok {
                        out.push(mk(&f, "touches nothing but its arguments", St::Ok, String::new(), &f));
                    }
                }
                continue;
            }
            let (f, ok) = match &mut cur {
                Some(x) => (x.0.clone(), &mut x.1),
                None => continue,
            };
            let s = l.trim_start();
            let op = s.split_once(" = ").map(|x| x.1).unwrap_or(s);
            let mut bad = None;
            if op.starts_with("atomicrmw") || op.starts_with("cmpxchg") || op.starts_with("fence") || op.starts_with("load atomic") || op.starts_with("store atomic") {
                bad = Some("an atomic access to shared memory".to_string());
            } else if op.starts_with("load volatile") || op.starts_with("store volatile") {
                bad = Some("a volatile memory access".to_string());
            } else if op.starts_with("call ") || op.starts_with("tail call ") || op.starts_with("musttail call ") || op.starts_with("invoke ") || op.starts_with("notail call ") {
                if op.contains(" asm ") {
                    // an empty assembler text is only a compiler barrier
                    if !op.contains(" asm sideeffect \"\"") && !op.contains(" asm \"\"") {
                        bad = Some("inline assembler".to_string());
                    }
                } else {
                    // the callee is the last name before the argument list
                    let head = op.split(" @").nth(1);
                    if let Some(h) = head {
                        let n = name_after_at(&format!("@{h}")).unwrap_or_default();
                        if !defined.contains(&n) && !harmless(&n) {
                            bad = Some(format!("a call to {}, outside the program", demangle(&n)));
                        }
                    }
                }
            }
            if let Some(b) = bad {
                *ok = false;
                if seen.insert((f.clone(), b.clone())) {
                    out.push(mk(&f, "touches nothing but its arguments", St::Bad, format!("{b}: {}", s.chars().take(160).collect::<String>()), &f));
                }
            }
        }
    }
    out
}
