//! The unit file: which code to take, how to render it, and its contracts.
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct Clause {
    pub kw: String, // requires, ensures, decreases, invariant, invariant_except_break
    pub labels: Vec<String>,
    pub text: String,
}

#[derive(Clone, Debug, Default)]
pub struct SBlock {
    pub clauses: Vec<Clause>,
    pub proof_start: String,
    pub proof_end: String,
}

#[derive(Clone, Debug, Default)]
pub struct FnSpec {
    pub labels: Vec<String>,
    pub ret: Option<String>,
    pub top: SBlock,
    pub loops: BTreeMap<usize, SBlock>,
    pub attrs: Vec<String>,
    pub stub: bool,
    pub no_body: bool,
    pub calls: Vec<(String, usize, bool, String)>, // callee, occurrence, after?, proof text
    pub optional: bool,
}

#[derive(Default, Debug)]
pub struct Unit {
    pub source: String,
    pub takes: Vec<String>,
    pub drops: Vec<(String, String)>,
    pub rewrites: Vec<(String, String)>,
    pub preludes: Vec<String>,
    pub derives: Vec<(String, String)>,
    pub fns: BTreeMap<String, FnSpec>,
    pub handlers: BTreeMap<String, FnSpec>, // per handler alias
    pub opts: BTreeMap<String, String>,
    pub includes: Vec<String>,
    pub mono: Vec<(String, String)>,
    pub inlines: Vec<String>,
    pub lifts: Vec<(String, Option<String>)>,
    pub inherits: Vec<String>,
    pub splits: Vec<(String, String)>,
    pub copies: Vec<(String, String, Vec<(String, String)>)>,
    pub within: Vec<(String, Vec<(String, String)>)>,
}

fn labels(s: &str) -> (Vec<String>, &str) {
    let s = s.trim();
    if let Some(r) = s.strip_prefix('[') {
        if let Some(p) = r.find(']') {
            let l = r[..p].split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect();
            return (l, r[p + 1..].trim());
        }
    }
    (vec![], s)
}

const KWS: &[&str] = &["requires", "ensures", "decreases", "invariant", "invariant_except_break", "no_unwind"];

pub fn parse(text: &str, u: &mut Unit, dir: &std::path::Path) {
    let mut cur: Option<(bool, String)> = None; // (handler?, key)
    let mut in_loop: Option<usize> = None;
    let mut mode = String::new(); // where continuation lines go
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        let raw = lines[i];
        i += 1;
        let line = raw.trim();
        if line.starts_with("//!") {
            continue;
        }
        if let Some(d) = line.strip_prefix('@') {
            let (kw, rest) = d.split_once(' ').unwrap_or((d, ""));
            let rest = rest.trim();
            cur = None;
            in_loop = None;
            mode.clear();
            match kw {
                "source" => u.source = rest.into(),
                "take" => u.takes.push(rest.into()),
                "drop" => {
                    let (a, b) = rest.split_once(' ').unwrap_or((rest, ""));
                    u.drops.push((a.into(), b.trim().into()))
                }
                "opt" => {
                    let (a, b) = rest.split_once(' ').unwrap_or((rest, ""));
                    let b = b.trim();
                    // `impl NAME …`, `trait NAME …`: one option per name
                    let (a, b) = match b.split_once(' ') {
                        _ if a == "abstract" => (format!("{} {}", a, b), ""),
                        Some((n, b)) if ["impl", "trait", "table", "local"].contains(&a) => (format!("{} {}", a, n), b),
                        _ => (a.to_string(), b),
                    };
                    u.opts.insert(a, b.trim().into());
                }
                "rewrite" => {
                    let mut r = rest.to_string();
                    while i < lines.len() && lines[i].starts_with("    ") {
                        r.push(' ');
                        r.push_str(lines[i].trim());
                        i += 1;
                    }
                    let (a, b) = r.split_once("~>").expect("rewrite needs ~>");
                    u.rewrites.push((a.trim().into(), b.trim().into()))
                }
                "copy" | "in" => {
                    let mut subs = vec![];
                    while i < lines.len() && lines[i].starts_with("    ") {
                        let (a, b) = lines[i].split_once("~>").expect("copy needs ~>");
                        subs.push((a.trim().to_string(), b.trim().to_string()));
                        i += 1;
                    }
                    if kw == "copy" {
                        let (a, b) = rest.split_once("=>").expect("copy needs =>");
                        u.copies.push((a.trim().into(), b.trim().into(), subs));
                    } else {
                        for k in rest.split(',') {
                            u.within.push((k.trim().into(), subs.clone()));
                        }
                    }
                }
                "derive" => {
                    let (a, b) = rest.split_once(' ').unwrap();
                    u.derives.push((a.into(), b.into()))
                }
                "inline" => u.inlines.push(rest.into()),
                "inherit" => u.inherits.push(rest.into()),
                "lift" => match rest.split_once(" on ") {
                    Some((a, b)) => u.lifts.push((a.trim().into(), Some(b.trim().into()))),
                    None => u.lifts.push((rest.into(), None)),
                },
                "split" => {
                    let (a, b) = rest.split_once(' ').unwrap();
                    u.splits.push((a.into(), b.trim().into()))
                }
                "mono" => {
                    let (a, b) = rest.split_once("=>").unwrap();
                    u.mono.push((a.trim().into(), b.trim().into()))
                }
                "include" => {
                    let p = dir.join(rest);
                    u.includes.push(rest.into());
                    let t = std::fs::read_to_string(&p).unwrap_or_else(|_| panic!("include {:?}", p));
                    if rest.ends_with(".spec") {
                        parse(&t, u, dir)
                    } else {
                        u.preludes.push(t)
                    }
                }
                "prelude" => {
                    let mut t = String::new();
                    while i < lines.len() && lines[i].trim() != "@end" {
                        t.push_str(lines[i]);
                        t.push('\n');
                        i += 1;
                    }
                    i += 1;
                    u.preludes.push(t);
                }
                "fn" | "stub" | "handler" => {
                    let (name, l) = match rest.find(" [") {
                        Some(p) => (rest[..p].trim(), labels(&rest[p..]).0),
                        None => (rest, vec![]),
                    };
                    let (name, ret) = match name.split_once(" -> ") {
                        Some((a, b)) => (a.trim(), Some(b.trim().to_string())),
                        None => (name, None),
                    };
                    let map = if kw == "handler" { &mut u.handlers } else { &mut u.fns };
                    // several names may share one contract
                    let names: Vec<String> = name.split(',').map(|s| s.trim().to_string()).collect();
                    let first = names[0].clone();
                    let mut alias = String::new();
                    for n in names {
                        let e = map.entry(n.clone()).or_default();
                        e.labels = l.clone();
                        e.ret = ret.clone();
                        e.stub = kw == "stub";
                        if n != first {
                            alias.push_str(&n);
                            alias.push(',');
                        }
                    }
                    cur = Some((kw == "handler", first));
                    if !alias.is_empty() {
                        u.opts.insert(format!("alias {}", cur.as_ref().unwrap().1), alias);
                    }
                }
                "end" => {}
                _ => panic!("unknown directive @{}", kw),
            }
            continue;
        }
        let Some((h, key)) = &cur else { continue };
        let spec = if *h { u.handlers.get_mut(key).unwrap() } else { u.fns.get_mut(key).unwrap() };
        let (first, rest) = match line.find(|c: char| c.is_whitespace() || c == '[') {
            Some(p) => (&line[..p], &line[p..]),
            None => (line, ""),
        };
        let indent = raw.len() - raw.trim_start().len();
        if indent <= 4 && !line.is_empty() {
            if first == "loop" && line.ends_with(':') {
                let n: usize = line[4..line.len() - 1].trim().parse().unwrap_or(0);
                in_loop = Some(n);
                spec.loops.entry(n).or_default();
                mode.clear();
                continue;
            }
            let block = match in_loop {
                Some(n) => spec.loops.get_mut(&n).unwrap(),
                None => &mut spec.top,
            };
            if KWS.contains(&first) {
                let (l, t) = labels(rest);
                block.clauses.push(Clause { kw: first.into(), labels: l, text: t.into() });
                mode = "clause".into();
                continue;
            }
            if line == "proof:" || line == "proof_start:" {
                mode = "ps".into();
                continue;
            }
            if line == "proof_end:" {
                mode = "pe".into();
                continue;
            }
            if first == "attr" {
                spec.attrs.push(rest.trim().into());
                continue;
            }
            if first == "optional" {
                spec.optional = true;
                continue;
            }
            if first == "abstract" {
                spec.no_body = true;
                continue;
            }
            if (first == "before" || first == "after") && line.ends_with(':') {
                // before NAME N:
                let p: Vec<&str> = line[..line.len() - 1].split_whitespace().collect();
                let n = p.get(2).and_then(|x| x.parse().ok()).unwrap_or(0);
                spec.calls.push((p[1].into(), n, first == "after", String::new()));
                mode = "call".into();
                continue;
            }
        }
        let block = match in_loop {
            Some(n) => spec.loops.get_mut(&n).unwrap(),
            None => &mut spec.top,
        };
        match mode.as_str() {
            "clause" => {
                let c = block.clauses.last_mut().unwrap();
                c.text.push('\n');
                c.text.push_str(raw);
            }
            "ps" => {
                block.proof_start.push_str(raw);
                block.proof_start.push('\n');
            }
            "pe" => {
                block.proof_end.push_str(raw);
                block.proof_end.push('\n');
            }
            "call" => {
                let c = spec.calls.last_mut().unwrap();
                c.3.push_str(raw);
                c.3.push('\n');
            }
            _ => {
                if !line.is_empty() && !line.starts_with("//") {
                    panic!("stray line in spec of {}: {}", key, raw)
                }
            }
        }
    }
    let aliases: Vec<(String, String)> = u
        .opts
        .iter()
        .filter(|(k, _)| k.starts_with("alias "))
        .map(|(k, v)| (k[6..].to_string(), v.clone()))
        .collect();
    for (k, v) in aliases {
        for n in v.split(',').filter(|s| !s.is_empty()) {
            if let Some(s) = u.fns.get(&k).cloned() {
                u.fns.insert(n.to_string(), s);
            }
        }
        u.opts.remove(&format!("alias {}", k));
    }
}
