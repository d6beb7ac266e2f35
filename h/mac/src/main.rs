//! M*: the account-generating macro. The generated inputs are programs: lists of names are expanded by the real
//! procedural macro, compiled and run, and the values compared with the documented construction.
use pbt::{serde_json::json, Rng};
use std::{collections::BTreeMap, path::PathBuf, process::Command, time::Instant};

// the real macro must also work in this very crate
macros::generate_accounts!(ALICE, BOB);

fn expected(name: &str) -> [u8; 32] {
    let mut v = [0u8; 32];
    for (i, b) in name.bytes().enumerate() {
        v[i % 32] ^= b;
    }
    v
}

#[derive(Clone, Debug, PartialEq)]
struct Case {
    names: Vec<String>,
    trailing: bool,
    /// holds a name that is not upper case: must not compile
    bad: bool,
}

fn name(r: &mut Rng, base: &[String]) -> String {
    const FIRST: &[&str] = &["A", "B", "Z", "Q", "M", "_A", "_", "Ä", "Ж"];
    const REST: &[&str] = &["A", "B", "C", "Z", "0", "1", "9", "_", "Y", "É"];
    if !base.is_empty() && r.below(4) == 0 {
        // a near relative: one character more, one less, two swapped
        let mut c: Vec<char> = base[r.below(base.len() as u64) as usize].chars().collect();
        match r.below(3) {
            0 => c.push('A'),
            1 if c.len() > 2 => drop(c.pop()),
            _ if c.len() > 3 => c.swap(1, 2),
            _ => c.push('B'),
        }
        let s: String = c.into_iter().collect();
        if ok_ident(&s) {
            return s;
        }
    }
    let n = match r.below(6) {
        0 => 0,
        1 => 30 + r.below(5),
        2 => 60 + r.below(8),
        _ => r.below(12),
    };
    let mut s = FIRST[r.below(FIRST.len() as u64) as usize].to_string();
    for _ in 0..n {
        s.push_str(REST[r.below(REST.len() as u64) as usize]);
    }
    if s == "_" {
        s.push('X');
    }
    s
}
fn ok_ident(s: &str) -> bool {
    s != "_" && s.chars().next().map_or(false, |c| c.is_alphabetic() || c == '_')
}

fn gen(r: &mut Rng) -> Case {
    let n = if r.below(10) == 0 { 7 + r.below(34) } else { r.below(7) } as usize;
    let mut names: Vec<String> = vec![];
    while names.len() < n {
        let x = name(r, &names);
        if !names.contains(&x) {
            names.push(x);
        }
    }
    Case { names, trailing: r.below(2) == 0, bad: false }
}
fn gen_bad(r: &mut Rng) -> Case {
    let mut c = gen(r);
    let i = r.below(c.names.len() as u64 + 1) as usize;
    let lower = ["alice", "Bob", "CHARLIe", "d", "EVE_x", "A1b"][r.below(6) as usize];
    c.names.insert(i.min(c.names.len()), lower.to_string());
    c.bad = true;
    c
}

fn program(cases: &[Case]) -> String {
    let mut s = String::from("#![allow(warnings)]\n");
    let mut body = String::new();
    for (i, c) in cases.iter().enumerate() {
        let list = c.names.join(", ");
        let comma = if c.trailing && !c.names.is_empty() { "," } else { "" };
        s.push_str(&format!("mod m{i} {{ macros::generate_accounts!({list}{comma}); }}\n"));
        let mut by_value: BTreeMap<[u8; 32], Vec<&str>> = BTreeMap::new();
        for n in &c.names {
            let v = expected(n);
            by_value.entry(v).or_default().push(n);
            body.push_str(&format!("if m{i}::{n} != {v:?} {{ println!(\"BAD {i} value of {n}: {{:?}}\", m{i}::{n}); }}\n"));
        }
        body.push_str(&format!("let m = m{i}::names(); if m.len() != {} {{ println!(\"BAD {i} names() has {{}} entries\", m.len()); }}\n", by_value.len()));
        for (v, ns) in &by_value {
            // accounts of names up to 32 bytes are distinct, so that each value has one name
            body.push_str(&format!(
                "match m.get(&{v:?}) {{ Some(n) if {ns:?}.contains(n) => (), x => println!(\"BAD {i} names() gives {{x:?}} for {}\") }}\n",
                ns[0]
            ));
        }
    }
    s.push_str("fn main() {\n");
    s.push_str(&body);
    s.push_str("println!(\"DONE\");\n}\n");
    s
}

struct Tool {
    so: PathBuf,
    dir: PathBuf,
}
enum Outcome {
    Fine,
    NoCompile(String),
    Bad(Vec<(usize, String)>),
}
impl Tool {
    fn run(&self, tag: &str, cases: &[Case]) -> Outcome {
        let src = self.dir.join(format!("{tag}.rs"));
        let bin = self.dir.join(tag);
        std::fs::write(&src, program(cases)).unwrap();
        let o = Command::new("rustc")
            .args(["--edition", "2021", "-Copt-level=0", "-Cdebuginfo=0", "--extern"])
            .arg(format!("macros={}", self.so.display()))
            .arg("-o")
            .arg(&bin)
            .arg(&src)
            .output()
            .expect("rustc");
        if !o.status.success() {
            return Outcome::NoCompile(String::from_utf8_lossy(&o.stderr).chars().take(600).collect());
        }
        let o = Command::new(&bin).output().expect("run");
        let text = String::from_utf8_lossy(&o.stdout).to_string();
        let _ = std::fs::remove_file(&bin);
        let bad: Vec<(usize, String)> = text
            .lines()
            .filter_map(|l| l.strip_prefix("BAD "))
            .map(|l| {
                let (i, m) = l.split_once(' ').unwrap();
                (i.parse().unwrap(), m.to_string())
            })
            .collect();
        if bad.is_empty() && text.trim_end().ends_with("DONE") {
            Outcome::Fine
        } else if bad.is_empty() {
            Outcome::Bad(vec![(0, "the program did not finish".into())])
        } else {
            Outcome::Bad(bad)
        }
    }
    /// the failing case and what failed
    fn verdict(&self, tag: &str, cases: &[Case]) -> Option<(Case, String)> {
        match self.run(tag, cases) {
            Outcome::Fine => None,
            Outcome::Bad(v) => {
                let (i, m) = &v[0];
                Some((cases[*i].clone(), m.clone()))
            },
            Outcome::NoCompile(m) =>
                if cases.len() == 1 {
                    Some((cases[0].clone(), format!("does not compile: {m}")))
                } else {
                    let h = cases.len() / 2;
                    self.verdict(tag, &cases[..h]).or_else(|| self.verdict(tag, &cases[h..]))
                },
        }
    }
    fn fails(&self, c: &Case) -> Option<String> {
        if c.bad {
            match self.run("shrink", std::slice::from_ref(c)) {
                Outcome::NoCompile(_) => None,
                _ => Some(format!("accepted although not all names are upper case: {:?}", c.names)),
            }
        } else {
            self.verdict("shrink", std::slice::from_ref(c)).map(|x| x.1)
        }
    }
    fn shrink(&self, mut c: Case, mut m: String) -> (Case, String, u32) {
        let mut tries = 0;
        'again: loop {
            let mut cand = vec![];
            for i in 0..c.names.len() {
                let mut d = c.clone();
                d.names.remove(i);
                cand.push(d);
            }
            for i in 0..c.names.len() {
                let n = &c.names[i];
                let k = n.chars().count();
                for len in [1, k / 2, k.saturating_sub(1)] {
                    let short: String = n.chars().take(len).collect();
                    if len < k && ok_ident(&short) && !c.names.contains(&short) {
                        let mut d = c.clone();
                        d.names[i] = short;
                        cand.push(d);
                    }
                }
            }
            for d in cand {
                if d.bad && d.names.iter().all(|n| *n == n.to_uppercase()) {
                    continue;
                }
                tries += 1;
                if tries > 60 {
                    break 'again;
                }
                if let Some(x) = self.fails(&d) {
                    c = d;
                    m = x;
                    continue 'again;
                }
            }
            break;
        }
        (c, m, tries)
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args[1].clone();
    let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
    let tdir = PathBuf::from(std::env::var("CARGO_TARGET_DIR").unwrap_or(format!("{root}/target")));
    // the proc macro that this build used: the newest library of that name
    let mut sos: Vec<_> = std::fs::read_dir(tdir.join("debug/deps"))
        .unwrap()
        .filter_map(|e| e.ok())
        .filter(|e| {
            let n = e.file_name().to_string_lossy().to_string();
            n.starts_with("libmacros-") && n.ends_with(".so")
        })
        .map(|e| (e.metadata().unwrap().modified().unwrap(), e.path()))
        .collect();
    sos.sort();
    let so = sos.pop().expect("libmacros").1;
    let dir = tdir.join("macgen").join(std::process::id().to_string());
    std::fs::create_dir_all(&dir).unwrap();
    let tool = Tool { so, dir: dir.clone() };
    let code = run(&id, &args, &root, &tool);
    let _ = std::fs::remove_dir_all(&dir);
    std::process::exit(code);
}

fn run(id: &str, args: &[String], root: &str, tool: &Tool) -> i32 {
    if ALICE == BOB || names().len() != 2 {
        println!("note: names() of the harness itself is off");
    }
    if let Some(i) = args.iter().position(|a| a == "--replay") {
        let v: pbt::serde_json::Value = pbt::serde_json::from_str(&std::fs::read_to_string(&args[i + 1]).unwrap()).unwrap();
        let c = Case {
            names: v["names"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(),
            trailing: v["trailing"].as_bool().unwrap(),
            bad: v["bad"].as_bool().unwrap(),
        };
        return match tool.fails(&c) {
            Some(m) => {
                println!("{c:?}: {m}\nVIOLATION property={id} replay={}", args[i + 1]);
                1
            },
            None => {
                println!("replay: property {id} holds on this case");
                0
            },
        };
    }
    let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let (batches, per, bads) = if tier == "thorough" { (160, 150, 160) } else { (8, 120, 16) };
    let t0 = Instant::now();
    let mut r = Rng::new(seed ^ 0xacc0);
    let work: Vec<Vec<Case>> = (0..batches).map(|_| (0..per).map(|_| gen(&mut r)).collect()).collect();
    let bad: Vec<Case> = (0..bads).map(|_| gen_bad(&mut r)).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let found = std::sync::Mutex::new(vec![]);
    std::thread::scope(|s| {
        for t in 0..8 {
            let (next, work, bad, found) = (&next, &work, &bad, &found);
            s.spawn(move || loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let tag = format!("t{t}");
                if i < work.len() {
                    if let Some(x) = tool.verdict(&tag, &work[i]) {
                        found.lock().unwrap().push((i, x));
                    }
                } else if i < work.len() + bad.len() {
                    let c = &bad[i - work.len()];
                    if !matches!(tool.run(&tag, std::slice::from_ref(c)), Outcome::NoCompile(_)) {
                        found.lock().unwrap().push((i, (c.clone(), "accepted although not all names are upper case".into())));
                    }
                } else {
                    break;
                }
            });
        }
    });
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|f| f.0);
    let mut violations = vec![];
    let mut code = 0;
    if let Some((_, (c, m))) = found.into_iter().next() {
        let (c, m, tries) = tool.shrink(c, m);
        let d = format!("{root}/replays");
        let _ = std::fs::create_dir_all(&d);
        let path = format!("{d}/{id}-{:012x}.json", pbt::fnv(0, format!("{c:?}").as_bytes()) & 0xffff_ffff_ffff);
        std::fs::write(&path, json!({"property": id, "names": c.names, "trailing": c.trailing, "bad": c.bad, "message": m}).to_string()).unwrap();
        println!("{c:?}: {m} (shrunk with {tries} runs)\nVIOLATION property={id} replay={path}");
        violations.push(json!({"message": m, "replay": path}));
        code = 1;
    }
    let all: Vec<&Case> = work.iter().flatten().chain(bad.iter()).collect();
    let nontrivial = |c: &&&Case| c.names.len() > 1 && c.names.iter().any(|n| n.len() > 3);
    let distinct: std::collections::BTreeSet<String> = all.iter().filter(nontrivial).map(|c| format!("{c:?}")).collect();
    let long = all.iter().filter(|c| c.names.iter().any(|n| n.len() > 32)).count();
    let samples: Vec<_> = all.iter().filter(nontrivial).take(4).map(|c| json!(format!("{c:?}"))).collect();
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": all.len(),
            "distinct_nontrivial": distinct.len(),
            "rule": "random lists of upper-case names expanded by the real macro, compiled and run, and lists with a name that is not upper case, which must not compile; non-trivial: at least two names, one longer than three bytes",
            "samples": samples,
            "classes": {"lists with a name longer than 32 bytes": long, "lists that must be rejected": bad.len(), "programs compiled": batches + bads},
        },
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
        "assumptions": ["the installed rustc"],
    });
    let d = format!("{root}/evidence");
    let _ = std::fs::create_dir_all(&d);
    std::fs::write(format!("{d}/{id}.json"), pbt::serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{id}: {} name lists, {} distinct non-trivial, {:.1}s, {}", all.len(), distinct.len(), t0.elapsed().as_secs_f64(), if code == 0 { "held" } else { "VIOLATED" });
    code
}
