//! Model checker for ext4-view: `mc --property P01 [--replay FILE]`.
//! Tier from VERIF_TIER (quick|thorough), seed from VERIF_SEED.

mod crypto;
#[macro_use]
mod explore;
mod guard;
mod model_path;
mod hashnames;
mod hashfind;
mod htree;
mod img;
mod jbd;
mod ops;
mod props;

use explore::{Failure, Section};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, Ordering::*};
use std::time::{Duration, Instant};

#[global_allocator]
static A: guard::Capped = guard::Capped;

/// What a property module provides.
pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub sections: Vec<Section>,
    /// Conformance runs of the image builder / reference model against
    /// independent tools or the real implementation; returns the count.
    pub validate: Option<fn() -> Result<u64, String>>,
}

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| {
        Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
    })
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Known {
    /// (key, text)
    findings: Vec<(String, String)>,
    hit: Mutex<BTreeMap<String, u64>>,
}

fn load_known(id: &str) -> Known {
    let mut findings = vec![];
    let p = verif_dir().join("known-findings.txt");
    if let Ok(s) = std::fs::read_to_string(p) {
        for l in s.lines() {
            // finding: property=P09 key=<key> <text>
            if let Some(r) = l.strip_prefix("finding: ") {
                let mut it = r.splitn(3, ' ');
                let prop = it.next().unwrap_or("").trim_start_matches("property=");
                let key = it.next().unwrap_or("").trim_start_matches("key=");
                let text = it.next().unwrap_or("");
                if prop == id && !key.is_empty() {
                    findings.push((key.to_string(), text.to_string()));
                }
            }
        }
    }
    Known { findings, hit: Default::default() }
}

fn write_replay(
    id: &str,
    thorough: bool,
    section: &str,
    choices: &[u32],
    msg: &str,
    desc: &[String],
) -> PathBuf {
    let dir = verif_dir().join("evidence").join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{id}.replay"));
    let mut s = String::new();
    let _ = writeln!(s, "property {id}");
    let _ = writeln!(s, "tier {}", if thorough { "thorough" } else { "quick" });
    let _ = writeln!(s, "section {section}");
    let cs: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
    let _ = writeln!(s, "choices {}", cs.join(" "));
    let _ = writeln!(s, "# {}", msg.replace('\n', "\n# "));
    for d in desc {
        let _ = writeln!(s, "# {}", d.replace('\n', "\n# "));
    }
    let _ = std::fs::write(&p, s);
    p
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| {
        args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned()
    };
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough")
        || args.iter().any(|a| a == "--thorough");
    let seed: i64 =
        std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    if let Some(f) = get("--replay") {
        std::process::exit(do_replay(&f));
    }
    if args.iter().any(|a| a == "--find-hashes") {
        return hashfind::run();
    }
    if args.iter().any(|a| a == "--validate-builder") {
        let n = get("--images").and_then(|n| n.parse().ok()).unwrap_or(200);
        match props::validate::builder_corpus(get("--validate-builder").as_deref(), n) {
            Ok(n) => println!("{n} images validated"),
            Err(e) => {
                println!("FAILED: {e}");
                std::process::exit(3)
            }
        }
        return;
    }
    let id = get("--property").expect("--property ID");
    let only = get("--section");
    let threads: usize = std::env::var("MC_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| {
            std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(8)
        });
    std::process::exit(run(&id, thorough, seed, threads, only.as_deref()));
}

fn do_replay(file: &str) -> i32 {
    let s = std::fs::read_to_string(file).expect("replay file");
    let (mut id, mut sec, mut ch, mut th) = (String::new(), String::new(), vec![], false);
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("property ") {
            id = r.into()
        } else if let Some(r) = l.strip_prefix("section ") {
            sec = r.into()
        } else if let Some(r) = l.strip_prefix("tier ") {
            th = r == "thorough"
        } else if let Some(r) = l.strip_prefix("choices") {
            ch = r.split_whitespace().map(|c| c.parse::<u32>().unwrap()).collect()
        }
    }
    let p = props::get(&id, th).expect("property");
    let sec = p.sections.iter().find(|s| s.name == sec).expect("section");
    let id2 = id.clone();
    guard::install(Box::new(move |_, _, what| {
        println!("VIOLATION property={id2} replayed: {what}");
        true
    }));
    let (r, d) = explore::replay(sec, th, &ch);
    for x in d {
        println!("{x}");
    }
    match r {
        Ok(()) => {
            println!("replay passed");
            0
        }
        Err(f) => {
            println!("replay failed: {} [key {}]", f.msg, f.key);
            1
        }
    }
}

fn run(id: &str, thorough: bool, seed: i64, threads: usize, only: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let Some(prop) = props::get(id, thorough) else {
        eprintln!("unknown property {id}");
        return 3;
    };
    let known = load_known(id);
    let violated = AtomicBool::new(false);
    {
        let id = id.to_string();
        guard::install(Box::new(move |section, choices, what| {
            let p = write_replay(&id, thorough, section, choices, what, &[]);
            println!("VIOLATION property={id} replay={}", p.display());
            println!("  {section}: {what}");
            true
        }));
    }
    // Hard cap far above the normal run time, so that an overloaded machine
    // still gets an answer; a capped run says so in its evidence.
    let cap = if thorough { 6 * 3600 } else { 780 };
    let deadline = t0 + Duration::from_secs(cap);

    let validated = match prop.validate.map(|f| f()) {
        None => 0,
        Some(Ok(n)) => n,
        Some(Err(e)) => {
            eprintln!("mc: conformance run of the model failed: {e}");
            return 3;
        }
    };

    let first: Mutex<Option<Failure>> = Mutex::new(None);
    let on_fail = |f: Failure| -> bool {
        let key = if f.fail.key.is_empty() {
            format!(
                "{}:{}",
                f.section,
                f.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(".")
            )
        } else {
            f.fail.key.clone()
        };
        if known.findings.iter().any(|(k, _)| *k == key) {
            *known.hit.lock().unwrap().entry(key).or_default() += 1;
            return true;
        }
        let mut g = first.lock().unwrap();
        // keep the simplest (shortest, then lexicographically least)
        let better = match &*g {
            None => true,
            Some(o) => (f.choices.len(), &f.choices) < (o.choices.len(), &o.choices),
        };
        if better {
            let mut f = f;
            f.fail.key = key;
            *g = Some(f);
        }
        violated.store(true, SeqCst);
        false
    };
    let mut stats = vec![];
    for s in &prop.sections {
        if only.is_some_and(|o| o != s.name) {
            continue;
        }
        // for tools/mutate.py only
        let deadline = match std::env::var("MC_SECTION_SECS").ok().and_then(|x| x.parse().ok()) {
            Some(n) => deadline.min(Instant::now() + Duration::from_secs(n)),
            None => deadline,
        };
        let st = explore::explore(s, thorough, threads, deadline, &on_fail);
        eprintln!(
            "[{id}] {:<28} cases={} nodes={} steps={} distinct={} outcomes={} states={} {:.1}s{}",
            st.name,
            st.cases,
            st.nodes,
            st.steps,
            st.distinct,
            st.outcomes,
            st.states,
            st.wall_s,
            if st.exhausted { "" } else { " (stopped)" }
        );
        stats.push(st);
        if violated.load(SeqCst) {
            break;
        }
    }
    let hit = known.hit.lock().unwrap().clone();
    for (k, text) in &known.findings {
        if hit.contains_key(k) {
            println!("KNOWN-FINDING: property={id} {text} [{k}]");
        } else if only.is_none() && !violated.load(SeqCst) {
            eprintln!("note: listed finding did not occur: {k}");
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    write_evidence(&prop, thorough, seed, &stats, validated, wall, violated.load(SeqCst));
    let f = first.lock().unwrap().take();
    if let Some(f) = f {
        let p = write_replay(id, thorough, &f.section, &f.choices, &f.fail.msg, &f.desc);
        println!("VIOLATION property={id} replay={}", p.display());
        println!("  section {}: {}", f.section, f.fail.msg);
        println!("  key {}", f.fail.key);
        for d in &f.desc {
            println!("  {d}");
        }
        return 1;
    }
    0
}

fn write_evidence(
    p: &Prop,
    thorough: bool,
    seed: i64,
    stats: &[explore::SecStats],
    validated: u64,
    wall: f64,
    violated: bool,
) {
    let sum = |f: fn(&explore::SecStats) -> u64| stats.iter().map(f).sum::<u64>();
    let mut c = String::new();
    let cases = sum(|s| s.cases);
    if p.level == "model_checking" {
        let _ = write!(
            c,
            "\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},",
            sum(|s| if s.states > 0 { s.states } else { s.distinct }),
            sum(|s| s.steps),
            cases
        );
    } else {
        let _ = write!(
            c,
            "\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},",
            cases,
            sum(|s| s.distinct),
            json_str(p.rule)
        );
        let _ = write!(c, "\"operations_executed\":{},", sum(|s| s.steps));
    }
    let _ = write!(
        c,
        "\"choice_points\":{},\"distinct_outcomes\":{},\"model_conformance_comparisons\":{},\"exhaustive\":{},",
        sum(|s| s.nodes),
        sum(|s| s.outcomes),
        validated,
        !violated && stats.iter().all(|s| s.exhausted)
    );
    let samples: Vec<String> =
        stats.iter().flat_map(|s| s.samples.iter()).map(|s| json_str(s)).collect();
    let _ = write!(c, "\"samples\":[{}],", samples.join(","));
    let secs: Vec<String> = stats
        .iter()
        .map(|s| {
            format!(
                "{{\"section\":{},\"bound\":{},\"cases\":{},\"steps\":{},\"distinct_inputs\":{},\"distinct_outcomes\":{},\"completed\":{},\"wall_s\":{:.2}}}",
                json_str(&s.name),
                json_str(&s.bound),
                s.cases,
                s.steps,
                s.distinct,
                s.outcomes,
                s.exhausted,
                s.wall_s
            )
        })
        .collect();
    let _ = write!(c, "\"sections\":[{}]", secs.join(","));
    let assumptions: Vec<String> = p.assumptions.iter().map(|a| json_str(a)).collect();
    let j = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{{}}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        json_str(p.id),
        json_str(if thorough { "thorough" } else { "quick" }),
        seed,
        json_str(p.level),
        c,
        assumptions.join(","),
        wall,
        violated as u32
    );
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", p.id)), j) {
        eprintln!("mc: cannot write evidence: {e}");
    }
}
