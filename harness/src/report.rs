//! Evidence files, replay files and the final verdict.
use crate::campaign::*;
use std::fmt::Write;

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub struct Outcome {
    pub acc: Acc,
    pub rule: String,
    pub notes: Vec<(String, String)>,
    /// Deviations shown by their own fixed inputs: (signature, what fails, replay text).
    pub findings: Vec<(String, String, String)>,
}
/// Known findings: lines `known: property=<id> sig=<sig> <text>`.
pub fn known(ctl: &Ctl) -> Vec<(String, String, String)> {
    let p = ctl.sub.verif.join("known-findings.txt");
    let t = std::fs::read_to_string(p).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        let Some(r) = l.strip_prefix("known: property=") else { continue };
        let mut it = r.splitn(3, ' ');
        let (Some(p), Some(sig), Some(txt)) = (it.next(), it.next(), it.next()) else { continue };
        v.push((p.to_string(), sig.trim_start_matches("sig=").to_string(), txt.to_string()));
    }
    v
}
pub fn finish(ctl: &Ctl, mut o: Outcome) -> i32 {
    let dir = ctl.sub.verif.clone();
    let _ = std::fs::create_dir_all(dir.join("evidence"));
    let a = &mut o.acc;
    a.fails.sort_by_key(|f| f.size);
    let mut code = 0;
    let mut lines = vec![];
    let mut shown = std::collections::BTreeSet::new();
    for f in &a.fails {
        if shown.len() >= 5 || !shown.insert(f.cat.clone()) {
            continue;
        }
        let d = dir.join("replays");
        let _ = std::fs::create_dir_all(&d);
        let p = d.join(format!("{}-{}-{}-{}.txt", ctl.prop, ctl.seed, f.cat.replace(' ', "_"), shown.len()));
        let mut t = String::new();
        writeln!(t, "property {}\nseed {}\ncategory {}\nwhat {}\ninput {}", ctl.prop, ctl.seed, f.cat, f.msg, f.input).unwrap();
        if let Some(r) = &f.run {
            let w: Vec<String> = crate::subject::encode(&[(0, r.clone())])
                .chunks_exact(4)
                .map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]]).to_string())
                .collect();
            writeln!(t, "plan {}", w.join(" ")).unwrap();
        }
        writeln!(t, "----- source\n{}\n----- events\n{}", f.src, show_log(&f.log)).unwrap();
        let _ = std::fs::write(&p, t);
        println!("{}: [{}] {}", ctl.prop, f.cat, f.msg.lines().take(6).collect::<Vec<_>>().join(" / "));
        if !f.input.is_empty() {
            println!("  input: {}", f.input.chars().take(600).collect::<String>());
        }
        lines.push(format!("VIOLATION property={} replay={}", ctl.prop, p.display()));
        code = 1;
    }
    let kn = known(ctl);
    let mut listed = 0;
    for (sig, what, src) in &o.findings {
        if kn.iter().any(|x| x.0 == ctl.prop && &x.1 == sig) {
            listed += 1;
            println!("KNOWN-FINDING: property={} {}", ctl.prop, what);
            continue;
        }
        let d = dir.join("replays");
        let _ = std::fs::create_dir_all(&d);
        let p = d.join(format!("{}-{}.txt", ctl.prop, sig));
        let _ = std::fs::write(&p, src);
        println!("{}: {}", ctl.prop, what);
        lines.push(format!("VIOLATION property={} replay={}", ctl.prop, p.display()));
        code = 1;
    }
    o.notes.push(("known_findings_observed".into(), listed.to_string()));
    for l in lines {
        println!("{}", l);
    }
    let mut e = String::new();
    let wall = ctl.start.elapsed().as_secs_f64();
    write!(
        e,
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"wall_s\":{:.1},\"violations\":{},\"coverage\":{{",
        js(&ctl.prop),
        js(&ctl.tier),
        ctl.seed,
        wall,
        a.fails.len()
    )
    .unwrap();
    write!(
        e,
        "\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},",
        a.runs,
        a.nontrivial.len(),
        js(&o.rule)
    )
    .unwrap();
    write!(e, "\"samples\":[{}],", a.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")).unwrap();
    write!(
        e,
        "\"specifications_compiled\":{},\"specifications_not_built\":{},\"distinct_event_traces\":{},\"automaton_states\":{},\"table_cells\":{},\"table_cells_driven\":{},\"rules\":{},\"rules_observed\":{},",
        a.grammars, a.not_built, a.traces.len(), a.states, a.cells, a.cells_hit, a.rules, a.rules_hit
    )
    .unwrap();
    let m = |b: &std::collections::BTreeMap<String, u64>| {
        b.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")
    };
    write!(e, "\"specifications_by_kind\":{{{}}},", m(&a.tags)).unwrap();
    write!(e, "\"property_specific\":{{{}}},", m(&a.extra)).unwrap();
    write!(e, "\"disagreements_left_to_other_properties\":{{{}}},", m(&a.other)).unwrap();
    let c: Vec<String> = a.stats.counts().iter().filter(|x| *x.1 > 0).map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    write!(e, "\"monitored\":{{{}}}", c.join(",")).unwrap();
    for (k, v) in &o.notes {
        write!(e, ",{}:{}", js(k), js(v)).unwrap();
    }
    e += "}}\n";
    if std::fs::write(dir.join("evidence").join(format!("{}.json", ctl.prop)), e).is_err() {
        println!("cannot write the evidence file");
        return 2;
    }
    if code == 0 && a.runs == 0 {
        println!("{}: nothing was executed", ctl.prop);
        return 2;
    }
    println!(
        "{} {} seed={}: {} specifications, {} runs, {} distinct traces, {} events, {:.0} s, {} violations",
        ctl.prop, ctl.tier, ctl.seed, a.grammars, a.runs, a.traces.len(), a.stats.events, wall, a.fails.len()
    );
    code
}
