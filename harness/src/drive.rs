//! The commands of a harness binary: work, replay, list, trace.
use crate::core::*;
use crate::props;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::time::{Duration, Instant};

pub fn main(a: Vec<String>) {
    match a.get(1).map(|s| s.as_str()) {
        // harness work PROP seed shard seconds exhaustive_seconds progressfile outfile
        Some("work") => work(&a),
        Some("replay") => replay(&a),
        Some("list") => {
            for p in props::all() {
                println!("{}", p.0);
            }
        }
        Some("trace") => {
            quiet_panics();
            let c = props::find(&a[2]).unwrap();
            let o = run_case(c, vec![], Some(a[3].parse().unwrap()), 1);
            for t in &o.trace {
                println!("{t}");
            }
            println!("{:?} {:?}", o.cover, o.res);
        }
        _ => {
            eprintln!("usage: harness work|replay|list");
            std::process::exit(2)
        }
    }
}

fn fail_json(prop: &str, size: usize, o: &Outcome) -> String {
    format!(
        "{{\"property\":{},\"size\":{},\"message\":{},\"choices\":[{}],\"trace\":[{}]}}",
        jstr(prop),
        size,
        jstr(o.res.as_ref().err().unwrap()),
        o.log.iter().map(|x| x.0.to_string()).collect::<Vec<_>>().join(","),
        o.trace.iter().map(|t| jstr(t)).collect::<Vec<_>>().join(",")
    )
}

/// progress file: u64 counter, u64 kind(0 exhaustive/1 random), u64 len-or-seed, then choices
fn work(a: &[String]) {
    quiet_panics();
    let prop = &a[2];
    let seed: u64 = a[3].parse().unwrap();
    let shard: u64 = a[4].parse().unwrap();
    let secs: f64 = a[5].parse().unwrap();
    let exh: f64 = a[6].parse().unwrap();
    let prog = std::fs::File::create(&a[7]).unwrap();
    let case = props::find(prop).unwrap_or_else(|| {
        eprintln!("no such property");
        std::process::exit(2)
    });
    let mut st = Stats::default();
    let mut failed: Option<(usize, Outcome)> = None;
    let mut cnt: u64 = 0;
    let t0 = Instant::now();
    if exh > 0.0 {
        let mut data = vec![];
        loop {
            cnt += 1;
            let mut b = vec![];
            b.extend(cnt.to_le_bytes());
            b.extend(0u64.to_le_bytes());
            b.extend((data.len() as u64).to_le_bytes());
            for d in &data {
                b.extend((*d as u32).to_le_bytes());
            }
            let _ = prog.write_at(&b, 0);
            let o = run_case(case, data, None, 0);
            st.add(&o);
            st.exhaustive_cases += 1;
            if o.res.is_err() {
                failed = Some((0, o));
                break;
            }
            match odometer(&o.log) {
                Some(d) => data = d,
                None => {
                    st.exhausted = true;
                    break;
                }
            }
            if t0.elapsed().as_secs_f64() > exh {
                break;
            }
        }
    }
    let mut i = 0u64;
    while failed.is_none() && t0.elapsed().as_secs_f64() < secs {
        cnt += 1;
        i += 1;
        let rng = seed
            .wrapping_mul(0x2545F4914F6CDD1D)
            .wrapping_add(shard.wrapping_mul(0xD1342543DE82EF95))
            .wrapping_add(i.wrapping_mul(0x9E3779B97F4A7C15));
        let size = 1 + (i % 3) as usize;
        let mut b = vec![];
        b.extend(cnt.to_le_bytes());
        b.extend((size as u64).to_le_bytes());
        b.extend(rng.to_le_bytes());
        let _ = prog.write_at(&b, 0);
        let o = run_case(case, vec![], Some(rng), size);
        st.add(&o);
        if o.res.is_err() {
            failed = Some((size, o));
        }
    }
    let mut out = String::from("{");
    out += &format!(
        "\"evaluations\":{},\"nontrivial\":{},\"distinct\":{},\"exhaustive_cases\":{},\"exhausted\":{},\"cover\":{{{}}},\"samples\":[{}]",
        st.evals, st.nontrivial, st.distinct.len(), st.exhaustive_cases, st.exhausted,
        st.cover.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","),
        st.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
    );
    if let Some((size, o)) = failed {
        // first the unshrunk failure, so that a crash while shrinking loses nothing
        let raw = fail_json(prop, size, &o);
        let _ = std::fs::write(format!("{}.raw", a[8]), format!("{out},\"failure\":{raw}}}"));
        let o = shrink(case, o, size, Duration::from_secs(20));
        out += &format!(",\"failure\":{}", fail_json(prop, size, &o));
    }
    out += "}";
    let mut f = std::fs::File::create(&a[8]).unwrap();
    f.write_all(out.as_bytes()).unwrap();
}

/// harness replay FILE: exit 1 and print the failure if the recorded case still fails.
fn replay(a: &[String]) {
    quiet_panics();
    let s = std::fs::read_to_string(&a[2]).unwrap();
    let get = |k: &str| {
        let i = s.find(&format!("\"{k}\":")).expect(k) + k.len() + 3;
        s[i..].trim_start().to_string()
    };
    let prop = get("property").split('"').nth(1).unwrap().to_string();
    let num = |x: String| -> u64 { x.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap() };
    let size = num(get("size")) as usize;
    let (data, rng) = if s.contains("\"rng\":") {
        (vec![], Some(num(get("rng"))))
    } else {
        let c = get("choices");
        let c = &c[1..c.find(']').unwrap()];
        (c.split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect(), None)
    };
    let o = run_case(props::find(&prop).expect("property"), data, rng, size);
    for t in &o.trace {
        println!("  {t}");
    }
    match o.res {
        Ok(()) => println!("no failure"),
        Err(e) => {
            println!("FAILS: {e}");
            std::process::exit(1)
        }
    }
}
