use rwverif::engine::*;
use rwverif::{alloc, registry};
use std::collections::BTreeMap;
use std::io::Write;
use std::os::unix::fs::FileExt;

fn arg(name: &str) -> Option<String> {
    let mut it = std::env::args();
    while let Some(a) = it.next() {
        if a == format!("--{name}") {
            return it.next();
        }
    }
    None
}
fn num(name: &str, d: u64) -> u64 {
    arg(name).map(|s| s.parse().unwrap()).unwrap_or(d)
}

fn case_seed(seed: u64, prop: &str, variant: &str, i: u64) -> u64 {
    let mut h = mix(seed ^ 0x51ab_77);
    for b in prop.bytes().chain(variant.bytes()) {
        h = mix(h ^ b as u64);
    }
    mix(h ^ i.wrapping_mul(0x9e37_79b9_7f4a_7c15))
}

fn read_choices(file: &str) -> Vec<u32> {
    let s = std::fs::read_to_string(file).expect("choices file");
    s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

fn main() {
    quiet_panics();
    let mode = std::env::args().nth(1).unwrap_or_default();
    let stack = if cfg!(miri) { 0 } else { 512 << 20 };
    let code = if stack == 0 {
        go(&mode)
    } else {
        std::thread::Builder::new().stack_size(stack).spawn(move || go(&mode)).unwrap().join().unwrap_or(101)
    };
    std::process::exit(code);
}

fn go(mode: &str) -> i32 {
    dict();
    match mode {
        "list" => {
            let v: Vec<_> = registry::PROPS.iter().map(|p| {
                let guided = p.guided();
                serde_json::json!({"id": p.id, "variants": p.variants.iter().chain(&guided).map(|v| serde_json::json!({"name": v.name, "quick": v.quick, "thorough": v.thorough, "builds": v.builds})).collect::<Vec<_>>()})
            }).collect();
            println!("{}", serde_json::Value::Array(v));
            0
        }
        "noop" => 0,
        "distinct" => {
            // How many different cases the digest files name.
            let mut v: Vec<u64> = vec![];
            for f in std::env::args().skip(2) {
                let b = std::fs::read(f).unwrap();
                v.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            }
            v.sort_unstable();
            v.dedup();
            println!("{}", v.len());
            0
        }
        "run" => run(),
        "one" => one(),
        "count" => {
            let n = |i: usize| std::env::args().nth(i).and_then(|s| s.parse().ok()).unwrap_or(0);
            rwverif::props::memory::count_child(n(2), n(3) as u64)
        }
        _ => {
            eprintln!("usage: rwverif list | run --prop P --variant V --seed S --first I --step K --count N --out F | one --prop P --variant V (--choices F | --seed S --case I) [--trace F]");
            2
        }
    }
}

/// Runs a single case, from recorded choices or from its seed. Exit 0 held, 1 violated.
fn one() -> i32 {
    let (prop, variant) = (arg("prop").unwrap(), arg("variant").unwrap_or("main".into()));
    let f = registry::find(&prop, &variant).expect("unknown property");
    let mut src = match arg("input") {
        Some(f) => {
            // As left behind by a guided run: the tail's seed, then the choices to start with.
            let b = std::fs::read(f).expect("input file");
            let n = u32::from_le_bytes(b[8..12].try_into().unwrap()) as usize;
            let mut s = Src::random(0);
            s.remix(b[12..12 + 4 * n].chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect(), u64::from_le_bytes(b[..8].try_into().unwrap()));
            s
        }
        None => match arg("choices") {
        Some(c) => Src::replay(read_choices(&c)),
        None => Src::random(case_seed(num("seed", 1), &prop, &variant, num("case", 0))),
        },
    };
    if let Some(t) = arg("trace") {
        src.trace_to(std::fs::File::create(t).unwrap());
    }
    let mut cx = Cx { want_sample: true, ..Cx::default() };
    let r = guarded(f, &mut src, &mut cx);
    if let Some(s) = &cx.sample {
        println!("case: {s}");
    }
    match r {
        Ok(()) => {
            println!("held");
            0
        }
        Err(e) => {
            println!("violated: {}", e.0);
            1
        }
    }
}

fn run() -> i32 {
    let (prop, variant) = (arg("prop").unwrap(), arg("variant").unwrap_or("main".into()));
    let f = registry::find(&prop, &variant).expect("unknown property");
    let (seed, first, step, count) = (num("seed", 1), num("first", 0), num("step", 1), num("count", 1000));
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs(num("deadline", 600));
    let shrink_secs = num("shrink-secs", 20);
    let out = arg("out");
    let cur = arg("cur").map(|f| std::fs::File::create(f).unwrap());
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut digests: Vec<u64> = vec![];
    let mut samples: Vec<String> = vec![];
    let (mut done, mut nontrivial, mut queries) = (0u64, 0u64, 0u64);
    let mut src = Src::random(0);
    let mut failure = serde_json::Value::Null;
    let mut guide = (variant == "guided").then(|| rwverif::cover::Guide::new(case_seed(seed, &prop, &variant, first)));
    let input = cur.as_ref().and(arg("cur")).filter(|_| guide.is_some()).map(|c| std::fs::File::create(format!("{c}.input")).unwrap());
    for n in 0..count {
        let i = first + n * step;
        if let Some(c) = &cur {
            let _ = c.write_at(format!("{i:020}").as_bytes(), 0);
        }
        let mut cx = Cx { want_sample: samples.len() < 3, ..Cx::default() };
        let r = match &mut guide {
            Some(g) => {
                let (v, tail) = g.input();
                if let Some(o) = &input {
                    let mut b = Vec::with_capacity(12 + 4 * v.len());
                    b.extend(tail.to_le_bytes());
                    b.extend((v.len() as u32).to_le_bytes());
                    v.iter().for_each(|x| b.extend(x.to_le_bytes()));
                    let _ = o.write_at(&b, 0);
                }
                src.remix(v, tail);
                g.run(f, &mut src, &mut cx)
            }
            None => {
                src.reseed(case_seed(seed, &prop, &variant, i));
                guarded(f, &mut src, &mut cx)
            }
        };
        done += 1;
        queries += cx.queries;
        for (k, v) in &cx.labels {
            *labels.entry(k).or_insert(0) += (*v).min(1);
        }
        if cx.nontrivial {
            nontrivial += 1;
            digests.push(digest(&src.choices));
            if samples.len() < 3 {
                if let Some(s) = cx.sample.take() {
                    samples.push(s);
                }
            }
        }
        if let Err(e) = r {
            let first_msg = e.0;
            let first_choices = src.choices.clone();
            let start = std::time::Instant::now();
            let mut msg = first_msg.clone();
            // A corrupted heap must not be shrunk in this process.
            let shrunk = if alloc::BAD.load(std::sync::atomic::Ordering::Relaxed) > 0 {
                first_choices.clone()
            } else {
                // Save the unshrunk case first: shrinking may crash.
                if let Some(o) = &out {
                    let v = serde_json::json!({"case": i, "message": first_msg, "choices": first_choices, "shrunk": false});
                    std::fs::write(format!("{o}.fail"), v.to_string()).unwrap();
                }
                shrink(first_choices.clone(), 20_000, |c| {
                    if start.elapsed().as_secs() > shrink_secs {
                        return None;
                    }
                    let mut s = Src::replay(c.to_vec());
                    let mut cx = Cx::default();
                    match guarded(f, &mut s, &mut cx) {
                        Ok(()) => None,
                        Err(e) => {
                            msg = e.0;
                            Some(s.choices)
                        }
                    }
                })
            };
            // What the shrunk case says.
            let mut s = Src::replay(shrunk.clone());
            let mut cx = Cx { want_sample: true, ..Cx::default() };
            if alloc::BAD.load(std::sync::atomic::Ordering::Relaxed) == 0 {
                if let Err(e) = guarded(f, &mut s, &mut cx) {
                    msg = e.0;
                }
            }
            failure = serde_json::json!({"case": i, "message": msg, "first_message": first_msg, "choices": shrunk, "case_text": cx.sample, "shrunk": true});
            break;
        }
        if std::time::Instant::now() > deadline {
            break;
        }
    }
    let v = serde_json::json!({
        "prop": prop, "variant": variant, "cases": done, "asked": count, "nontrivial": nontrivial, "queries": queries,
        "edges": guide.as_ref().map(|g| g.edges), "corpus": guide.as_ref().map(|g| g.corpus()), "labels": labels, "samples": samples, "failure": failure,
    });
    match out {
        Some(o) => {
            let mut bytes = Vec::with_capacity(digests.len() * 8);
            digests.iter().for_each(|d| bytes.extend(d.to_le_bytes()));
            std::fs::File::create(format!("{o}.digests")).unwrap().write_all(&bytes).unwrap();
            std::fs::write(&o, v.to_string()).unwrap();
        }
        None => println!("{}", serde_json::to_string_pretty(&v).unwrap()),
    }
    if failure_is_null(&v) { 0 } else { 1 }
}
fn failure_is_null(v: &serde_json::Value) -> bool {
    v["failure"].is_null()
}
