//! Runs one check in a child process, attributes crashes and hangs to cases, replays cases.
use crate::engine::*;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::Arc;
use std::time::{Duration, Instant};

pub type Explore = fn(&Ctx) -> (&'static str, Value);
pub type Replay = fn(&Value) -> R<()>;
pub type Table = fn(&str) -> Option<(Explore, Replay)>;

fn root() -> PathBuf {
    std::env::var("VERIF_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from("/verif"))
}

pub fn run(table: Table, other: impl Fn(&[String]) -> Option<i32>) -> ! {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|x| x.as_str()) {
        Some("check") => parent(
            table,
            &args[2],
            args.get(3).map(|x| x.as_str()).unwrap_or("quick"),
        ),
        Some("child") => child(table, &args[2], &args[3]),
        Some("replay") => replay_file(table, Path::new(&args[2])),
        _ => other(&args).unwrap_or_else(|| {
            eprintln!("usage: check <id> quick|thorough | replay <file>");
            2
        }),
    };
    std::process::exit(code);
}

fn child(table: Table, id: &str, tier: &str) -> i32 {
    let tier = if tier == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    };
    let (explore, _) = table(id).expect("unknown property");
    let ctx = Arc::new(Ctx::new(id, tier, &root()));
    println!("rundir {}", ctx.run_dir.display());
    {
        let ctx = ctx.clone();
        let parent = std::os::unix::process::parent_id();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(1));
            if std::os::unix::process::parent_id() != parent {
                // nobody is interested any more
                std::process::exit(98);
            }
            if let Some(w) = ctx.hung() {
                let src = ctx.run_dir.join(format!("cur-{}", w));
                let _ = std::fs::copy(src, ctx.run_dir.join("hang"));
                println!("worker {} hangs", w);
                std::process::exit(97);
            }
        });
    }
    let (level, extra) = explore(&ctx);
    let code = ctx.finish(level, extra);
    let _ = std::fs::remove_dir_all(&ctx.run_dir);
    code
}

/// Runs the exploration in a child process so that aborts, stack overflows and hangs of the code under
/// test can be attributed to a case and confirmed by replay.
fn parent(table: Table, id: &str, tier: &str) -> i32 {
    if table(id).is_none() {
        eprintln!("unknown property {}", id);
        return 2;
    }
    let exe = std::env::current_exe().expect("exe");
    let mut ch = Command::new(&exe)
        .args(["child", id, tier])
        .spawn()
        .expect("spawn");
    let pid = ch.id();
    let st = ch.wait().expect("wait");
    if let Some(c @ (0 | 1)) = st.code() {
        return c;
    }
    // abnormal end: find the culprit
    let run_dir = root().join("out").join(format!("run-{}-{}", id, pid));
    let mut cands: Vec<PathBuf> = vec![];
    if run_dir.join("hang").exists() {
        cands.push(run_dir.join("hang"));
    } else if let Ok(rd) = std::fs::read_dir(&run_dir) {
        cands = rd.filter_map(|x| x.ok()).map(|x| x.path()).collect();
        cands.sort();
    }
    println!(
        "exploration of {} ended abnormally ({:?}); replaying {} candidate cases",
        id,
        st,
        cands.len()
    );
    let mut found = 0;
    for (i, c) in cands.iter().enumerate() {
        let Ok(s) = std::fs::read_to_string(c) else {
            continue;
        };
        let Some(line) = s.lines().next() else {
            continue;
        };
        let Ok(case) = serde_json::from_str::<Value>(line) else {
            continue;
        };
        let path = root()
            .join("out")
            .join(format!("{}-violation-crash-{}.json", id, i));
        let body = json!({"property": id, "case": case, "message": "process died or hung"});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
        let mut ch = Command::new(&exe)
            .arg("replay")
            .arg(&path)
            .spawn()
            .expect("spawn");
        let t0 = Instant::now();
        let bad = loop {
            if let Some(st) = ch.try_wait().expect("wait") {
                break if st.code() == Some(0) {
                    None
                } else {
                    Some(format!("{:?}", st))
                };
            }
            if t0.elapsed() > Duration::from_secs(HANG_SECS) {
                let _ = ch.kill();
                let _ = ch.wait();
                break Some("hang".to_string());
            }
            std::thread::sleep(Duration::from_millis(50));
        };
        if let Some(b) = bad {
            println!("VIOLATION property={} replay={}", id, path.display());
            println!("  case: {}", case);
            println!("  what: {}", b);
            found += 1;
            break;
        }
    }
    let _ = std::fs::remove_dir_all(&run_dir);
    let ev = json!({"property": id, "tier": tier, "seed": 1, "level": "other",
        "coverage": {"explanation": format!("exploration aborted: {:?}", st)}, "wall_s": 0.0, "violations": found});
    let _ = std::fs::create_dir_all(root().join("evidence"));
    let _ = std::fs::write(
        root().join("evidence").join(format!("{}.json", id)),
        ev.to_string(),
    );
    if found > 0 {
        1
    } else {
        3
    }
}

fn replay_file(table: Table, p: &Path) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(p).expect("read")).expect("json");
    let id = v["property"].as_str().expect("property").to_string();
    let case = v["case"].clone();
    let (_, replay) = table(&id).expect("unknown property");
    // big stack, as in the exploration
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || guard(|| replay(&case)))
        .unwrap();
    match h.join().unwrap() {
        Ok(()) => {
            println!("replay: property {} holds on this case", id);
            0
        }
        Err(e) => {
            println!("replay: property {} violated: {}", id, e);
            1
        }
    }
}
