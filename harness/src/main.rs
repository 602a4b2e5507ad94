mod fw;
mod gen;
mod lp;
mod data;
mod trees;
mod hyp;
mod boost;
mod prog;
mod misc;
mod meta;
mod pipe;
mod conf;

use fw::*;

fn props() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(data::props());
    v.extend(trees::props());
    v.extend(hyp::props());
    v.extend(boost::props());
    v.extend(prog::props());
    v.extend(misc::props());
    v.extend(meta::props());
    v.extend(pipe::props());
    v.extend(conf::props());
    v
}

/// Runs the check in a child process. A child that dies (stack overflow, abort, out of memory)
/// is run again with every case recorded before it starts, and the fatal case is reported.
fn supervise(args: &[String], verif: &str) -> i32 {
    use std::process::Command;
    let exe = std::env::current_exe().unwrap();
    let child = |a: &[String], trace: Option<&str>| {
        let mut c = Command::new(&exe);
        c.args(a).env("MBVERIF_CHILD", "1");
        if let Some(t) = trace {
            c.env("MBVERIF_TRACE", t).env("MBVERIF_PROP", &args[1]);
        }
        c.status().ok().and_then(|s| s.code())
    };
    if let Some(c) = child(&args[1..], None) {
        return c;
    }
    if args[1] == "replay" {
        let prop = std::fs::read_to_string(&args[2]).ok().and_then(|t| serde_json::from_str::<Replay>(&t).ok()).map(|r| r.property).unwrap_or_default();
        say("the process running this case died");
        say(&format!("VIOLATION property={prop} replay={}", args[2]));
        return 1;
    }
    let dir = format!("{verif}/target/trace-{}-{}", args[1], std::process::id());
    let _ = std::fs::create_dir_all(&dir);
    let again = child(&args[1..], Some(&dir));
    let mut code = 5;
    if again == Some(1) {
        code = 1;
    } else {
        let mut found = None;
        for e in std::fs::read_dir(&dir).map(|d| d.flatten().collect::<Vec<_>>()).unwrap_or_default() {
            let f = e.path().to_string_lossy().to_string();
            let mut c = Command::new(&exe);
            c.args(["replay", &f]).env("MBVERIF_CHILD", "1").env_remove("MBVERIF_FD3").stderr(std::process::Stdio::null());
            if c.status().ok().and_then(|s| s.code()).is_none() {
                found = std::fs::read_to_string(&f).ok().and_then(|t| serde_json::from_str::<Replay>(&t).ok());
                break;
            }
        }
        match found {
            Some(r) => {
                let path = write_replay(verif, &args[1], &r.sub, &r.message, r.case);
                say(&format!("{}: {}", r.sub, r.message));
                say(&format!("VIOLATION property={} replay={path}", args[1]));
                code = 1;
            }
            None => say("the check process died and no single case reproduces it"),
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn main() {
    silence_panics();
    let args: Vec<String> = std::env::args().collect();
    let verif = std::env::var("MBVERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut only_sub = None;
    let mut scale = 1.0;
    let mut k = 2;
    while k < args.len() {
        match args[k].as_str() {
            "quick" => tier = Tier::Quick,
            "thorough" => tier = Tier::Thorough,
            "--sub" => {
                k += 1;
                only_sub = Some(args[k].clone());
            }
            "--scale" => {
                k += 1;
                scale = args[k].parse().unwrap();
            }
            _ => {}
        }
        k += 1;
    }
    let sup = std::env::var_os("MBVERIF_CHILD").is_none() && !matches!(args.get(1).map(|s| s.as_str()), Some("list") | None);
    if sup {
        std::process::exit(supervise(&args, &verif));
    }
    let props = props();
    let watched = match args.get(1).map(|s| s.as_str()) {
        Some("replay") => std::fs::read_to_string(&args[2]).ok().and_then(|t| serde_json::from_str::<Replay>(&t).ok()).map(|r| r.property),
        Some(id) => Some(id.to_string()),
        None => None,
    };
    if let Some(id) = watched {
        watchdog(id, verif.clone());
    }
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("replay") => replay_file(&props, &args[2]),
        Some("list") => {
            for p in &props {
                let subs: Vec<_> = p.subs.iter().map(|s| format!("{}({}/{})", s.name, s.quick, s.thorough)).collect();
                say(&format!("{} {}", p.id, subs.join(" ")));
            }
            0
        }
        Some(id) => match props.iter().find(|p| p.id == id) {
            Some(p) => run_prop(p, &Ctx { verif, seed, tier, scale, only_sub }),
            None => {
                say(&format!("no property {id}"));
                2
            }
        },
        None => {
            say("usage: mbverif <property>|replay <file>|list [quick|thorough] [--sub name] [--scale f]");
            2
        }
    };
    std::process::exit(code);
}
