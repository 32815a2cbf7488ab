//! Model-checking harness for pmcp.  See /verif/DESIGN.md.
mod aengine;
mod ctx;
mod explore;
mod props;
mod tengine;
mod vm;

use ctx::{Ctx, Tier};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // Panics of the code under test are caught and judged; keep stderr quiet.
    if std::env::var_os("MC_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let code = match args.get(1).map(String::as_str) {
        Some("list") => {
            for (id, level, _) in props::ALL {
                println!("{id} {level}");
            }
            0
        },
        Some("check") => {
            let id = args.get(2).map_or("", String::as_str);
            let tier = match args.get(3).map(String::as_str) {
                Some("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            run(id, tier, None)
        },
        Some("replay") => {
            let body = std::fs::read_to_string(args.get(2).map_or("", String::as_str)).expect("read replay file");
            let v: serde_json::Value = serde_json::from_str(&body).expect("replay json");
            let id = v["property"].as_str().expect("property").to_string();
            run(&id, Tier::Thorough, Some(v["replay"].clone()))
        },
        Some(helper) if helper.starts_with("child-") => props::child(helper, &args[2..]),
        _ => {
            eprintln!("usage: mc check <ID> [quick|thorough] | replay <file> | list");
            2
        },
    };
    std::process::exit(code);
}

/// A crash of the process in a case is a violation of the property under check.
fn report_crashes(id: &str) {
    static LINE: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    extern "C" fn crashed(sig: libc::c_int) {
        let line = LINE.get().map_or(&b"crash\n"[..], Vec::as_slice);
        // SAFETY: async-signal-safe calls only
        unsafe {
            libc::write(1, line.as_ptr().cast(), line.len());
            if sig == libc::SIGABRT {
                libc::write(1, b"  key=abort\n".as_ptr().cast(), 12);
            }
            libc::_exit(1);
        }
    }
    let path = ctx::verif_dir().join(format!("work/replays/{id}-crash.json"));
    let _ = std::fs::create_dir_all(path.parent().unwrap());
    let _ = std::fs::write(&path, format!("{{\"property\": \"{id}\", \"key\": \"crash\", \"replay\": null}}\n"));
    let _ = LINE.set(format!("VIOLATION property={id} replay={}\n  key=crash\n  the process running the code under test crashed\n", path.display()).into_bytes());
    for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
        // SAFETY: installs a handler made of async-signal-safe calls
        unsafe {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = crashed as *const () as usize;
            a.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
    }
}

fn run(id: &str, tier: Tier, replay: Option<serde_json::Value>) -> i32 {
    let Some((_, level, f)) = props::ALL.iter().find(|(i, _, _)| *i == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    report_crashes(id);
    let replaying = replay.is_some();
    let ctx = Ctx::new(id, tier, replaying);
    if let Some(r) = replay {
        explore::set_replay(r);
    }
    let _ = ctx.level.set((*level).to_string());
    f(&ctx);
    if replaying {
        return i32::from(!ctx.violations().is_empty());
    }
    ctx.finish(level)
}
