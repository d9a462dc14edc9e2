//! vh run PROP [options]: runs the workloads of one property against the library it is linked with.

use vh::run::{self, Opts};
use vh::{props, sys};

#[cfg(all(target_os = "linux", target_arch = "x86_64", not(miri)))]
fn persona(name: &str, sanitized: bool) {
    // Nothing may have asked for CPU features before this.
    if sanitized {
        if name != "full" {
            sys::install_cpuid_handler();
        }
    } else {
        sys::install_crash_handler();
    }
    match sys::assume_cpu(name) {
        Some(true) => {}
        Some(false) => {
            println!("@ nopersona {name}");
            std::process::exit(3);
        }
        None => {
            println!("@ herr - 0 unknown CPU {name}");
            std::process::exit(2);
        }
    }
    props::step::set_persona(name);
}

#[cfg(not(all(target_os = "linux", target_arch = "x86_64", not(miri))))]
fn persona(name: &str, _sanitized: bool) {
    if name != "full" {
        println!("@ nopersona {name}");
        std::process::exit(3);
    }
    sys::install_crash_handler();
}

#[cfg(all(target_os = "linux", target_arch = "x86_64", not(miri)))]
fn arm(list: &str) {
    match vh::traps::arm(list) {
        Ok(n) => println!("@ metric breakpoints_armed {n}"),
        Err(e) => {
            println!("@ herr - 0 no breakpoints: {e}");
            std::process::exit(2);
        }
    }
}

#[cfg(not(all(target_os = "linux", target_arch = "x86_64", not(miri))))]
fn arm(_list: &str) {
    println!("@ herr - 0 no breakpoints in this build");
    std::process::exit(2);
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut cpu = String::from("full");
    let mut forbid = None;
    let mut o = Opts {
        prop: String::new(),
        thorough: false,
        seed: 1,
        small: cfg!(miri),
        miri: cfg!(miri),
        oracle: true,
        threads: 1,
        scale: 1.0,
        only: vec![],
        case: None,
        log: false,
        records: 0,
        samples: false,
        hang_s: 0,
        part: (0, 1),
    };
    while let Some(a) = args.next() {
        let mut val = || args.next().expect("option without value");
        match a.as_str() {
            "run" => o.prop = val(),
            "--tier" => o.thorough = val() == "thorough",
            "--seed" => o.seed = val().parse().expect("seed"),
            "--threads" => o.threads = val().parse().expect("threads"),
            "--scale" => o.scale = val().parse().expect("scale"),
            "--only" => o.only.extend(val().split(',').map(String::from)),
            "--case" => {
                let v = val();
                let (k, i) = v.rsplit_once(':').expect("kind:index");
                o.case = Some((k.to_string(), i.parse().expect("index")));
            }
            "--log" => o.log = true,
            "--records" => o.records = val().parse().expect("records"),
            "--samples" => o.samples = true,
            "--no-oracle" => o.oracle = false,
            "--small" => o.small = true,
            "--like-miri" => (o.small, o.miri) = (true, true),
            "--hang" => o.hang_s = val().parse().expect("seconds"),
            "--part" => {
                let v = val();
                let (i, n) = v.split_once('/').expect("part/parts");
                o.part = (i.parse().expect("part"), n.parse().expect("parts"));
            }
            "--dict" => vh::gen::init_dict(&val()),
            "--cpu" => cpu = val(),
            "--forbid" => forbid = Some(val()),
            x => {
                println!("@ herr - 0 unknown option {x}");
                std::process::exit(2);
            }
        }
    }
    persona(&cpu, cfg!(vh_san));
    if let Some(list) = forbid {
        arm(&list);
    }
    sys::install_death_note();
    o.threads = o.threads.clamp(1, run::MAX_THREADS);
    let Some(kinds) = props::kinds(&o.prop) else {
        println!("@ herr - 0 no property {} in this build", o.prop);
        std::process::exit(2);
    };
    let code = run::run(&kinds, &o);
    #[cfg(all(target_os = "linux", target_arch = "x86_64", not(miri)))]
    if cpu != "full" {
        println!("@ metric cpuid_instructions_emulated {}", sys::CPUIDS.load(std::sync::atomic::Ordering::Relaxed));
    }
    std::process::exit(code);
}
