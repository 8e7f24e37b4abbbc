//! `search run <property> <quick|thorough> <seed>`: evaluate the property's contract on concrete
//! inputs. `search replay <property> <input>`: evaluate it on one. Prints one JSON object.

use qverif::engine::{crash, Ctx, Stop};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let prop = a[2].as_str();
    crash::watch();
    let start = || {
        let mut c = Ctx::default();
        c.stop_at = std::env::var("QV_STOP_AT").ok().and_then(|s| s.split_once(' ').map(|(n, why)| (n.parse().unwrap(), why.to_string())));
        c.until = std::env::var("QV_UNTIL").ok().and_then(|s| s.parse().ok());
        c
    };
    let outcome = std::panic::catch_unwind(|| {
        let mut c = start();
        let found;
        if a[1] == "replay" {
            c.replay = true;
            found = qverif::chk_cal::replay(&mut c, prop, &a[3]);
            #[cfg(feature = "full")]
            let found = found || qverif::chk_time::replay(&mut c, prop, &a[3]) || qverif::chk_math::replay(&mut c, prop, &a[3]);
            if !found {
                std::process::exit(3);
            }
        } else {
            c.thorough = a[3] == "thorough";
            c.seed = a[4].parse().unwrap();
            found = qverif::chk_cal::search(&mut c, prop);
            #[cfg(feature = "full")]
            let found = found || qverif::chk_time::search(&mut c, prop) || qverif::chk_math::search(&mut c, prop);
            if !found {
                std::process::exit(3);
            }
        }
        c
    });
    crash::AT.store(0, std::sync::atomic::Ordering::Relaxed);
    let c = match outcome {
        Ok(c) => c,
        Err(e) => match e.downcast::<Stop>() {
            Ok(s) => s.0,
            Err(_) => std::process::exit(4),
        },
    };
    let assumed = if a[1] == "run" && ["C01", "C02", "C04", "C06", "C10", "C11"].contains(&prop) {
        qverif::chk_chrono::contracts(c.seed, ["C01", "C11"].contains(&prop))
    } else if a[1] == "run" && ["C15", "C16", "C18", "C19", "C20", "C21"].contains(&prop) {
        nalgebra()
    } else {
        (0, 0, String::new())
    };
    let fails: Vec<String> = c.fails.iter().map(|(i, m, n)| format!("{{\"input\":{},\"message\":{},\"at\":{n}}}", js(i), js(m))).collect();
    let known: Vec<String> = c
        .known
        .iter()
        .map(|(k, (n, i, m))| format!("{{\"key\":{},\"count\":{n},\"input\":{},\"message\":{}}}", js(k), js(i), js(m)))
        .collect();
    let samples: Vec<String> = c.samples.iter().map(|s| js(s)).collect();
    println!(
        "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"undecided\":{},\"undecided_note\":{},\"assumed\":[{},{},{}],\"n_fails\":{},\"fails\":[{}],\"known\":[{}],\"samples\":[{}]}}",
        c.evals,
        c.distinct,
        c.undecided,
        js(&c.undecided_note),
        assumed.0,
        assumed.1,
        js(&assumed.2),
        c.n_fails,
        fails.join(","),
        known.join(","),
        samples.join(",")
    );
}

#[cfg(feature = "full")]
fn nalgebra() -> (u64, u64, String) {
    qverif::chk_nalgebra::contracts()
}
#[cfg(not(feature = "full"))]
fn nalgebra() -> (u64, u64, String) {
    (0, 0, String::new())
}
