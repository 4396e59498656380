mod ctx;
mod varch;
mod vmap;
mod vmisc;
mod vserde;
mod vradix;
mod vset;
mod vtotal;
use ctx::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let prop = a.get(1).cloned().unwrap_or_default();
    let seed = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = get("--tier").as_deref() == Some("thorough");
    let only = get("--case").and_then(|s| s.parse().ok());
    let secs = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(60);
    std::panic::set_hook(Box::new(|_| {}));
    watchdog(prop.clone(), seed, thorough, 15_000);
    let mut c = Ctx::new(&prop, seed, thorough, only, get("--trace"), secs);
    match prop.as_str() {
        "C01" => vset::c01(&mut c),
        "C02" => vset::c02(&mut c),
        "C03" => vset::c03(&mut c),
        "C04" => vset::c04(&mut c),
        "C05" => vset::c05(&mut c),
        "C06" => vmap::c06(&mut c),
        "C07" => vmap::c07(&mut c),
        "C08" => vmap::c08(&mut c),
        "C09" => vtotal::c09(&mut c),
        "C10" => vtotal::c10(&mut c),
        "C11" => vtotal::c11(&mut c),
        "C12" => vradix::c12(&mut c),
        "C13" => vradix::c13(&mut c),
        "C14" => vradix::c14(&mut c),
        "C15" => vradix::c15(&mut c),
        "C16" => vradix::c16(&mut c),
        "C17" => vradix::c17(&mut c),
        "C18" => vradix::c18(&mut c),
        "C19" => vradix::c19(&mut c),
        "C20" => vradix::c20(&mut c),
        "C21" => vserde::c21(&mut c),
        "C23" => vmisc::c23(&mut c),
        "C24" => vmisc::c24(&mut c),
        "C22" => varch::c22(&mut c),
        _ => { eprintln!("unknown property {}", prop); std::process::exit(2) }
    }
    let fail = c.fail.as_ref().map(|(id, d, e)| serde_json::json!({"case": id, "input": d, "observed": e}));
    println!("{}", serde_json::json!({
        "property": c.prop, "seed": c.seed, "tier": if c.thorough { "thorough" } else { "quick" },
        "evaluations": c.n, "distinct_nontrivial": c.seen.len(), "samples": c.samples, "truncated": c.truncated, "fail": fail }));
    std::process::exit(if c.fail.is_some() { 1 } else { 0 });
}
