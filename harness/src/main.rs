#[macro_use] mod ops;
mod collector; mod cycle; mod dict; mod faults; mod flow; mod frame; mod gen_; mod isolate; mod out; mod pairs; mod peek; mod pipe; mod registry; mod leafrules; mod roots; mod total; mod rules; mod tree; mod verdict; mod wire; mod wirechecks;
fn main() {
    static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
    std::panic::set_hook(Box::new(|p| if let Ok(mut l) = LAST.lock() { *l = p.to_string() }));
    let a: Vec<String> = std::env::args().collect();
    ops::watch(if a[1] == "c15run" { 120 } else { 240 });
    if a[1] == "c15run" { return isolate::child(&a[2]) }
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let d = dict::Dict::load();
    let dir = a.get(2).map(String::as_str).unwrap_or("/tmp/mxv").to_string();
    let dir = dir.as_str();
    let work = a.get(3).map(String::as_str).unwrap_or("/tmp/mxv");
    let body = || match a[1].as_str() {
        "c01" => rules::c01(&d, seed, thorough, dir, 8),
        "c02" => rules::c02(&d, seed, thorough, dir, 8),
        "c03" => leafrules::c03(&d, seed, thorough, dir, 8),
        "c04" => wirechecks::c04(&d, seed, thorough, dir),
        "c05" => wirechecks::c05(&d, seed, thorough, dir),
        "c06" => wirechecks::c06(&d, seed, thorough, dir),
        "c07" => faults::c07(&d, seed, thorough, dir),
        "c08" => registry::c08(&d, seed, thorough, dir),
        "c09" => frame::c09(&d, seed, thorough, dir, work),
        "c10" => total::c10(&d, seed, thorough, dir, work),
        "c11" => peek::c11(&d, seed, thorough, dir, work),
        "c12" => verdict::c12(&d, seed, thorough, dir, work),
        "c14" => cycle::c14(&d, seed, thorough, dir),
        "c15" => isolate::c15(&d, seed, thorough, dir, work),
        "c17" => verdict::c17(&d, seed, thorough, dir, work),
        "c13" => flow::c13(&d, seed, thorough, dir, work),
        "c16" => collector::c16(seed, thorough, dir, work),
        "sample" => sample(&d, dir, a.get(3).map_or(0, |s| s.parse().unwrap())),
        x => { eprintln!("unknown mode {x}"); std::process::exit(2) }
    };
    std::thread::scope(|s| { std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, body).unwrap().join().unwrap_or_else(|_| {
        eprintln!("the drive broke off: {}", LAST.lock().unwrap());
        std::process::exit(101)
    }) });
}
/// prints a complete message of type mt: JSON, XML (for use by hand)
fn sample(d: &dict::Dict, mt: &str, popt: usize) {
    let r = d.roots.iter().find(|r| r.mt == mt).expect("type");
    let mut g = gen_::Gen::new(d, 1, mt, gen_::Leaf::Clean);
    g.popt = popt; g.pvec = 0; g.ok = |s| s.len() < 20; g.budget = 200;
    let m = wire::Mx { rt: d.root_ix(&r.m), h: wire::header(&mut g, &r.full), d: g.build(r.r), ns: [None, None] };
    println!("{}\n{}", m.json(d), m.xml(d));
}
