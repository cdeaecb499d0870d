mod checks;
mod circom;
mod compile;
mod gen;
mod js;
mod mail;
mod model;
mod report;
mod rx;
mod util;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(1).cloned().unwrap_or_default();
    util::install_panic_hook();
    if id == "child" {
        std::process::exit(checks::child(&a[2..]));
    }
    // These properties promise that nothing crashes: run in a child, so that an abort is seen too.
    if ["C12", "A03"].contains(&id.as_str()) && std::env::var("VH_INNER").is_err() {
        std::process::exit(report::supervise(&id, &a[1..]));
    }
    let mut ctx = report::Ctx::new(&id);
    if let Some(p) = a.iter().position(|x| x == "--case") {
        ctx.only_case = a.get(p + 1).and_then(|x| x.parse().ok());
    }
    if let Some(p) = a.iter().position(|x| x == "--stream") {
        ctx.only_stream = a.get(p + 1).cloned();
    }
    let ctx: &'static report::Ctx = Box::leak(Box::new(ctx));
    std::thread::spawn(move || report::watchdog(ctx));
    let code = match util::catch(|| checks::run(ctx)) {
        Ok(c) => c,
        Err(e) => {
            println!("harness panic: {e}");
            4
        }
    };
    std::process::exit(code);
}
