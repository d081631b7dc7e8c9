mod driver;
mod dynde;
mod envp;
mod exec;
mod gen;
mod jail;
mod min;
mod model;
mod run;
mod scen;
mod val;

/// Addresses must not vary either: parking_lot seeds its fairness by the address of a lock.
fn fix_addresses() {
    use std::os::unix::process::CommandExt;
    if std::env::var_os("FIGSIM_FIXED").is_some() { return }
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p < 0 || p & libc::ADDR_NO_RANDOMIZE != 0 || libc::personality((p | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) < 0 { return }
    }
    if let Ok(exe) = std::env::current_exe() { let _ = std::process::Command::new(exe).args(std::env::args_os().skip(1)).env("FIGSIM_FIXED", "1").exec(); }
}

fn main() {
    fix_addresses();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() == 3 => driver::check(&a[2]),
        Some("replay") if a.len() == 3 => driver::replay(&a[2]),
        Some("one") if a.len() >= 4 => driver::one(&a[2], a[3].parse().expect("seed"), a.len() > 4),
        Some("hashes") if a.len() == 5 => driver::hashes(&a[2], a[3].parse().expect("count"), a[4].parse().expect("workers")),
        Some("gens") if a.len() == 4 => driver::gens(&a[2], a[3].parse().expect("count")),
        _ => { eprintln!("usage: figsim check PROPERTY | replay FILE | one PROPERTY INDEX | hashes PROPERTY COUNT WORKERS | gens PROPERTY COUNT"); 2 }
    };
    std::process::exit(code)
}
