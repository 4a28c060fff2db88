#![allow(clippy::all)]
mod api;
mod fw;
#[cfg(not(miri))]
mod mem;
mod mocks;
#[cfg(not(miri))]
mod p_aead;
#[cfg(not(miri))]
mod p_curve;
#[cfg(not(miri))]
mod p_huge;
#[cfg(not(miri))]
mod p_iso;
#[cfg(not(miri))]
mod p_len;
#[cfg(not(miri))]
mod p_long;
#[cfg(not(miri))]
mod p_mac;
#[cfg(not(miri))]
mod p_mem;
#[cfg(not(miri))]
mod p_res;
#[cfg(not(miri))]
mod p_size;
use fw::*;

#[cfg(not(miri))]
#[global_allocator]
static ALLOCATOR: p_res::Counting = p_res::Counting;

fn main() {
    let mut a = std::env::args().skip(1);
    let cmd = a.next().unwrap_or_default();
    #[cfg(not(miri))]
    if cmd == "probe" {
        install_panic_hook();
        install_crash_monitor();
        p_len::probe(&a.next().unwrap());
    }
    #[cfg(not(miri))]
    if cmd == "longest" {
        install_panic_hook();
        install_crash_monitor();
        let what = a.next().unwrap();
        p_long::child(&what, a.next().unwrap().parse().unwrap());
    }
    let mut prop = String::new();
    let (mut seed, mut tier, mut variant, mut scale) = (1u64, Tier::Quick, String::from("?"), 1.0f64);
    let mut only = None;
    let mut filter = None;
    let mut threads = 0;
    while let Some(x) = a.next() {
        let mut v = || a.next().expect("argument value");
        match x.as_str() {
            "--prop" => prop = v(),
            "--seed" => seed = v().parse().unwrap(),
            "--tier" => tier = if v() == "thorough" { Tier::Thorough } else { Tier::Quick },
            "--variant" => variant = v(),
            "--scale" => scale = v().parse().unwrap(),
            "--only" => {
                let s = v();
                let (l, i) = s.rsplit_once(':').unwrap();
                only = Some((l.to_string(), i.parse().unwrap()));
            }
            "--filter" => filter = Some(v()),
            "--threads" => threads = v().parse().unwrap(),
            _ => panic!("argument {x}"),
        }
    }
    let n = refmodel::kat::run();
    install_panic_hook();
    install_crash_monitor();
    let mut x = Ctx::new(&prop, seed, tier, &variant);
    x.scale = scale;
    x.only = only;
    x.filter = filter;
    x.panics_only = prop == "C15x";
    if threads > 0 {
        x.threads = threads;
    }
    x.count("model_self_test_vectors", n as u64);
    match cmd.as_str() {
        #[cfg(not(miri))]
        "run" => run(&x, &prop),
        _ => panic!("command {cmd}"),
    }
    print!("{}", x.json());
    std::process::exit(if x.has_violations() { 1 } else { 0 });
}
#[cfg(not(miri))]
fn run(x: &Ctx, prop: &str) {
    match prop {
        "C01" => p_mac::c01(x),
        "C02" => p_mac::c02(x),
        "C03" => p_mac::c03(x),
        "C04" => p_mac::c04(x),
        "C05" => p_aead::c05(x),
        "C06" => p_aead::c06(x),
        "C07" => p_aead::c07(x),
        "C08" => p_aead::c08(x),
        "C09" => p_aead::c09(x),
        "C10" => p_aead::c10(x),
        "C11" => p_curve::c11(x),
        "C12" => p_curve::c12(x),
        "C13" => p_curve::c13(x),
        "C14" => p_curve::c14(x),
        "C15" => p_mem::c15(x),
        "C15x" => p_mem::c15_others(x),
        "C15long" => p_long::c15long(x),
        "C16" => p_len::c16(x),
        "C19" => p_iso::c19(x),
        "C21" => p_res::c21(x),
        "C20" => p_mac::c20(x),
        _ => match prop.strip_suffix("huge") {
            Some(p) => p_huge::run(x, p),
            None => panic!("no workload for {prop}"),
        },
    }
}
