//! usage: mc run <ID> <tier> [space case] | mc worker <ID> <tier> <threads> <progress|-> [space lo hi] | mc list
#![allow(dead_code)]
#[macro_use]
extern crate mccore;
#[cfg(feature = "alg")]
mod p_alg;
#[cfg(feature = "factor")]
mod p_factor;
#[cfg(feature = "hooks")]
mod p_ff;
#[cfg(feature = "hooks")]
mod p_hooks;
#[cfg(feature = "interval")]
mod p_interval;
#[cfg(feature = "modint")]
mod p_mod;
#[cfg(feature = "poly")]
mod p_poly;
#[cfg(feature = "traits")]
mod p_traits;

use mccore::engine::{self, Property, Tier};

fn property(id: &str, tier: Tier) -> Option<Property> {
    Some(match id {
        #[cfg(feature = "alg")]
        "C01" => p_alg::c01(tier),
        #[cfg(feature = "alg")]
        "C02" => p_alg::c02(tier),
        #[cfg(feature = "alg")]
        "C03" => p_alg::c03(tier),
        #[cfg(feature = "alg")]
        "C04" => p_alg::c04(tier),
        #[cfg(feature = "alg")]
        "C05" => p_alg::c05(tier),
        #[cfg(feature = "alg")]
        "C06" => p_alg::c06(tier),
        #[cfg(feature = "alg")]
        "C07" => p_alg::c07(tier),
        #[cfg(feature = "interval")]
        "C08" => p_interval::c08(tier),
        #[cfg(feature = "interval")]
        "C09" => p_interval::c09(tier),
        #[cfg(feature = "poly")]
        "C11" => p_poly::c11(tier),
        #[cfg(feature = "poly")]
        "C12" => p_poly::c12(tier),
        #[cfg(feature = "poly")]
        "C13" => p_poly::c13(tier),
        #[cfg(feature = "poly")]
        "C14" => p_poly::c14(tier),
        #[cfg(feature = "poly")]
        "C15" => p_poly::c15(tier),
        #[cfg(feature = "poly")]
        "C16" => p_poly::c16(tier),
        #[cfg(feature = "poly")]
        "C28" => p_poly::c28(tier),
        #[cfg(feature = "factor")]
        "C17" => p_factor::c17(tier),
        #[cfg(feature = "factor")]
        "C18" => p_factor::c18(tier),
        #[cfg(feature = "modint")]
        "C19" => p_mod::c19(tier),
        #[cfg(feature = "traits")]
        "C20" => p_traits::c20(tier),
        #[cfg(feature = "traits")]
        "C21" => p_traits::c21(tier),
        #[cfg(feature = "traits")]
        "C29" => p_traits::c29(tier),
        #[cfg(feature = "hooks")]
        "C22" => p_hooks::c22(tier),
        #[cfg(feature = "hooks")]
        "C23" => p_hooks::c23(tier),
        #[cfg(feature = "hooks")]
        "C24" => p_hooks::c24(tier),
        #[cfg(feature = "hooks")]
        "C26" => p_ff::c26(tier),
        #[cfg(feature = "hooks")]
        "C27" => p_ff::c27(tier),
        _ => return None,
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |id: &str, t: &str| {
        let tier = match t {
            "thorough" => Tier::Thorough,
            _ => Tier::Quick,
        };
        match property(id, tier) {
            Some(p) => (p, tier),
            None => {
                eprintln!("unknown property {}", id);
                std::process::exit(2)
            }
        }
    };
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let (p, tier) = get(&a[2], &a[3]);
            let only = a.get(4).map(|s| {
                let c: u64 = a[5].parse().unwrap();
                (s.clone(), c, c + 1)
            });
            let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
            std::process::exit(engine::supervise(p, tier, std::path::Path::new(&verif), only));
        }
        Some("worker") => {
            let (p, _) = get(&a[2], &a[3]);
            let threads: usize = a[4].parse().unwrap();
            let prog = if a[5] == "-" { None } else { Some(a[5].clone().into()) };
            let only = a.get(6).map(|s| (s.clone(), a[7].parse().unwrap(), a[8].parse().unwrap()));
            engine::worker(p, only, prog, threads);
        }
        #[cfg(feature = "hooks")]
        Some("silent") => p_hooks::silent_iteration(),
        _ => {
            eprintln!("usage: mc run <ID> <tier> [space case]");
            std::process::exit(2);
        }
    }
}
