// Compiled inside the didcomm crate (cfg didcomm_verif), so that crate-private functions are
// called directly. Bounded stand-in and counterexample search: never counted as proved.
#[allow(dead_code, unused_imports, unused_variables, unused_mut, clippy::all)]
pub mod didcomm_verif {
    macro_rules! vcheck { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)) } } }
    pub mod base { include!(concat!(env!("DIDCOMM_VERIF_DIR"), "/base.rs")); }
    use base::*;
/*MODS*/
    pub fn run(prop: &str, seed: u64, thorough: bool, out: &str, only: Option<u64>) -> i32 {
        let mut ctx = Ctx::new(prop, seed, thorough, only);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { match prop {
            /*ENTRY*/
            _ => { eprintln!("no bounded part for {}", prop); return false }
        } true }));
        match r { Ok(true) => {} Ok(false) => return 3, Err(_) => { eprintln!("the generator itself panicked: {}", last()); return 3 } }
        ctx.write(out);
        if ctx.failures.is_empty() { 0 } else { 1 }
    }
}
