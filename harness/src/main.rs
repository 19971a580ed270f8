fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let seed = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let only = get("--case").and_then(|s| s.parse().ok());
    let code = didcomm::didcomm_verif::run(&get("--prop").unwrap(), seed, a.iter().any(|x| x == "--thorough"), &get("--out").unwrap(), only);
    std::process::exit(code)
}
