use super::base::*;
use crate::error::*;
use serde_json::json;

const KINDS: [ErrorKind; 9] = [ErrorKind::DIDNotResolved, ErrorKind::DIDUrlNotFound, ErrorKind::SecretNotFound, ErrorKind::Malformed, ErrorKind::IoError, ErrorKind::InvalidState, ErrorKind::NoCompatibleCrypto, ErrorKind::Unsupported, ErrorKind::IllegalArgument];

struct FailingReader(Vec<u8>, usize);
impl std::io::Read for FailingReader {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { if self.1 >= self.0.len() { return Err(std::io::Error::new(std::io::ErrorKind::Other, "broken pipe")) } b[0] = self.0[self.1]; self.1 += 1; Ok(1) }
}
pub fn c20(ctx: &mut Ctx) {
    ctx.rule = "every error kind through every chain of up to three wrapping operations, and JSON / base58 errors of every category; non-trivial: a chain of at least two operations, or a foreign error".into();
    ctx.bound = "chains of at most 3 operations (exhaustive for kinds x operations); foreign errors sampled".into();
    let io = || std::io::Error::new(std::io::ErrorKind::Other, "inner");
    for k in KINDS.iter() {
        for k2 in KINDS.iter() {
            for op in 0..8u8 {
                let (k, k2) = (*k, *k2);
                ctx.case("chain", json!({"first": format!("{:?}", k), "second": format!("{:?}", k2), "op": op}), op > 2, || {
                    let base: Result<u32> = Err(Error::msg(k, "first message"));
                    let r: Result<u32> = match op {
                        0 => base, 1 => Err(err_msg(k, "m")), 2 => Err(Error::new(k, io())),
                        3 => base.context("outer context"), 4 => base.context("c1").context("c2"),
                        5 => base.kind(k2, "re-kinded"), 6 => base.kind_no_context(k2, "x"),
                        _ => { let e: std::result::Result<u32, std::io::Error> = Err(io()); e.kind(k, "lib context").context("more") }
                    };
                    let want = if op == 5 || op == 6 { k2 } else { k };
                    let e = r.err().ok_or("an error became a success")?;
                    vcheck!(e.kind() == want, "kind {:?} instead of {:?}", e.kind(), want);
                    let t = format!("{}", e);
                    vcheck!(t.starts_with(&format!("{}: ", want)), "display does not start with the kind: {}", t);
                    let need: &[&str] = match op { 0 => &["first message"], 1 => &["m"], 2 => &["inner"], 3 => &["outer context", "first message"], 4 => &["c1", "c2", "first message"], 5 => &["re-kinded"], 6 => &["x"], _ => &["lib context", "inner", "more"] };
                    for n in need { vcheck!(t.contains(n), "display lost {:?}: {}", n, t) }
                    let okv: Result<u32> = Ok(7);
                    let o = match op { 3 | 4 => okv.context("c"), 5 => okv.kind(k2, "c"), 6 => okv.kind_no_context(k2, "c"), _ => okv };
                    vcheck!(o.map_err(|_| ()) == Ok(7), "a success was changed");
                    let z: std::result::Result<u32, ErrorKind> = Err::<u32, String>("s".into()).to_error_kind(k);
                    vcheck!(z == Err(k), "to_error_kind changed the kind");
                    vcheck!(Ok::<u32, String>(3).to_error_kind(k) == Ok(3), "to_error_kind changed a success");
                    Ok(())
                });
            }
        }
    }
    // whatever the texts are, and whatever error is inside
    let mut r = Rng::new(ctx.seed);
    for _ in 0..ctx.n(2000) {
        let (k, k2, k3) = (*r.pick(&KINDS), *r.pick(&KINDS), *r.pick(&KINDS)); let t: Vec<String> = (0..4).map(|_| match r.below(6) { 0 => String::new(), 1 => r.word(), 2 => format!("{:?}", r.pick(&KINDS)), 3 => format!("{}: {}", r.pick(&KINDS), r.text()), 4 => r.text().repeat(200), _ => r.text() }).collect();
        let start = r.below(7); let ops: Vec<usize> = (0..r.below(4)).map(|_| r.below(4)).collect();
        ctx.case("texts", json!({"kinds": [format!("{:?}", k), format!("{:?}", k2), format!("{:?}", k3)], "texts": t, "start": start, "ops": ops}), true, || {
            let inner = || Error::msg(k2, t[0].clone()); let mut want = k;
            let mut x: Result<u32> = match start { 0 => Err(Error::msg(k, t[0].clone())), 1 => Err(err_msg(k, t[0].clone())), 2 => Err(Error::new(k, inner())), 3 => Err::<u32, Error>(inner()).kind(k, t[1].clone()), 4 => Err::<u32, Error>(inner()).kind_no_context(k, t[1].clone()), 5 => Err(Error::new(k, k2)), _ => Err::<u32, ErrorKind>(k2).kind(k, t[1].clone()) };
            vcheck!(x.as_ref().err().map(|e| e.kind()) == Some(want), "starts as {:?}, not {:?}", x.as_ref().err().map(|e| e.kind()), want);
            for o in &ops { x = match o { 0 => x.context(t[2].clone()), 1 => { want = k3; x.kind(k3, t[3].clone()) } 2 => { want = k2; x.kind_no_context(k2, t[3].clone()) } _ => x.context(k3) };
                vcheck!(x.as_ref().err().map(|e| e.kind()) == Some(want), "{:?}, not {:?}, after step {}", x.as_ref().err().map(|e| e.kind()), want, o); }
            vcheck!(x.to_error_kind(k3) == Err(k3), "to_error_kind"); Ok(())
        });
    }
    let texts = ["{\"a\":", "[1,", "\"abc", "{", "", "tru", "{\"a\":1", "1 2", "{]", "nul!", "[1 2]", "\"\\x\"", "{\"a\" 1}", "01", "12", "\"s\"", "{\"k\":null}", "[[1]]", "\u{1}"];
    for t in texts.iter() {
        let eof = matches!(*t, "{\"a\":" | "[1," | "\"abc" | "{" | "" | "tru" | "{\"a\":1");
        let whole = serde_json::from_str::<serde_json::Value>(t).is_ok();
        ctx.case("json text", json!({"text": t}), true, || {
            let r: Result<serde_json::Value> = serde_json::from_str::<serde_json::Value>(t).to_didcomm("reading");
            match r {
                Ok(v) => { vcheck!(whole, "accepted"); vcheck!(v == serde_json::from_str::<serde_json::Value>(t).unwrap(), "value changed") }
                Err(e) => { let w = if eof { ErrorKind::InvalidState } else { ErrorKind::Malformed }; vcheck!(!whole && e.kind() == w, "kind {:?} instead of {:?}", e.kind(), w); vcheck!(format!("{}", e).contains("reading"), "context lost") }
            }
            let d: Result<u8> = serde_json::from_str::<u8>("\"not a number\"").to_didcomm("reading");
            vcheck!(d.err().map(|e| e.kind()) == Some(ErrorKind::Malformed), "data error must be Malformed");
            Ok(())
        });
    }
    ctx.case("json io", json!({"reader": "fails after 3 bytes"}), true, || {
        let r: Result<serde_json::Value> = serde_json::from_reader(FailingReader(b"[1,".to_vec(), 0)).to_didcomm("reading");
        vcheck!(r.err().map(|e| e.kind()) == Some(ErrorKind::InvalidState), "an I/O error while reading JSON must be InvalidState");
        Ok(())
    });
    for t in ["0", "O", "I", "l", "1l", "zz0", "é", "abc", "", "111"].iter() {
        ctx.case("base58 text", json!({"text": t}), true, || {
            let r = bs58::decode(t).into_vec();
            let bad = r.is_err();
            match r.to_didcomm("reading") { Ok(_) => vcheck!(!bad, "accepted"), Err(e) => vcheck!(bad && e.kind() == ErrorKind::Malformed, "kind {:?}", e.kind()) }
            let mut small = [0u8; 1];
            let r = bs58::decode("zzzzzzzz").into(&mut small[..]).to_didcomm("reading");
            vcheck!(r.err().map(|e| e.kind()) == Some(ErrorKind::InvalidState), "too small a buffer must be InvalidState");
            let r = bs58::encode([255u8; 8]).into(&mut small[..]).to_didcomm("writing");
            vcheck!(r.err().map(|e| e.kind()) == Some(ErrorKind::InvalidState), "an encoding error must be InvalidState");
            Ok(())
        });
    }
}
