#!/usr/bin/env python3
"""Development aid: small changes to the code under contract, one at a time, and which checks notice.
   mutate.py REPO_CLONE OUT.jsonl PART PARTS PER_FILE   (never run on /repo itself)"""
import json, os, random, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R, OUT, PART, PARTS, PER = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
assert R != "/repo"
MAP = {"src/jwe/parse.rs": ["C01", "C02", "C22"], "src/jwe/envelope.rs": ["C17", "C01", "C22"], "src/error.rs": ["C20", "C02"], "src/did/did_doc.rs": ["C18"], "src/did/resolvers/example.rs": ["C19"],
       "src/secrets/resolvers/example.rs": ["C19"], "src/secrets/mod.rs": ["C18", "C16"], "src/jwe/decrypt.rs": ["C22"], "src/jwe/encrypt.rs": ["C22"], "src/jws/envelope.rs": ["C17", "C23"], "src/jws/parse.rs": ["C23"], "src/jws/sign.rs": ["C23"], "src/jws/verify.rs": ["C23"],
       "src/message/message.rs": ["C12", "C13", "C14", "C15"], "src/message/attachment.rs": ["C14", "C15"], "src/message/from_prior/mod.rs": ["C14", "C08"], "src/message/from_prior/pack.rs": ["C08"], "src/message/from_prior/unpack.rs": ["C08"],
       "src/message/unpack/mod.rs": ["C05"], "src/message/unpack/sign.rs": ["C04"], "src/message/unpack/plaintext.rs": ["C05"], "src/message/unpack/anoncrypt.rs": ["C05"], "src/message/unpack/authcrypt.rs": ["C03"], "src/message/pack_encrypted/mod.rs": ["C07", "C24"],
       "src/message/pack_encrypted/anoncrypt.rs": ["C06"], "src/message/pack_encrypted/authcrypt.rs": ["C06"], "src/protocols/routing/mod.rs": ["C09", "C10", "C11"], "src/utils/did.rs": ["C16", "C21"], "src/utils/crypto.rs": ["C16", "C22"], "src/jwk.rs": ["C16", "C22"],
       "src/message/pack_plaintext.rs": ["C24"], "src/message/pack_signed.rs": ["C24"], "src/utils/serde.rs": ["C15"], "src/algorithms.rs": ["C05"]}
KINDS = ["Malformed", "InvalidState", "Unsupported", "DIDNotResolved", "DIDUrlNotFound", "SecretNotFound", "IllegalArgument", "NoCompatibleCrypto"]
def mutants(path, text):
    lines = text.split("\n"); end = next((i for i, l in enumerate(lines) if "cfg(test)" in l and "mod" in lines[i + 1]), len(lines)); out = []
    depth = None
    for i in range(end):
        l = lines[i]; s = l.strip()
        if s.startswith("//") or s.startswith("use ") or s.startswith("#!") : continue
        def add(what, new):
            if new != l: out.append((i, what, new))
        for a, b in [("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), (" < ", " <= "), (" > ", " >= "), ("true", "false"), ("false", "true"), (".is_none()", ".is_some()"), (".is_some()", ".is_none()"), (".rev()", ""), (".first()", ".last()"), ("starts_with", "ends_with"), ("find(", "rfind("),
                     ("split_once", "rsplit_once"), (".contains(", ".ends_with("), ("sort()", "reverse()"), (".iter()", ".iter().rev()"), (".iter()", ".iter().skip(1)"), (".iter()", ".iter().take(1)"), ("is_empty()", "len() == 1"), ("push(", "insert(0, "), (".any(", ".all("), (".all(", ".any("), ("Ok(None)", "Ok(Some(Default::default()))"),
                     ("if !", "if "), ("if let Some(ref ", "if let (Some(ref "), ("skip_serializing_if", "skip_deserializing_if"), ("flatten", "skip"), ("default", "skip"), ("camelCase", "snake_case"), ("X25519", "Ed25519"), ("P256", "K256"), ("Ed25519", "X25519"), ("A256cbcHs512", "Xc20P"), ("apu", "apv"), ("apv", "apu"), ("authentication", "key_agreement"), ("key_agreement", "authentication"), ("iss", "sub"), ("sub", "iss"), ("from_kid", "to_kid"), ("did_doc", "did")]:
            if a in l and not (a == "||" and "|| " in l and "ok_or_else(||" in l):
                for m in list(re.finditer(re.escape(a), l))[:2]: add("%s -> %s" % (a, b), l[:m.start()] + b + l[m.end():])
        for m in re.finditer(r"ErrorKind::(\w+)", l):
            for k in ("Malformed", "IoError"):
                if k != m.group(1): add("kind %s -> %s" % (m.group(1), k), l[:m.start(1)] + k + l[m.end(1):])
        for m in re.finditer(r'"([^"\\]{2,})"', l):
            if not re.search(r"err_msg|context|kind\(|rename|expect|format", l + (lines[i - 1] if i else "")): add("text changed", l[:m.end() - 1] + "x" + l[m.end() - 1:])
            if "rename" in l: add("name changed", l[:m.end() - 1] + "x" + l[m.end() - 1:])
        for m in re.finditer(r"\b(\d+)\b", l):
            if not s.startswith("#"): add("number +1", l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():])
        if re.match(r"^[\w.]+(\.\w+)* = .*;$", s) and not s.startswith("let"): add("assignment dropped", re.sub(r"\S.*", "", l))
        if re.match(r"^\w+(: .+)?,$", s) and "fn " not in l: add("field dropped?", re.sub(r"\S.*", "", l))
        if s.endswith(")?;") and not s.startswith("let") and not s.startswith(".") and not s.startswith("}") and s.count("(") == s.count(")"): add("check dropped", re.sub(r"\S.*", "", l))
        m = re.match(r"^(\s*)if (.*) \{$", l)
        if m and "let " not in l: add("if true", "%sif true {" % m.group(1)); add("if false", "%sif false {" % m.group(1))
        m = re.search(r"Some\((\w+)\)(,|;)$", s)
        if m and "=>" not in s: add("Some dropped", l.replace("Some(%s)" % m.group(1), "None"))
        if re.match(r"^(skip_serializing_if.*|#\[serde\(default.*)", s): add("attribute dropped", "")
    return out
todo = []
for f in sorted(MAP):
    t = open(R + "/" + f).read(); ms = mutants(f, t); rnd = random.Random(f); rnd.shuffle(ms)
    todo += [(f, m) for m in ms[:PER]]
done = set()
if os.path.exists(OUT):
    for l in open(OUT): x = json.loads(l); done.add((x["file"], x["line"], x["what"], x["new"]))
for n, (f, (i, what, new)) in enumerate(todo):
    if n % PARTS != PART or (f, i + 1, what, new.strip()) in done: continue
    p = R + "/" + f; orig = open(p).read(); L = orig.split("\n"); old = L[i]; L[i] = new; open(p, "w").write("\n".join(L))
    rec = {"file": f, "line": i + 1, "what": what, "old": old.strip(), "new": new.strip(), "results": {}}
    try:
        for c in MAP[f]:
            q = subprocess.run([sys.executable, V + "/check.py", c], env={**os.environ, "VERIF_REPO": R}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1500)
            o = q.stdout
            r = "input" if "-input.json" in o and q.returncode == 1 else "proof" if q.returncode == 1 else "nocompile" if "did not run" in o else "missed" if q.returncode == 0 else "noanswer"
            if r == "missed" and "UNDECIDED" in o: r = "missed-undecided"
            rec["results"][c] = r
            if r in ("input", "proof", "nocompile"): break
    except subprocess.TimeoutExpired: rec["results"]["?"] = "timeout"
    finally: open(p, "w").write(orig)
    open(OUT, "a").write(json.dumps(rec) + "\n")
