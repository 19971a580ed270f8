#!/usr/bin/env python3
"""Mechanical behaviour-preserving edits of whole files; every check must stay quiet.
  autorefactor.py TREE fields|locals|fns|ret|block [file-substring]"""
import os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BY = {  # the properties whose functions or types the file holds
 "src/message/message.rs": "C12 C13 C10", "src/message/attachment.rs": "C15 C12 C14", "src/message/from_prior/mod.rs": "C08 C14", "src/did/did_doc.rs": "C18", "src/secrets/mod.rs": "C18", "src/jwe/envelope.rs": "C01 C17 C22", "src/jws/envelope.rs": "C17 C23",
 "src/jwe/parse.rs": "C01 C02", "src/jwe/encrypt.rs": "C22 C06", "src/jwe/decrypt.rs": "C22", "src/jws/sign.rs": "C23", "src/jws/verify.rs": "C23", "src/jws/parse.rs": "C02 C23",
 "src/message/pack_encrypted/mod.rs": "C07 C24", "src/message/pack_encrypted/anoncrypt.rs": "C06", "src/message/pack_encrypted/authcrypt.rs": "C06", "src/message/pack_signed.rs": "C24", "src/message/pack_plaintext.rs": "C24",
 "src/message/unpack/mod.rs": "C05", "src/message/unpack/anoncrypt.rs": "C05", "src/message/unpack/authcrypt.rs": "C03", "src/message/unpack/sign.rs": "C04", "src/message/unpack/plaintext.rs": "C13 C05",
 "src/message/from_prior/pack.rs": "C08", "src/message/from_prior/unpack.rs": "C08", "src/protocols/routing/mod.rs": "C09 C10 C11", "src/protocols/routing/forward.rs": "C10", "src/utils/crypto.rs": "C16 C06", "src/utils/did.rs": "C16 C21", "src/utils/serde.rs": "C12", "src/error.rs": "C20",
 "src/did/resolvers/example.rs": "C19", "src/secrets/resolvers/example.rs": "C19", "src/jwk.rs": "C16",
}
def code(t):
    i = t.find("#[cfg(test)]"); return (t, "") if i < 0 else (t[:i], t[i:])
def close(t, i, o="{", c="}"):
    n = 0
    while i < len(t):
        if t[i] == '"':
            i += 1
            while t[i] != '"': i += 2 if t[i] == "\\" else 1
        elif t.startswith("//", i): i = t.index("\n", i)
        elif t[i] == o: n += 1
        elif t[i] == c:
            n -= 1
            if n == 0: return i
        i += 1
    raise ValueError
def bodies(t):
    """(start, end) of the body of every function"""
    for m in re.finditer(r"\bfn \w+", t):
        i = m.end(); d = 0
        while i < len(t) and not (d == 0 and t[i] in "{;"):
            if t[i] in "([": d += 1
            if t[i] in ")]": d -= 1
            i += 1
        if i < len(t) and t[i] == "{": yield i, close(t, i)
def fields(t):
    """the fields of every struct in the opposite order"""
    out = t
    for m in reversed(list(re.finditer(r"\bstruct \w+(<[^>]*>)? \{\n", t))):
        e = close(t, m.end() - 2); b = t[m.end():e]
        fs, cur = [], ""
        for l in b.splitlines(True):
            cur += l
            if re.match(r"    (pub(\(crate\))? )?(r#)?\w+: .*,\s*$", l): fs.append(cur.lstrip("\n")); cur = ""
        if cur.strip() or len(fs) < 2 or "<" in (m.group(1) or "") and False: continue
        out = out[:m.end()] + "\n".join(reversed(fs)) + out[e:]
    return out
def locals_(t):
    """every local that is bound by a plain let, renamed"""
    out = t
    for s, e in reversed(list(bodies(t))):
        b = t[s:e]
        for n in sorted(set(re.findall(r"\blet (?:mut )?([a-z]\w*)\b(?=\s*[=:;])", b))):
            # a field of the same name, written short
            if re.search(r"[{,]\s*%s\s*[,}]" % n, b) or re.search(r"\.%s\b|\b%s\s*!|\b%s::|\b%s:[^:]" % (n, n, n, n), re.sub(r"let (mut )?%s:" % n, "", b)): continue
            b = re.sub(r"(?<![\w\"#.])%s\b(?!\")" % n, n + "_it", b)
        out = out[:s] + b + out[e:]
    return out
def fns(t):
    """the functions of every impl in the opposite order"""
    out = t
    for m in reversed(list(re.finditer(r"\nimpl[^;{]*\{\n", t))):
        e = close(t, m.end() - 2); b = t[m.end():e]; parts = []; i = 0
        for f in re.finditer(r"^    (pub(\(crate\))? )?(async )?fn ", b, re.M):
            if f.start() < i: continue
            x = close(b, b.index("{", b.index("(", f.start()))) + 1
            parts.append(b[i:x].strip("\n") + "\n"); i = x
        if b[i:].strip() or len(parts) < 2: continue
        out = out[:m.end()] + "\n".join(reversed(parts)) + out[e:]
    return out
def ret(t):
    """`Err(..)?;` as a statement becomes `return Err(..);`"""
    out = t
    for m in reversed(list(re.finditer(r"Err\(err_msg\(", t))):
        e = close(t, m.start() + 3, "(", ")")
        if t[e + 1:e + 3] in ("?;", "?\n"): out = out[:m.start()] + "return " + out[m.start():e + 1] + ";" + out[e + 2 + (t[e + 2] == ";"):]
    return out
def block(t):
    """every function body inside a block of its own"""
    out = t
    for s, e in reversed(list(bodies(t))): out = out[:s + 1] + "{" + out[s + 1:e] + "}" + out[e:]
    return out
def main():
    tree, kind = sys.argv[1], sys.argv[2]; f = {"fields": fields, "locals": locals_, "fns": fns, "ret": ret, "block": block}[kind]
    for p, props in BY.items():
        if len(sys.argv) > 3 and sys.argv[3] not in p: continue
        q = os.path.join(tree, p)
        if not os.path.exists(q): print(p, "is not there"); continue
        old = open(q).read(); a, b = code(old); new = f(a) + b
        if new == old: continue
        open(q, "w").write(new)
        try:
            for c in props.split():
                x = subprocess.run(["python3", V + "/check.py", c], env={**os.environ, "VERIF_REPO": tree}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                l = [y for y in x.stdout.splitlines() if y.startswith(("VIOLATION", "UNDECIDED", "failed", "failing", c))]
                print("%s %-40s %s rc=%d | %s" % (kind, p, c, x.returncode, " | ".join(y[:230] for y in l))); sys.stdout.flush()
        finally: subprocess.run(["git", "-C", tree, "checkout", "-q", "--", "."])
if __name__ == "__main__": main()
