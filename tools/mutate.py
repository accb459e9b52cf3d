#!/usr/bin/env python3
"""Mechanical mutants of the program's sources, and which checks notice them.

usage: mutate.py list REPO            print the mutants
       mutate.py run WORK OUT.jsonl [i/n]  run all checks against every i-th of n mutants in a copy

WORK is a scratch directory holding `repo` (a copy of /repo) and `harness` (a copy of /verif/harness whose
dependency points at it).  A development tool: no registered check uses it."""
import json, os, re, subprocess, sys, time

def files(repo):
    for d, _, fs in os.walk(repo + "/src"):
        for f in sorted(fs):
            if f.endswith(".rs"):
                yield os.path.relpath(os.path.join(d, f), repo)

def stmts(lines):
    """(start, end) of calls ending in `)?;` that are statements of their own."""
    i = 0
    while i < len(lines):
        m = re.match(r"^(\s+)([a-z_:]+)\($|^(\s+)([a-z_:]+)\(.*\)\?;$", lines[i])
        if m and "=" not in lines[i].split("(")[0]:
            if lines[i].rstrip().endswith(")?;"):
                yield i, i
            else:
                ind = re.match(r"\s*", lines[i]).group(0)
                for j in range(i + 1, min(i + 40, len(lines))):
                    if lines[j].startswith(ind + ")?;"):
                        yield i, j
                        break
                    if lines[j].startswith(ind + ")"):
                        break
        i += 1

def guards(lines):
    i = 0
    while i < len(lines):
        if re.match(r"^\s+if .*\{$", lines[i]) or re.match(r"^\s+if [^{]*$", lines[i]):
            ind = re.match(r"\s*", lines[i]).group(0)
            for j in range(i + 1, min(i + 25, len(lines))):
                if lines[j] == ind + "}":
                    if any("return Err" in l for l in lines[i:j]):
                        yield i, j
                    break
        i += 1

SWAPS = [
    (r"\.ne\(", ".eq("), (r"\.eq\(", ".ne("), (r"\.lt\(", ".le("), (r"\.gt\(", ".ge("), (r" < ", " <= "), (r" > ", " >= "),
    (r" <= ", " < "), (r" >= ", " > "), (r" != ", " == "), (r" == ", " != "), (r" && ", " || "), (r" \|\| ", " && "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"checked_sub", "saturating_sub"), (r"saturating_sub", "wrapping_sub"),
    (r"checked_add", "wrapping_add"), (r"Greater =>", "Less_ =>"), (r"if !", "if "), (r"\bif is_", "if !is_"),
    (r"\.insert\(", ".remove(&"), (r"new_readonly\(", "new("), (r"::new\(([a-z_]+), false\)", r"::new_readonly(\1, false)"),
    (r"\b10\b", "11"), (r"\b100\b", "99"), (r"\b8\b", "9"), (r"= 0,", "= 1,"), (r"%", "*"),
    (r"delegation_record_seeds", "delegation_metadata_seeds"), (r"commit_state_seeds_from", "commit_record_seeds_from"),
    (r"validator\.key", "delegated_account.key"), (r"payer\.key", "delegated_account.key"), (r"admin\.key", "payer.key"),
    (r"_before_cpi", "_after_cpi"), (r"unwrap_or\(Pubkey::default\(\)\)", "unwrap_or(crate::id())"),
    (r", validator\)\?", ", system_program)?"), (r"lamports: delegated_account.lamports\(\)", "lamports: 0"),
    (r"last_update_external_slot: 0", "last_update_external_slot: 1"), (r"args\.index", "0"), (r"b\"([a-z-]+)\"", r'b"\1x"'),
    (r"lamports\.eq\(&0\)", "lamports.eq(&1)"), (r"\.rev\(\)", ""), (r"\bmin\(", "max("), (r"\bSome\(", "None::<u64>.or(Some("),
]

def mutants(repo):
    out = []
    for f in files(repo):
        src = open(os.path.join(repo, f)).read()
        cut = src.find("#[cfg(test)]")
        lines = src.split("\n")
        limit = src[:cut].count("\n") if cut >= 0 else len(lines)
        def add(kind, i, j, new):
            if i < limit:
                out.append({"file": f, "line": i + 1, "end": j + 1, "kind": kind, "new": new, "old": "\n".join(lines[i:j + 1])})
        body = lines[:limit]
        for i, j in stmts(body):
            add("drop call", i, j, "")
        for i, j in guards(body):
            add("drop guard", i, j, "")
        for i, l in enumerate(body):
            t = l.strip()
            if t.startswith("//") or t.startswith("msg!") or t.startswith("use ") or t.startswith("#") or "macro_rules" in t or "declare_id" in t:
                continue
            if f.endswith("error.rs"):
                continue
            for a, b in SWAPS:
                for m in re.finditer(a, l):
                    n = l[:m.start()] + m.expand(b) + l[m.end():]
                    if n != l:
                        add(f"{a} -> {b}", i, i, n)
            if re.match(r"^\s+\*?\*?[a-z_\.\(\)\[\]&]+ (=|\+=|-=) .*;$", l) and "let " not in l:
                add("drop assignment", i, i, "")
            if re.match(r"^\s+[a-z_\.]+(\.insert|\.remove|\.assign|\.realloc|\.copy_from_slice)\(.*\)\??;$", l):
                add("drop statement", i, i, "")
    return out

C = lambda s: ["C" + x for x in s.split()]
FIRST = [
    ("commit_state", C("03 04 05 06 08 21 22 23 24 25 28")),
    ("finalize", C("05 07 08 21 22 23 24 28")),
    ("undelegate", C("06 09 10 11 12 21 22 23 24 28")),
    ("processor/delegate.rs", C("01 02 21 22 23 24 25 28")),
    ("delegate_ephemeral", C("01 02 18 19 20 21 22 23 24 25")),
    ("ephemeral_balance", C("18 19 20 21 22 23 25 28")),
    ("claim", C("13 14 21 22 23 25 28")),
    ("fees_vault", C("13 14 15 21 22 23 25 28")),
    ("whitelist", C("03 16 17 21 22 23 25 28")),
]


def main():
    if sys.argv[1] == "list":
        ms = mutants(sys.argv[2])
        for k, m in enumerate(ms):
            print(k, m["file"], m["line"], m["kind"], "|", m["old"].strip()[:70], "=>", m["new"].strip()[:70])
        return
    work, out = sys.argv[2], sys.argv[3]
    i, n = (int(x) for x in (sys.argv[4] if len(sys.argv) > 4 else "0/1").split("/"))
    repo = work + "/repo"
    env = dict(os.environ, MC_ROOT=work, MC_NOCONF="1", CARGO_TARGET_DIR=work + "/target")
    ids = [f"C{k:02}" for k in range(1, 29)]
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["k"] for l in open(out)}
    ms = mutants(repo)
    only = os.environ.get("ONLY", "src")
    for k, m in enumerate(ms):
        if k % n != i or k in done or not m["file"].startswith(only):
            continue
        p = os.path.join(repo, m["file"])
        src = open(p).read()
        ls = src.split("\n")
        ls[m["line"] - 1:m["end"]] = [m["new"]]
        t0 = time.time()
        m["k"] = k
        try:
            open(p, "w").write("\n".join(ls))
            b = subprocess.run(["cargo", "build", "--offline"], cwd=work + "/harness", env=env, capture_output=True, text=True)
            if b.returncode != 0:
                m["res"] = "does not build"
            else:
                m["flag"], m["other"] = [], {}
                first = next((v for a, v in FIRST if a in m["file"]), ids)
                rest = [c for c in ids if c not in first]
                for c in first + [None] + rest:
                    if c is None:
                        if m["flag"]:
                            break
                        continue
                    exe = "api" if c in ("C26", "C27") else "mc"
                    try:
                        r = subprocess.run([work + "/target/debug/" + exe, "check", c, "quick"], env=env, capture_output=True, text=True, timeout=300)
                        if r.returncode == 1 and "VIOLATION property=" + c in r.stdout:
                            m["flag"].append(c)
                        elif r.returncode != 0:
                            m["other"][c] = (r.returncode, (r.stdout + r.stderr)[-300:])
                    except subprocess.TimeoutExpired:
                        m["other"][c] = "timeout"
                m["res"] = "flagged" if m["flag"] else "SURVIVES"
        finally:
            open(p, "w").write(src)
        m["secs"] = round(time.time() - t0, 1)
        with open(out, "a") as o:
            o.write(json.dumps(m) + "\n")
        print(k, m["res"], m["file"], m["line"], m["kind"], ",".join(m.get("flag", [])), list(m.get("other", {})), flush=True)

main()
