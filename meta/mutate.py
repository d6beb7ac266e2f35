#!/usr/bin/env python3
"""mutate.py: mutation testing of the checks (a development aid; no check uses it).

  mutate.py list FILE...            write /tmp/mut/list.json
  mutate.py workers N               start N workers, each in a user and mount namespace of its own in which
                                    /repo, /verif and /opt/vp are scratch copies under /tmp/mut/wK
  mutate.py report                  survivors that the existing tests do not kill either

A mutant is one changed line of non-test code. It is first run against the checks of its crate with few cases,
then with the quick tier; what no check kills is run against the stable tests."""
import fcntl, json, os, re, subprocess, sys, hashlib
M = "/tmp/mut"
CRATE = [("pallets/democracy/", "dem", [f"D{i:02}" for i in range(1, 15)]), ("pallets/elections-phragmen/", "ele", [f"E{i:02}" for i in range(1, 15)]),
         ("pallets/on-slash-vesting/", "slash", ["S01", "S02", "S03"]), ("macros/", "mac", ["M01"]),
         ("pallets/linear-release/", "lin", [f"L0{i}" for i in range(1, 6)]), ("pallets/proxy-bonding/", "pxy", [f"P0{i}" for i in range(1, 5)]),
         ("polimec-common/", "pxy", ["C01", "C02", "C03"]), ("pallets/dispenser/", "dsp", ["T01", "T02"]),
         ("pallets/funding/", "fnd", [f"F{i:02}" for i in range(1, 17)]), ("pallets/parachain-staking/", "stk", [f"K{i:02}" for i in range(1, 11)]),
         ("pallets/polimec-receiver/", "rec", ["R01"]), ("pallets/oracle-ocw/", "ocw", ["O01", "O02", "O03"]),
         ("runtimes/", "rtc", [f"X{i:02}" for i in range(1, 10)])]
FEW = {"fnd": "200", "stk": "300"}

def code_lines(path):
    """(index, line) of lines that are code: no comments, no test modules, no attributes"""
    src = open(path).read().split("\n")
    out, i = [], 0
    while i < len(src):
        l = src[i]
        if re.match(r"\s*#\[cfg\((any\()?(test|feature = \"(runtime-benchmarks|try-runtime))", l):
            # skip the item that follows
            j = i + 1; depth = 0; seen = False
            while j < len(src):
                depth += src[j].count("{") - src[j].count("}")
                if "{" in src[j]: seen = True
                if (seen and depth <= 0) or (not seen and src[j].rstrip().endswith((";", ","))): break
                j += 1
            i = j + 1; continue
        if re.match(r"\s*(//|#\[|use |pub use |\*|/\*)", l) or not l.strip():
            i += 1; continue
        out.append((i, l)); i += 1
    return src, out

REL = [(" <= ", " < "), (" < ", " <= "), (" >= ", " > "), (" > ", " >= "), (" == ", " != "), (" != ", " == ")]
def mutants(path):
    src, lines = code_lines(path)
    res = []
    def add(i, new, kind, end=None):
        res.append(dict(line=i + 1, end=(end if end is not None else i) + 1, new=new, kind=kind, old="\n".join(src[i:(end if end is not None else i) + 1])))
    for i, l in lines:
        code = l.split("//")[0]
        # events and weights are judged for democracy and elections only (D13, D14, E12, E13)
        if re.search(r"log::|debug_assert|defensive|#\[" + ("" if "democracy" in path or "elections" in path else "|deposit_event|weight|Weight") + r"|^\s*(pub )?(struct|enum|trait|type|fn|impl|const) ", code): continue
        for a, b in REL:
            for m in re.finditer(re.escape(a), code):
                if "->" in code[m.start()-1:m.end()] or "=>" in code[m.start()-1:m.end()+1]: continue
                add(i, code[:m.start()] + b + code[m.end():], f"{a.strip()}→{b.strip()}")
        for a, b in [(" && ", " || "), (" || ", " && "), ("saturating_add", "saturating_sub"), ("saturating_sub", "saturating_add"),
                     ("checked_add", "checked_sub"), ("checked_sub", "checked_add"), (".min(", ".max("), (".max(", ".min("), (" + ", " - "), (" - ", " + "),
                     (" * ", " / "), (" / ", " * "), ("saturating_mul", "saturating_div"), (" += ", " -= "), (" -= ", " += "), ("true", "false"), ("false", "true"),
                     ("is_some()", "is_none()"), ("is_none()", "is_some()"), ("is_ok()", "is_err()"), ("is_err()", "is_ok()"), (".all(", ".any("), (".any(", ".all("),
                     ("saturating_accrue", "saturating_reduce"), ("saturating_reduce", "saturating_accrue"), ("Preservation::Preserve", "Preservation::Expendable"), ("AllowDeath", "KeepAlive"), ("KeepAlive", "AllowDeath"),
                     ("Zero::zero()", "One::one()"), ("One::one()", "Zero::zero()"), (".rev()", "")]:
            for m in re.finditer(r"(?<![A-Za-z_])" + re.escape(a) + r"(?![A-Za-z_])" if a[0].isalpha() else re.escape(a), code):
                add(i, code[:m.start()] + b + code[m.end():], f"{a.strip()}→{b.strip()}")
        for m in re.finditer(r"(?<![\w.\"])(\d+)(?![\w.\"])", code):
            v = int(m.group(1)); add(i, code[:m.start()] + str(v + 1) + code[m.end():], "const+1")
        if re.search(r"\bif !", code): add(i, code.replace("if !", "if ", 1), "drop !")
        m = re.match(r"(\s*)(?:\}? ?else )?if (?!let)(.*) \{\s*$", code)
        if m: 
            add(i, code.replace("if " + m.group(2), "if true || (" + m.group(2) + ")", 1), "if true"); add(i, code.replace("if " + m.group(2), "if false && (" + m.group(2) + ")", 1), "if false")
        # statements
        s = code.strip()
        if re.match(r"ensure!\(", s) or re.match(r"(<?[A-Z][A-Za-z:<>, ]*::|[a-z_]+\.|Self::|T::|\*?[a-z_.]+ [-+]?= )", s) and not s.startswith("let"):
            j, depth = i, 0
            while j < len(src):
                t = src[j].split("//")[0]
                depth += t.count("(") + t.count("{") + t.count("[") - t.count(")") - t.count("}") - t.count("]")
                if depth <= 0 and t.rstrip().endswith(";"): break
                if depth < 0 or j > i + 14: j = None; break
                j += 1
            if j is not None and j < len(src): add(i, "", "drop statement", j)
    return res

def make_list(files):
    """FILE or FILE=N (a random N of its mutants); --append keeps the list and puts the new ones behind it"""
    out = []; old = []
    if files[0] == "--append": old = json.load(open(f"{M}/list.json")); files = files[1:]
    import random
    for f in files:
        f, _, n = f.partition("=")
        ms = mutants("/repo/" + f)
        if n: ms = random.Random(5).sample(ms, min(int(n), len(ms)))
        for m in ms:
            m["file"] = f; m["id"] = hashlib.sha1(f"{f}{m['line']}{m['kind']}{m['new']}".encode()).hexdigest()[:10]; out.append(m)
    uniq = {m["id"]: m for m in out}
    out = list(uniq.values())
    random.Random(7).shuffle(out)
    out = old + out
    os.makedirs(M, exist_ok=True); json.dump(out, open(f"{M}/list.json", "w"), indent=0); print(len(out))

def worker(k):
    ms = json.load(open(f"{M}/list.json"))
    base = set(); b = json.load(open("/opt/vp/BASELINE.json"))
    stable = b.get("stable") or b.get("passed") or b
    def take():
        with open(f"{M}/next", "a+") as f:
            fcntl.flock(f, fcntl.LOCK_EX); f.seek(0); n = int(f.read() or 0); f.truncate(0); f.write(str(n + 1)); return n
    def sh(c, t=900, **env):
        try: return subprocess.run(["bash", "-c", c], capture_output=True, text=True, timeout=t, env={**os.environ, **env})
        except subprocess.TimeoutExpired: return None
    while True:
        n = take()
        if n >= len(ms) or os.path.exists(f"{M}/stop"): return
        m = ms[n]; p = "/repo/" + m["file"]; orig = open(p).read(); src = orig.split("\n")
        if "subs" in m:
            # written by hand: pairs of texts
            t = orig
            for a, b in m["subs"]: t = t.replace(a, b, 1)
            open(p, "w").write(t)
        else:
            src[m["line"] - 1:m["end"]] = [m["new"]]
            open(p, "w").write("\n".join(src))
        _, h, ids = next(c for c in CRATE if m["file"].startswith(c[0]))
        res = dict(m)
        try:
            r = sh(f"cd /verif && bash h/build1.sh {h}")
            if r is None or r.returncode: res["r"] = "nocompile"; continue
            for cases in (FEW.get(h, "1600"), ""):
                for i in ids:
                    r = sh(f"cd /verif && . h/env.sh && $CARGO_TARGET_DIR/debug/{h} {i}", **({"VERIF_CASES": cases} if cases else {}))
                    if r is None: res["r"] = "timeout " + i; break
                    if r.returncode: res["r"] = ("killed " if r.returncode == 1 else f"rc{r.returncode} ") + i; break
                if "r" in res: break
            if "r" in res: continue
            if h not in ("dem", "ele", "slash", "mac"): res["r"] = "SURVIVED"; continue
            r = sh("bash /opt/vp/build.sh")
            if r is None or r.returncode: res["r"] = "nobuild"; continue
            sh("bash /opt/vp/test.sh /tmp/mutout.%s.json" % k)
            o = json.load(open("/tmp/mutout.%s.json" % k))
            bad = o.get("failed") or []
            res["r"] = "SURVIVED" if not bad else "tests kill"; res["failed"] = list(bad)[:3]
        except Exception as e:
            res["r"] = "error " + repr(e)[:200]
        finally:
            open(p, "w").write(orig)
            with open(f"{M}/out.jsonl", "a") as f:
                fcntl.flock(f, fcntl.LOCK_EX); f.write(json.dumps(res) + "\n")

def workers(n):
    open(f"{M}/next", "a").close()
    for k in range(n):
        d = f"{M}/w{k}"
        if not os.path.isdir(d):
            os.makedirs(d); subprocess.run(f"cp -a /repo {d}/repo && cp -a /verif {d}/verif && cp -a /opt/vp {d}/vp", shell=True, check=True)
        subprocess.Popen(["nice", "-n", "15", "unshare", "-Urm", "bash", "-c",
            f"mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && mount --bind {d}/vp /opt/vp && exec python3 /verif/meta/mutate.py worker {k}"],
            stdout=open(f"{d}/log", "w"), stderr=subprocess.STDOUT, start_new_session=True)

def report():
    from collections import Counter
    rs = [json.loads(l) for l in open(f"{M}/out.jsonl")]
    print(Counter(r["r"].split()[0] for r in rs), len(json.load(open(f"{M}/list.json"))))
    for r in rs:
        if r["r"].split()[0] in ("SURVIVED", "error") or r["r"].startswith("rc") or r["r"].startswith("timeout"):
            print(f"== {r['r']} {r['file']}:{r['line']} [{r['kind']}]\n   {r['old'].strip()[:300]}\n → {r['new'].strip()[:200]}")
c = sys.argv[1]
if c == "list": make_list(sys.argv[2:])
elif c == "workers": workers(int(sys.argv[2]))
elif c == "worker": worker(int(sys.argv[2]))
else: report()
