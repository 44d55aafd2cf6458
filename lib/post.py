"""Brings the driver's event log to the form SlipTrace.tla reads: canonical decimal numbers, content
digests, parsed printed matrices, scenario groups.  Pure reformatting: no judgement is made here."""
import json, re, hashlib, sys
from math import gcd
if hasattr(sys, "set_int_max_str_digits"): sys.set_int_max_str_digits(0)
MAXI = 2147483647

def canon(n, d):
    if d < 0: n, d = -n, -d
    g = gcd(n, d)
    n //= g; d //= g
    return str(n) if d == 1 else "%d/%d" % (n, d)

def num(s):
    s = s[1:]
    if "/" in s:
        a, b = s.split("/")
        n, d = int(a, 16), int(b, 16)
        if d == 1: return str(n)
        if d > 0 and gcd(n, d) == 1: return "%d/%d" % (n, d)
        return "%d/%d" % (n, d)          # left as it is: not canonical
    if "p" in s:
        a, e = s.split("p")
        n, e = int(a, 16), int(e)
        if n == 0: return "0"
        if abs(e) > 200000: return "huge"
        return str(n << e) if e >= 0 else canon(n, 1 << -e)
    return str(int(s, 16))

# dimensions and indices of triplet matrices beyond the 32-bit integers of TLC: these values, and only
# these, are mapped in order to distinct large ones (validity only compares them)
BIG = sorted([2 ** k + d for k in (31, 32, 33, 34, 40, 52, 62) for d in (0, 1, 2)] + [2 ** 63 - 1])
def dims(m):
    if isinstance(m, dict) and m.get("kind") == 1 and isinstance(m.get("m"), int):
        f = lambda v: 2 ** 30 + BIG.index(v) if v in BIG else v
        m["m"], m["n"] = f(m["m"]), f(m["n"])
        for k in "ij": m[k] = [f(v) for v in m[k]]

def walk(v):
    if isinstance(v, str):
        return num(v) if v.startswith("#") else v
    if isinstance(v, bool): return v
    if isinstance(v, int):
        return MAXI if v > MAXI else -MAXI if v < -MAXI else v
    if isinstance(v, list): return [walk(x) for x in v]
    if isinstance(v, dict): return {k: walk(x) for k, x in v.items()}
    return v

def dig(*a):
    return hashlib.sha1(json.dumps(a, sort_keys=True).encode()).hexdigest()[:16]

def mdig(m):
    nz = m["nz"] if m["kind"] == 1 else 0
    return dig(m["kind"], m["type"], m["m"], m["n"], nz, m["p"], m["i"], m["j"], m["x"], m["scale"], m.get("xp", 0))

CAPTION = re.compile(r"^\s*column\s+(-?\d+)\s*:")
ROWVAL = re.compile(r"^\s*row\s+(-?\d+)\s*:\s*(\S+)\s*$")
TRIP = re.compile(r"^\s*(-?\d+)\s+(-?\d+)\s*:\s*(\S+)\s*$")
def dec(s):
    t = s.lower().strip("@")
    if t in ("nan", "-nan"): return "nan"
    if t in ("inf", "-inf"): return t
    if re.fullmatch(r"-?\d+", s): return str(int(s))
    if re.fullmatch(r"-?\d+/\d+", s):
        a, b = s.split("/")
        return canon(int(a), int(b)) if int(b) else "bad"
    m = re.fullmatch(r"(-?)(\d*)\.(\d*)(?:e([-+]?\d+))?", t)
    if m:
        n = int((m.group(2) + m.group(3)) or "0"); e = int(m.group(4) or 0) - len(m.group(3))
        if m.group(1): n = -n
        return str(n * 10 ** e) if e >= 0 else canon(n, 10 ** -e)
    return "bad"

def entries(txt):
    col, out = None, []
    for ln in txt.split("\n"):
        m = CAPTION.match(ln)
        if m: col = int(m.group(1)); continue
        m = ROWVAL.match(ln)
        if m and col is not None: out.append([int(m.group(1)), col, dec(m.group(2))]); continue
        m = TRIP.match(ln)
        if m: out.append([int(m.group(1)), int(m.group(2)), dec(m.group(3))])
    return out

def convert(lines, out):
    """lines: raw events; out: file.  Returns the number of events written and of scenarios."""
    grp, n, ns = None, 0, 0
    for raw in lines:
        raw = raw.strip()
        if not raw: continue
        e = json.loads(raw)
        if e["ev"] == "Mat": dims(e.get("out"))
        e = walk(e)
        ev = e["ev"]
        if ev == "Reset":
            g = e["sc"].split("~")[0]
            e["newgrp"] = 0 if g == grp else 1
            grp = g; ns += 1
        if ev == "Crash":
            e.setdefault("ln", 0); e.setdefault("live", 0); e["msg"] = e.get("msg", "")[:300]
        txt = e.pop("txt", "")
        e["cd"] = ""
        if ev in ("Mat", "Alloc", "Copy", "Solve", "Backslash") and "out" in e and "kind" in e["out"]:
            e["cd"] = mdig(e["out"])
        if ev == "Alloc":
            e["out_share"] = e.get("share", 0)
            e["huge"] = 1 if e["shal"] == 0 and max(e["m"], e["n"], e["nzmax"], (e["m"] * e["n"] if e["kind"] == 2 else 0)) > 2 ** 27 and e["m"] >= 0 and e["n"] >= 0 else 0
        if ev in ("Analyze", "SSet") and "out" in e:
            e["cd"] = dig(e["out"]["q"], e["out"]["lnz"], e["out"]["unz"])
        if ev == "PSet": e["cd"] = dig(e["v"])
        if ev == "Factor":
            for k in "LUR": e["cd" + k] = mdig(e[k]) if k in e else ""
            e["cdP"] = dig(e["pinv"]) if "pinv" in e else ""
        if ev == "Report": e["nums"] = [dec(x) for x in re.findall(r"-?\d+(?:\.\d*)?(?:e[-+]?\d+)?", txt)]
        if ev == "Check":
            e["ents"] = entries(txt)
            e["nlines"] = txt.count("\n")
            top = re.split(r"\n\s*(?:column|-?\d)", txt.lower())[0]      # what precedes the entries
            e["tok"] = sorted({dec(x) for x in re.findall(r"(?<![\w.])-?\d+(?:/\d+)?(?![\w.])", top)})
            e["words"] = sorted(set(re.findall(r"[a-z]+\d*", top)) & {"csc", "triplet", "dense", "mpz", "mpq", "mpfr", "int64", "double", "fp64"})
        if ev in ("Solve", "Backslash"):
            t = txt.lower()
            e["verified"] = 1 if "verified" in t else 0
            e["wrong"] = 1 if "wrong" in t or "error" in t else 0
        if ev == "Amd":
            e["icd"] = dig(e["what"], e["n"], e["nm"], e["ctl"], e["dense"], e["Ap"], e["Ai"])
            # the memory estimate depends on the integer size only
            e["ocd"] = dig(e["st"], e["P"], e["info"][1:7] + e["info"][8:], e["symf"])
            e["info"] = [x if isinstance(x, int) else -99 for x in e["info"]]
        if ev == "Amd2":
            e["icd"] = dig(e["rows"], e["dense"], e["aggr"]); e["ocd"] = dig(e["Pe"], e["Nv"], e["Elen"], e["Last"], e["Next"])
        if ev == "AmdF": e["icd"] = dig(e["which"], e["rows"]); e["ocd"] = dig(e["Pe"], e["Nv"], e["Elen"], e["Last"])
        if ev == "Amd2": e["info"] = [x if isinstance(x, int) else -99 for x in e["info"]]
        if ev == "Colamd":
            e["icd"] = dig(e["nr"], e["nc"], e["kn"], e["k0"], e["k1"], e["k2"], e["p"], e["A"])
            e["ocd"] = dig(e["st"], e["perm"], e["stats"]); e["opd"] = dig(e["st"], e["perm"], e["stats"][:2])
        if ev == "Symamd":
            e["icd"] = dig(e["n"], e["nm"], e["kn"], e["k0"], e["k2"], e["p"], e["A"])
            e["ocd"] = dig(e["st"], e["perm"][:max(e["n"], 0)])
            # digest of the strictly lower triangle (what SYMAMD may look at)
            low = []
            try:
                for j in range(e["n"]):
                    low.append(list(dict.fromkeys(r for r in e["A"][e["p"][j]:e["p"][j + 1]] if r > j)))
            except Exception: pass
            e["lcd"] = "low" + dig(e["n"], e["kn"], e["k0"], e["k2"], low)
        out.write(json.dumps(e, separators=(",", ":")) + "\n")
        n += 1
    return n, ns

if __name__ == "__main__":
    with open(sys.argv[1], errors="replace") as f, open(sys.argv[2], "w") as g: print(convert(f, g))
