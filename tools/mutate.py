#!/usr/bin/env python3
"""mutate.py SECS FILE[:lo-hi] PROP[,PROP...] ...: development aid.  Makes small changes to one source file at a time (in scratch
copies, never in /repo) and reports those that the input search of the given properties does not notice."""
import sys, os, re, subprocess, shutil, random
from concurrent.futures import ThreadPoolExecutor
import threading, queue
sys.path.insert(0, "/verif/wvc")
import build
W = "/tmp/mut"
BASE = W + "/base"
INC = lambda R: ["-I" + BASE, "-I" + BASE + "/wdns", "-I" + R, "-I" + R + "/wdns", "-include", "config.h", "-include", BASE + "/wdns/wdns.h", "-include", R + "/wdns/wdns-private.h"]
CF = "-g1 -O1 -w -D_GNU_SOURCE -fsanitize=address -fno-omit-frame-pointer -fno-common".split()


def mutants(text):
    out, infn, depth, comment = [], False, 0, False
    for i, l in enumerate(text.split("\n")):
        s = l.strip()
        if comment or s.startswith("/*"):
            comment = "*/" not in s
            continue
        if s.startswith("//") or s.startswith("*") or s.startswith("#"):
            continue
        if depth == 0 and s == "{":
            infn = True
        d = l.count("{") - l.count("}")
        code = l
        if depth > 0 or "\\" == l.rstrip()[-1:]:
            masked = re.sub(r'"(\\.|[^"\\])*"', lambda m: "\x01" * len(m.group()), code)
            def rep(a, b, new):
                out.append((i, code[:a] + new + code[b:]))
            for m in re.finditer(r"<=|>=|==|!=|&&|\|\||(?<![<\-=>])[<>](?![<>=])|\+=|-=|(?<![+\-])[+\-](?![+\-=>])|<<|>>|\b0x[0-9a-fA-F]+\b|\b\d+\b", masked):
                t = m.group()
                alt = {"<=": ["<"], ">=": [">"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "<": ["<="], ">": [">="],
                       "+=": ["-="], "-=": ["+="], "+": ["-"], "-": ["+"], "<<": [">>"], ">>": ["<<"]}.get(t)
                if alt is None:
                    v = int(t, 0)
                    alt = [str(v + 1)] + ([str(v - 1)] if v > 0 else [])
                for x in alt:
                    rep(m.start(), m.end(), x)
            if re.match(r"^\s+[\w\->\.\[\]\*\(\)&]+(\s*[\+\-\|&]?=\s*[^=].*|\s*\(.*\)|\+\+|--);\s*(\\)?$", code) and not re.match(r"^\s+(const|size_t|uint\w+|int|char|wdns_\w+_t|bool|return|goto|unsigned|struct)\b", code):
                out.append((i, re.match(r"^\s*", code).group() + ";" + ("\\" if s.endswith("\\") else "")))
            if re.match(r"^\s+(break|continue|return .*|goto \w+);\s*$", code):
                out.append((i, re.match(r"^\s*", code).group() + ";"))
        depth += d
    return out


def main():
    secs = float(sys.argv[1])
    jobs = []
    for a, p in zip(sys.argv[2::2], sys.argv[3::2]):
        jobs.append((a, p.split(",")))
    random.seed(int(os.environ.get("SEED", "1")))
    limit = int(os.environ.get("LIMIT", "400"))
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(BASE)
    build.gen_sources(BASE)
    src = build.lib_sources(BASE)
    open(BASE + "/sources.txt", "w").write("".join("%s %s\n" % x for x in src))
    subprocess.run(["bash", "/verif/refute/build.sh", BASE], check=True, stdout=subprocess.DEVNULL)
    todo = []
    for a, props in jobs:
        f, _, rng = a.partition(":")
        text = open("/repo/" + f).read()
        ms = mutants(text)
        if rng:
            lo, hi = map(int, rng.split("-"))
            ms = [m for m in ms if lo <= m[0] + 1 <= hi]
        random.shuffle(ms)
        ms = ms[:limit]
        todo += [(f, text, m, props) for m in sorted(ms)]
    print("%d mutants" % len(todo), flush=True)
    slots = queue.Queue()
    for k in range(8):
        os.makedirs("%s/%d" % (W, k))
        subprocess.run("cd /repo && git archive HEAD | tar -x -C %s/%d" % (W, k), shell=True, check=True)
        slots.put(k)
    cnt = dict(killed=0, survived=0, nocompile=0)
    lock = threading.Lock()

    def run(t):
        f, text, (ln, new), props = t
        k = slots.get()
        R = "%s/%d" % (W, k)
        try:
            lines = text.split("\n")
            old = lines[ln]
            lines[ln] = new
            open(R + "/" + f, "w").write("\n".join(lines))
            objs = {o: BASE + "/ro/" + o for o in os.listdir(BASE + "/ro")}
            if f.endswith(".c"):
                comp = [("lib_" + os.path.basename(f)[:-2] + ".o", R + "/" + f)]
            else:
                comp = [("shim_libmy.o", "/verif/refute/shim_libmy.c")]
            st = None
            for o, path in comp:
                r = subprocess.run(["clang"] + CF + INC(R) + ["-c", path, "-o", R + "/" + o], capture_output=True)
                if r.returncode:
                    st = "nocompile"
                objs[o] = R + "/" + o
            if st is None:
                subprocess.run(["clang++", "-fsanitize=address"] + list(objs.values()) + ["-o", R + "/refuter"], check=True)
                st = "survived"
                for p in props:
                    os.makedirs(R + "/log", exist_ok=True)
                    r = subprocess.run([R + "/refuter", "run", p, "3", str(secs), "1", R + "/log"], capture_output=True, text=True)
                    if r.returncode == 1:
                        st = "killed"
                        break
            with lock:
                cnt[st] += 1
                if st == "survived":
                    print("SURVIVED %s:%d\n   - %s\n   + %s" % (f, ln + 1, old.strip(), new.strip()), flush=True)
        except Exception as e:
            print("ERR", f, ln + 1, e, flush=True)
        finally:
            open(R + "/" + f, "w").write(text)
            slots.put(k)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(run, todo))
    print(cnt)
    shutil.rmtree(W, ignore_errors=True)


main()
