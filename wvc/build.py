"""Compile /repo's current sources to LLVM IR in a scratch directory.

Nothing of the C code is edited: generated files (wdns.h, the *_to_str.c tables) are
produced by the repository's own generators from the repository's own inputs."""
import os, re, subprocess, sys, hashlib, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("WVC_REPO", "/repo")
CLANG = "clang"
OPTPASSES = "sroa,simplifycfg,instsimplify,loop-simplify"

CONFIG_H = "#define HAVE_ALLOCA_H 1\n#define HAVE_INTTYPES_H 1\n#define HAVE_STDINT_H 1\n#define PACKAGE \"wdns\"\n"

LIBMY = ["b32_decode", "b32_encode", "b64_decode", "b64_encode", "fast_inet_ntop", "my_format"]


def gen_sources(out):
    """Populate `out` with the generated headers/sources."""
    os.makedirs(out + "/wdns", exist_ok=True)
    ac = open(REPO + "/configure.ac").read()
    ver = {}
    for k, pat in (("MAJOR", r"wdns_major_version[\],\s\[]*(\d+)"), ("MINOR", r"wdns_minor_version[\],\s\[]*(\d+)"),
                   ("PATCH", r"wdns_patchlevel[\],\s\[]*(\d+)|wdns_patch_version[\],\s\[]*(\d+)")):
        m = re.search(pat, ac)
        ver[k] = next((g for g in m.groups() if g), "0") if m else "0"
    txt = open(REPO + "/wdns/wdns.h.in").read()

    def sub(m):
        n = m.group(1)
        for k in ("MAJOR", "MINOR", "PATCH"):
            if k in n:
                return ver[k]
        if n == "WDNS_VERSION":
            return "%s.%s.%s" % (ver["MAJOR"], ver["MINOR"], ver["PATCH"])
        return "0"
    txt = re.sub(r"@([A-Z_a-z]+)@", sub, txt)
    open(out + "/wdns/wdns.h", "w").write(txt)
    open(out + "/config.h", "w").write(CONFIG_H)
    for t in ("rcode", "rrclass", "rrtype"):
        r = subprocess.run([sys.executable, "%s/wdns/gen_%s_to_str" % (REPO, t), out + "/wdns/wdns.h",
                            "%s/wdns/%s_to_str.c" % (out, t)], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("generator for %s failed: %s" % (t, r.stderr))


def lib_sources(out):
    """(name, path) of every translation unit of libwdns, from Makefile.am."""
    am = open(REPO + "/Makefile.am").read().replace("\\\n", " ")
    m = re.search(r"wdns_libwdns_la_SOURCES\s*=\s*(.*)", am)
    files = [f for f in m.group(1).split() if f.endswith(".c")]
    for m in re.finditer(r"(?:nodist_)?wdns_libwdns_la_SOURCES\s*\+=\s*(.*)", am):
        files += [f for f in m.group(1).split() if f.endswith(".c")]
    for t in ("rcode", "rrclass", "rrtype"):
        f = "wdns/%s_to_str.c" % t
        if f not in files:
            files.append(f)
    res = []
    for f in dict.fromkeys(files):
        gen = os.path.basename(f) in ("rcode_to_str.c", "rrclass_to_str.c", "rrtype_to_str.c")
        res.append((os.path.basename(f)[:-2], (out if gen else REPO) + "/" + f))
    return res


def incflags(out):
    # the scratch directory comes first so that its generated headers win over stale ones in /repo
    return ["-I" + out, "-I" + out + "/wdns", "-I" + REPO, "-I" + REPO + "/wdns", "-include", "config.h",
            "-include", out + "/wdns/wdns.h", "-include", REPO + "/wdns/wdns-private.h"]


def compile_ll(out, name, path, extra=()):
    raw = "%s/%s.raw.ll" % (out, name)
    ll = "%s/%s.ll" % (out, name)
    src = open(path).read()
    flags = incflags(out)
    r = subprocess.run([CLANG, "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-g1",
                        "-w", "-D_GNU_SOURCE", "-U_FORTIFY_SOURCE"] + flags + list(extra) + ["-S", "-emit-llvm", path, "-o", raw],
                       capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("compiling %s: %s" % (path, r.stderr[:2000]))
    r = subprocess.run(["opt", "-passes=" + OPTPASSES, "-S", raw, "-o", ll], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("opt %s: %s" % (path, r.stderr[:2000]))
    os.unlink(raw)
    return ll


def build_all(out):
    gen_sources(out)
    srcs = lib_sources(out)
    with ThreadPoolExecutor(8) as ex:
        # the inline functions of the vector header, including those no source file uses
        open(out + "/zz_ubuf_all.c", "w").write('#include "libmy/ubuf.h"\n')
        x = ex.submit(compile_ll, out, "zz_ubuf_all", out + "/zz_ubuf_all.c", ["-femit-all-decls"])
        # the numbers of the field kinds of the layout table
        ks = "unknown bytes bytes_b64 bytes_str name uname int8 int16 int32 ipv4 ipv6 ipv6prefix eui48 eui64 string repstring rrtype type_bitmap salt hash svcparams edns_opt_rdata end"
        open(out + "/zz_rdf.c", "w").write('#include "wdns/record_descr.h"\n' + "".join("const int wvc_rdf_%s = rdf_%s;\n" % (k, k) for k in ks.split()))
        y = ex.submit(compile_ll, out, "zz_rdf", out + "/zz_rdf.c")
        lls = list(ex.map(lambda s: compile_ll(out, *s), srcs))
        x.result()
        try:
            y.result()
        except RuntimeError:
            pass
    return {s[0]: ll for s, ll in zip(srcs, lls)}


if __name__ == "__main__":
    d = sys.argv[1]
    os.makedirs(d, exist_ok=True)
    import time
    t = time.time()
    print(len(build_all(d)), time.time() - t)
