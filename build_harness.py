#!/usr/bin/env python3
"""Generates a build.ninja for one check and builds it from /repo's working tree (out of tree).

usage: build_harness.py <ID> [flavour]   -> prints the path of the built program

Flavours: asan (default: ASAN + selected UBSAN checks), tsan, cov (asan + libFuzzer coverage).
Sources are discovered by globbing, the way the project's own CMake files do, so that new, moved or
removed source files need no change here.
"""
import glob, os, subprocess, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VRS_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

COMMON = ["-std=c++17", "-g1", "-DNDEBUG", "-DOSS_BUILD_MODE", "-DFMT_SHARED", "-DOPUS_IS_AVAILABLE",
          "-fno-omit-frame-pointer", "-fPIC", "-w"]
UBSAN = ("-fsanitize=bounds,shift,integer-divide-by-zero,null,return,vla-bound,bool,unreachable,"
         "signed-integer-overflow,float-cast-overflow,pointer-overflow")
FLAVOURS = {
    "asan": ["-O1", "-fsanitize=address"],
    "ubasan": ["-O1", "-fsanitize=address", UBSAN, "-fno-sanitize-recover=all"],
    "cov": ["-O1", "-fsanitize=address", "-fsanitize=fuzzer-no-link"],
    "tsan": ["-O1", "-fsanitize=thread"],
}
# which part of the code base each group of sources covers
GROUPS = {
    "core": ["vrs/*.cpp", "vrs/helpers/*.cpp", "vrs/os/*.cpp", "vrs/oss/logging/*.cpp",
             "vrs/utils/xxhash/*.cpp"],
    "utils": ["vrs/utils/*.cpp", "vrs/utils/converters/*.cpp"],
    "cli": ["vrs/utils/cli/*.cpp", "tools/vrs/*.cpp"],
}
LEFT_OUT = {"vrs/utils/PixelFrameOcean.cpp", "vrs/utils/PixelFrameOptions.cpp", "tools/vrs/vrs.cpp",
            "tools/vrs/VrsApp.cpp"}
SLOW = {"vrs/DataLayout.cpp"}
LIBS = ["-llz4", "-lzstd", "-lxxhash", "-lfmt", "-lrt", "-lpthread"]
ULIBS = ["-ljpeg", "-lpng", "-lz", "-lturbojpeg", "-lopus"]


def has_main(path):
    with open(path, errors="replace") as f:
        return "int main(" in f.read()


def sources(group):
    res = []
    for pat in GROUPS[group]:
        for p in sorted(glob.glob(os.path.join(REPO, pat))):
            rel = os.path.relpath(p, REPO)
            if rel in LEFT_OUT or rel.endswith("_fb.cpp"):
                continue
            if group == "cli" and rel.startswith("tools/") and has_main(p):
                continue
            res.append(rel)
    return res


def obj_name(rel):
    return rel.replace("/", "__") + ".o"


def generate(check, flavour, groups, harness, fuzzer=False, ldflags=()):
    d = os.path.join(OUT, flavour)
    os.makedirs(d, exist_ok=True)
    flags = COMMON + FLAVOURS[flavour]
    link = [f for f in FLAVOURS[flavour] if f.startswith("-fsanitize") and "fuzzer" not in f]
    if flavour == "cov":
        link = ["-fsanitize=fuzzer,address"] if fuzzer else ["-fsanitize=address", "-fsanitize=fuzzer-no-link"]
    inc = ["-I/usr/include/opus", "-I" + REPO, "-I" + os.path.join(REPO, "vrs/oss"), "-I" + REPO + "/tools", "-I" + os.path.join(VERIF, "src")]
    lines = ["ninja_required_version = 1.5",
             "rule cxx", "  command = clang++ $flags $inc -MMD -MF $out.d -c $in -o $out",
             "  depfile = $out.d", "  deps = gcc", "  description = CXX $in",
             "rule ar", "  command = rm -f $out && ar crs $out $in",
             "rule link", "  command = clang++ $lflags -o $out $in $libs", ""]
    lines += ["flags = " + " ".join(flags), "inc = " + " ".join(inc), ""]
    first = len(lines)
    archives = []
    for g in groups:
        objs = []
        for rel in sources(g):
            o = "obj/" + obj_name(rel)
            line = "build %s: cxx %s" % (o, os.path.join(REPO, rel))
            if rel in SLOW:  # huge template expansions: compile first, without optimizations
                lines.insert(first, line + "\n  flags = " + " ".join(flags + ["-O0"]))
            else:
                lines.append(line)
            objs.append(o)
        if g == "utils":
            lines.append("build obj/ocean_stub.o: cxx %s" % os.path.join(VERIF, "src/ocean_stub.cpp"))
            objs.append("obj/ocean_stub.o")
        a = "lib%s.a" % g
        lines.append("build %s: ar %s" % (a, " ".join(objs)))
        archives.append(a)
    hobjs = []
    for h in harness:
        rel = "src/" + h
        o = "hobj/%s.o" % h.replace("/", "__")
        line = "build %s: cxx %s" % (o, os.path.join(VERIF, rel))
        if h.startswith("layfields"):
            lines.insert(first, line + "\n  flags = " + " ".join(flags + ["-O0"]))
        else:
            lines.append(line)
        hobjs.append(o)
    exe = check
    libs = ["-Wl,--start-group"] + ["lib%s.a" % g for g in groups] + ["-Wl,--end-group"] + LIBS
    if "utils" in groups:
        libs += ULIBS
    lines.append("build %s: link %s | %s" % (exe, " ".join(hobjs), " ".join(archives)))
    lines.append("  libs = " + " ".join(libs))
    lines.append("  lflags = " + " ".join(link + list(ldflags)))
    lines.append("default " + exe)
    path = os.path.join(d, "build_%s.ninja" % check)
    text = "\n".join(lines) + "\n"
    old = None
    if os.path.exists(path):
        with open(path) as f:
            old = f.read()
    if old != text:
        with open(path, "w") as f:
            f.write(text)
    return d, path, exe


def build(check, flavour="asan", groups=("core",), harness=(), fuzzer=False, ldflags=()):
    d, path, exe = generate(check, flavour, groups, harness, fuzzer=fuzzer, ldflags=ldflags)
    r = subprocess.run(["ninja", "-C", d, "-f", os.path.basename(path), "-j", "8"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        return None
    return os.path.join(d, exe)
