#!/usr/bin/env python3
"""Builds /verif/_build/jass_sim from /repo's current working tree and /verif/sim.

The code under test is compiled with gcc's thread instrumentation and linked against the simulator instead of
libtsan.  Everything is rebuilt by ninja when its inputs change; nothing is written to /repo.
"""
import glob, hashlib, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("JASS_REPO", "/repo")
OUT = os.environ.get("JASS_SIM_BUILD", os.path.join(HERE, "_build"))
SIM = os.path.join(HERE, "sim")

ARCH = "-march=native -mbmi -mavx2"
COMMON = "-std=gnu++17 -DNDEBUG -D_GLIBCXX_USE_CXX11_ABI=1 -w -U_FORTIFY_SOURCE -fno-pie -pthread " + ARCH
NOBUILTIN = "-fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memset -fno-builtin-memcmp -fno-builtin-strlen"
INSTR = "-O1 -g1 -fsanitize=thread --param=tsan-instrument-func-entry-exit=0 -fno-omit-frame-pointer " + NOBUILTIN
PLAIN = "-O1"
# pure functions over integers: no threads, no I/O; instrumenting them only costs time
UNINSTRUMENTED = ("compress_integer_qmx", "compress_integer_elias", "compress_integer_stream_vbyte", "compress_integer_lyck", "compress_integer_bitpack",
                  "compress_integer_simple", "compress_integer_carry", "compress_integer_relative", "compress_integer_nybble", "evaluate", "stem_", "hash_pearson", "unicode", "ascii")
SLOW_FIRST = ("compress_integer_qmx_jass_v1", "unicode", "compress_integer_qmx_improved", "compress_integer_qmx_original", "JASS_anytime_api", "scn_")
TOOLS = {"anytime/JASS_anytime.cpp": "jass_anytime_main", "tools/JASS_index.cpp": "jass_index_main", "tools/ciff_to_JASS.cpp": "ciff_to_jass_main", "tools/JASSv1_to_human.cpp": "jass_dump_main", "tools/JASS_eval.cpp": "jass_eval_main", "tools/trec_to_query.cpp": "topics_main", "tools/bin_to_human.cpp": "integers_main"}
REDEF = ["memcpy", "memmove", "memset", "memcmp", "strlen"]


def esc(p):
    return p.replace(" ", "$ ").replace(":", "$:")


def main():
    os.makedirs(OUT, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(OUT, "redef.syms"), "w") as f:
        f.write("".join("%s sim_%s\n" % (s, s) for s in REDEF))
    n = []
    w = n.append
    inc = "-I%s/source -I%s/anytime -I%s/tools -I%s" % (REPO, REPO, REPO, SIM)
    w("ninja_required_version = 1.5")
    w("builddir = %s" % esc(OUT))
    w("rule instr\n  command = g++ %s %s %s $extra -MMD -MF $out.d -c $in -o $out.t && objcopy --redefine-syms=%s/redef.syms $out.t $out && rm -f $out.t\n  depfile = $out.d\n  deps = gcc\n  description = CXX $in" % (COMMON, INSTR, inc, OUT))
    w("rule plain\n  command = g++ %s %s %s $extra -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX(plain) $in" % (COMMON, PLAIN, inc))
    w("rule data\n  command = g++ %s -O0 %s -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX(data) $in" % (COMMON, inc))
    w("rule rt\n  command = g++ -std=gnu++17 -O2 -g1 -fno-threadsafe-statics -Wall -Wno-unused -U_FORTIFY_SOURCE -fno-pie -pthread -fno-builtin-malloc -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = RT $in")
    w("rule tool\n  command = python3 %s/toolobj.py $out $mainname %s/redef.syms g++ %s %s %s -Dmain=$mainname $extra -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = TOOL $in" % (HERE, OUT, COMMON, INSTR, inc))
    w("rule host\n  command = g++ -std=gnu++17 -O1 -w %s %s $in -o $out -lz -pthread\n  description = HOST $out" % (ARCH, inc))
    w("rule unigen\n  command = $gen %s/external/Unicode/UnicodeData.txt %s/external/Unicode/PropList.txt %s/external/Unicode/CaseFolding.txt > $out\n  description = GEN $out" % (REPO, REPO, REPO))
    w("rule ascgen\n  command = $gen > $out\n  description = GEN $out")
    w("rule link\n  command = g++ -no-pie -rdynamic -pthread -Wl,-z,now -o $out @$out.rsp -lz -lzstd -lstdc++fs -ldl\n  rspfile = $out.rsp\n  rspfile_content = $in\n  description = LINK $out")

    items = []          # (priority, text)
    objs = []

    def obj(src, rule, extra="", name=None, implicit=""):
        base = name or os.path.relpath(src, REPO).replace("/", "_") if src.startswith(REPO) else (name or os.path.basename(src))
        o = os.path.join(OUT, "o", base + ".o")
        pr = 9
        for i, s in enumerate(SLOW_FIRST):
            if os.path.basename(src).startswith(s):
                pr = i
        t = "build %s: %s %s%s" % (esc(o), rule, esc(src), " | " + implicit if implicit else "")
        if extra:
            t += "\n" + extra
        items.append((pr, t))
        objs.append(o)

    for src in sorted(glob.glob(REPO + "/source/*.cpp")):
        b = os.path.basename(src)
        plain = b.startswith(UNINSTRUMENTED)
        obj(src, "plain" if plain else "instr")
    for src in sorted(glob.glob(REPO + "/anytime/*.cpp")):
        rel = os.path.relpath(src, REPO)
        if rel not in TOOLS:
            obj(src, "instr", extra="  extra = -D_GLIBCXX_EXTERN_TEMPLATE=0")
    for rel, mainname in TOOLS.items():
        src = os.path.join(REPO, rel)
        obj(src, "tool", extra="  mainname = %s" % mainname, implicit=os.path.join(HERE, "toolobj.py"))
    for src in sorted(glob.glob(SIM + "/scn_*.cpp")):
        obj(src, "instr")
    for src in sorted(glob.glob(SIM + "/rt_*.cpp")):
        obj(src, "rt")
    # generated tables
    ug, ag = os.path.join(OUT, "unicode_database_to_c"), os.path.join(OUT, "ascii_database_to_c")
    w("build %s: host %s/tools/unicode_database_to_c.cpp %s/source/asserts.cpp %s/source/file.cpp %s/source/bitstring.cpp" % (esc(ug), REPO, REPO, REPO, REPO))
    w("build %s: host %s/tools/ascii_database_to_c.cpp" % (esc(ag), REPO))
    uc, ac = os.path.join(OUT, "gen", "unicode.cpp"), os.path.join(OUT, "gen", "ascii.cpp")
    w("build %s: unigen | %s %s\n  gen = %s" % (esc(uc), esc(ug), " ".join(glob.glob(REPO + "/external/Unicode/*.txt")), ug))
    w("build %s: ascgen | %s\n  gen = %s" % (esc(ac), esc(ag), ag))
    obj(uc, "data", name="gen_unicode")
    obj(ac, "data", name="gen_ascii")
    for _, t in sorted(items, key=lambda x: x[0]):
        w(t)
    w("build %s: link %s" % (esc(os.path.join(OUT, "jass_sim")), " ".join(esc(o) for o in objs)))
    w("default %s" % esc(os.path.join(OUT, "jass_sim")))
    text = "\n".join(n) + "\n"
    nf = os.path.join(OUT, "build.ninja")
    if not os.path.exists(nf) or open(nf).read() != text:
        with open(nf, "w") as f:
            f.write(text)
    r = subprocess.run(["ninja", "-C", OUT, "-f", nf] + sys.argv[1:], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:] + "\n")
        sys.stderr.write("build failed\n")
        sys.exit(2)
    print("build: %.1f s" % (time.time() - t0))


main()
