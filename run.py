#!/usr/bin/env python3
"""run.py <PROPERTY> <quick|thorough> [--replay FILE] [--build-only] [extra harness args]

Builds the library from the current working tree of /repo plus the harness of
one property, runs it, and returns its exit code (0 held, 1 violation).
"""
import fcntl, os, re, subprocess, sys, hashlib, shutil, tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = VERIF + "/harness"
BUILD = os.environ.get("VERIF_BUILD", VERIF + "/build")

DEFS = ("-DEXPORT_INTERNALS -DHACL_CAN_COMPILE_VEC128 -DHACL_CAN_COMPILE_VEC256 "
        "-DUSE_STANDARD_PRIMES -DELECTIONGUARD_BUILD_SHARED -DFMT_SHARED "
        "-DHAS_STRING_VIEW=1 -DONLY_C_LOCALE=1 -DSPDLOG_FMT_EXTERNAL")
FLAVOURS = {
    "plain": dict(cc="gcc", cxx="g++", cflags="-O2 -w", cxxflags="-O1 -w", ldflags=""),
    "asan": dict(cc="clang", cxx="clang++",
                 cflags="-O1 -gline-tables-only -w -fsanitize=address,undefined -fno-sanitize=alignment "
                        "-fno-sanitize-recover=undefined -fno-omit-frame-pointer -DVERIF_ASAN",
                 cxxflags="-O1 -gline-tables-only -w -fsanitize=address,null,return,bounds,shift,bool,enum,"
                          "signed-integer-overflow,nonnull-attribute,returns-nonnull-attribute "
                          "-fno-sanitize-recover=all -fno-omit-frame-pointer -DVERIF_ASAN",
                 hacl="-O2 -gline-tables-only -w -fsanitize=address -fno-omit-frame-pointer -DVERIF_ASAN",
                 inner="-O2 -w", ldflags="-fsanitize=address,undefined"),
    "tsan": dict(cc="clang", cxx="clang++", cflags="-O2 -gline-tables-only -w -fsanitize=thread -DVERIF_TSAN",
                 cxxflags="-O1 -gline-tables-only -w -fsanitize=thread -DVERIF_TSAN",
                 ldflags="-fsanitize=thread"),
}
# per property: flavour and exploration time caps (seconds)
PROPS = {}
def P(id, flavour="plain", quick=40, thorough=1200, jobs=0, wraps=()):
    PROPS[id] = dict(flavour=flavour, quick=quick, thorough=thorough, jobs=jobs, wraps=wraps)
for i in ("G01 G02 H01 H02 E01 E02 C01 C02 B01 B02 B03 B04 B05 B06 B07 S01 S02 S03 "
          "M01 M02 M03 X01 K01 W01 L01").split():
    P(i)
P("G03", wraps=("open", "open64", "read", "getrandom", "syscall"))
P("S04", flavour="asan")
P("V01", flavour="asan")
P("A01", flavour="asan", wraps=("_Znwm", "_ZdlPv", "_ZdlPvm"))
P("A02", flavour="asan", wraps=("malloc", "calloc", "strdup", "strndup"))
P("K02", flavour="tsan", jobs=4)
P("T01", flavour="tsan", jobs=4)


def lib_sources():
    text = open(REPO + "/src/CMakeLists.txt").read()
    text = re.sub(r"#[^\n]*", "", text)
    start = text.index("set(PROJECT_SOURCE_FILES")
    text = text[start:text.index(")", start)].replace("${PROJECT_SOURCE_DIR}", REPO)
    files = re.findall(r"/[^ \n\t]+\.(?:cpp|c)\b(?!\w)", text)
    files = [f for f in files if f.endswith((".cpp", ".c"))]
    if not files:
        raise SystemExit("no library sources found")
    return files


# translation units that compile slowest go first
SLOW = ["ballot.cpp", "manifest.cpp", "ballot_compact.cpp", "election.cpp", "encrypt.cpp"]


def write_ninja(flavour, props):
    fl = FLAVOURS[flavour]
    bd = "%s/%s" % (BUILD, flavour)
    os.makedirs(bd, exist_ok=True)
    inc = ("-isystem %s/include -isystem %s/src -isystem %s/src/electionguard -isystem %s/src/karamel"
           % (REPO, REPO, REPO, REPO))
    n = []
    n.append("ninja_required_version = 1.3")
    n.append("builddir = " + bd)
    n.append("rule cc\n command = %s -std=gnu11 %s -fPIC %s %s -MD -MF $out.d -c $in -o $out\n"
             " depfile = $out.d\n deps = gcc" % (fl["cc"], fl["cflags"], DEFS, inc))
    # the vendored arithmetic: its innermost loops only see buffers of its own outer functions
    n.append("rule hacl\n command = %s -std=gnu11 %s -fPIC %s %s -MD -MF $out.d -c $in -o $out\n"
             " depfile = $out.d\n deps = gcc" % (fl["cc"], fl.get("hacl", fl["cflags"]), DEFS, inc))
    n.append("rule inner\n command = %s -std=gnu11 %s -fPIC %s %s -MD -MF $out.d -c $in -o $out\n"
             " depfile = $out.d\n deps = gcc" % (fl["cc"], fl.get("inner", fl["cflags"]), DEFS, inc))
    n.append("rule cxx\n command = %s -std=c++17 %s -fPIC %s %s -I%s -MD -MF $out.d -c $in -o $out\n"
             " depfile = $out.d\n deps = gcc" % (fl["cxx"], fl["cxxflags"], DEFS, inc, H))
    n.append("rule link\n command = %s -o $out $in %s $wraps -lfmt -lgmp -lcrypto -lpthread"
             % (fl["cxx"], fl["ldflags"]))
    objs = []
    srcs = lib_sources()
    srcs.sort(key=lambda f: SLOW.index(os.path.basename(f)) if "/facades/" not in f and
              os.path.basename(f) in SLOW else 99)
    for s in srcs:
        o = "%s/lib/%s.o" % (bd, os.path.relpath(s, REPO).replace("/", "_"))
        rule = "cxx" if s.endswith(".cpp") else "cc" if "/karamel/" not in s else \
            "inner" if s.endswith("/Hacl_Bignum.c") else "hacl"
        n.append("build %s: %s %s" % (o, rule, s))
        objs.append(o)
    common = []
    for s in ("pbt.cpp", "entropy.cpp", "ref.cpp", "gen.cpp", "ser.cpp"):
        o = "%s/h/%s.o" % (bd, s)
        n.append("build %s: cxx %s/%s" % (o, H, s))
        common.append(o)
    for p in props:
        o = "%s/h/%s.o" % (bd, p)
        n.append("build %s: cxx %s/props/%s.cpp" % (o, H, p))
        w = "-Wl,--wrap=Lib_RandomBuffer_System_randombytes -Wl,--wrap=time"
        for x in PROPS[p]["wraps"]:
            w += " -Wl,--wrap=" + x
        n.append("build %s/%s: link %s %s %s\n wraps = %s" %
                 (bd, p, o, " ".join(common), " ".join(objs), w))
    path = "%s/build-%s.ninja" % (bd, props[0] if len(props) == 1 else "all")
    text = "\n".join(n) + "\n"
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)
    return path


def build(flavour, props):
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/." + flavour + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        nj = write_ninja(flavour, props)
        env = dict(os.environ, CCACHE_DISABLE="1")
        r = subprocess.run(["ninja", "-f", nj] + ["%s/%s/%s" % (BUILD, flavour, p) for p in props],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
        if r.returncode != 0:
            sys.stdout.write(r.stdout[-6000:])
            print("BUILD FAILED")
            sys.exit(3)


def main():
    if len(sys.argv) < 2:
        raise SystemExit(__doc__)
    if sys.argv[1] == "--build-all":
        for f in FLAVOURS:
            ps = [p for p in PROPS if PROPS[p]["flavour"] == f and
                  os.path.exists("%s/props/%s.cpp" % (H, p))]
            if ps:
                build(f, ps)
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("-") else \
        os.environ.get("VERIF_TIER", "quick")
    extra = [a for a in sys.argv[2:] if a != tier]
    cfg = PROPS[pid]
    flavour = cfg["flavour"]
    build(flavour, [pid])
    if "--build-only" in extra:
        return 0
    seed = os.environ.get("VERIF_SEED", "1")
    try:
        seed = str(int(seed) % (1 << 63))
    except ValueError:
        seed = str(int(hashlib.sha256(seed.encode()).hexdigest()[:15], 16))
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="vscratch-", dir=BUILD)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:" \
                          "detect_stack_use_after_return=0:handle_abort=1:max_allocation_size_mb=4096"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4"
    cmd = ["%s/%s/%s" % (BUILD, flavour, pid), "--tier", tier, "--seed", seed,
           "--evidence", "%s/evidence/%s.json" % (VERIF, pid), "--replays", VERIF + "/replays",
           "--known", VERIF + "/known-findings.txt", "--scratch", scratch,
           "--cap", str(cfg[tier])]
    if cfg["jobs"]:
        cmd += ["--jobs", str(cfg["jobs"])]
    cmd += extra
    try:
        r = subprocess.run(cmd, env=env)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return r.returncode


sys.exit(main())
