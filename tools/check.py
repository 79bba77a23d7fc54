#!/usr/bin/env python3
"""check.py <property> [quick|thorough] | check.py --replay <file> | check.py --build-all

Builds pillowcore (AddressSanitizer) from /repo's working tree and the explorer that decides the property,
runs the exploration, and passes its verdict on: exit 0 holds, exit 1 with a VIOLATION line."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PILLOW_REPO", "/repo")
BUILD = os.environ.get("PILLOW_BUILD", os.path.join(VERIF, "_build"))
HARNESS = os.path.join(VERIF, "harness")
SAN = "-fsanitize=address -fno-omit-frame-pointer"
OPT = "-O1 -g1"

# explorer -> (sources, defines, properties)
EXPLORERS = json.load(open(os.path.join(HARNESS, "explorers.json")))

def sh(cmd, cwd=None, log=None):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-8000:])
        print("check.py: command failed: " + cmd)
        sys.exit(2)
    return r.stdout

def digest(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, ds, fs in os.walk(root):
                ds.sort()
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            if f.endswith((".o", ".a", ".so")): continue
            h.update(f.encode()); h.update(b"\0")
            h.update(open(f, "rb").read()); h.update(b"\0")
    return h.hexdigest()[:16]

def build_lib():
    key = digest([os.path.join(REPO, "pillowcore"), os.path.join(REPO, "config.pri"), os.path.abspath(__file__)])
    d = os.path.join(BUILD, "lib-" + key)
    if os.path.exists(os.path.join(d, "ok")): return d
    if os.path.isdir(BUILD):  # Only the current tree's build is kept.
        for x in os.listdir(BUILD):
            if x.startswith(("lib-", "bin-")): shutil.rmtree(os.path.join(BUILD, x), ignore_errors=True)
    src = os.path.join(d, "build"); os.makedirs(src, exist_ok=True)
    flags = OPT + " " + SAN
    sh(f'qmake -qt=5 {REPO}/pillowcore/pillowcore.pro QMAKE_CC=gcc QMAKE_CXX=g++ CONFIG+=release CONFIG+=pillow_static CONFIG+=pillow_zlib PILLOW_ZLIB_LIBS=-lz '
       f'"QMAKE_CFLAGS_RELEASE={flags}" "QMAKE_CXXFLAGS_RELEASE={flags} -w"', cwd=src)
    sh("make -j8", cwd=src)
    lib = None
    for dd, _, fs in os.walk(d):
        for f in fs:
            if f == "libpillowcore.a": lib = os.path.join(dd, f)
    if not lib: print("check.py: no library was produced"); sys.exit(2)
    if os.path.dirname(lib) != d: shutil.copy(lib, d)
    shutil.rmtree(src)
    open(os.path.join(d, "ok"), "w").close()
    return d

def qt_flags():
    return subprocess.run("pkg-config --cflags Qt5Core Qt5Network Qt5Script", shell=True, stdout=subprocess.PIPE, text=True).stdout.strip()

def build_explorer(name):
    libdir = build_lib()
    e = EXPLORERS[name]
    key = digest([HARNESS, os.path.abspath(__file__)])
    d = os.path.join(BUILD, "bin-" + os.path.basename(libdir) + "-" + key)
    exe = os.path.join(d, name)
    if os.path.exists(exe): return exe
    os.makedirs(d, exist_ok=True)
    for x in os.listdir(BUILD):
        if x.startswith("bin-") and os.path.join(BUILD, x) != d: shutil.rmtree(os.path.join(BUILD, x), ignore_errors=True)
    cxx = f"g++ -std=c++14 {OPT} {SAN} -w -fPIC {qt_flags()} -DPILLOWCORE_BUILD_STATIC -DPILLOW_ZLIB -DHARNESS_DATA='\"{HARNESS}/data\"' {e.get('defines','')} -I{HARNESS} -I{REPO}/pillowcore -I{REPO}/pillowcore/parser"
    procs, objs = [], []
    for h in e.get("moc", []):
        m = os.path.join(d, name + "-moc_" + h + ".cpp")
        sh(f"$(qmake -qt=5 -query QT_HOST_BINS)/moc -I{REPO}/pillowcore {os.path.join(HARNESS, h)} -o {m}")
        o = m + ".o"; objs.append(o)
        procs.append((h, subprocess.Popen(f"{cxx} -c {m} -o {o}", shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for s in e["sources"] + ["mc.cpp"]:
        o = os.path.join(d, name + "-" + s + ".o"); objs.append(o)
        procs.append((s, subprocess.Popen(f"{cxx} -c {os.path.join(HARNESS, s)} -o {o}", shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for s, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            sys.stdout.write(out[-8000:]); print("check.py: harness does not compile: " + s); sys.exit(2)
    sh(f"g++ {SAN} {' '.join(objs)} {libdir}/libpillowcore.a -lQt5Script -lQt5Network -lQt5Core -lz -lpthread {e.get('libs','')} -o {exe}.tmp && mv {exe}.tmp {exe}")
    for o in objs: os.unlink(o)
    return exe

def lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, ".lock"), "w"); fcntl.flock(f, fcntl.LOCK_EX); return f

def explorer_of(prop):
    for n, e in EXPLORERS.items():
        if prop in e["properties"]: return n
    print("check.py: no explorer decides " + prop); sys.exit(2)

def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=1:handle_segv=1:quarantine_size_mb=64"
    e["QT_LOGGING_RULES"] = "*.debug=false"
    e["LC_ALL"] = "C.UTF-8"; e["TZ"] = "EST5EDT,M3.2.0,M11.1.0"
    cnf = os.path.join(HARNESS, "data", "openssl.cnf")
    if os.path.exists(cnf): e["OPENSSL_CONF"] = cnf
    for k in list(e):
        if k.lower().endswith("_proxy"): del e[k]
    return e

def run(cmd):
    # Whatever an explorer writes goes to a scratch directory of its own (it may drop its privileges: world accessible).
    e = env(); scratch = tempfile.mkdtemp(prefix="pillow-mc-"); os.chmod(scratch, 0o755); e["MC_SCRATCH"] = scratch
    try:
        return subprocess.run(cmd, env=e).returncode
    finally:
        for d, ds, fs in os.walk(scratch):
            for x in ds:
                if not os.path.islink(os.path.join(d, x)): os.chmod(os.path.join(d, x), 0o755)
        shutil.rmtree(scratch, ignore_errors=True)

def main():
    a = sys.argv[1:]
    if a and a[0] == "--build-all":
        l = lock()
        for n in EXPLORERS: build_explorer(n)
        return 0
    extra = []
    if a and a[0] == "--replay":
        prop = None
        for line in open(a[1]):
            if line.startswith("property "): prop = line.split()[1]
            if line.startswith("# ") and "thorough tier" in line: extra += ["--tier", "thorough"]
        l = lock(); exe = build_explorer(explorer_of(prop)); l.close()
        return run([exe, "--property", prop, "--replay", a[1], "--known", os.path.join(VERIF, "known_findings.txt")] + extra)
    prop = a[0]; tier = a[1] if len(a) > 1 and not a[1].startswith("-") else os.environ.get("VERIF_TIER", "quick")
    rest = [x for x in a[1:] if x != tier]
    t0 = time.time()
    l = lock(); exe = build_explorer(explorer_of(prop)); l.close()
    rd = os.path.join(BUILD, "replay"); os.makedirs(rd, exist_ok=True); os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    deadline = (840 - (time.time() - t0)) if tier == "quick" else 3600
    cmd = [exe, "--property", prop, "--tier", tier, "--evidence", os.path.join(VERIF, "evidence", prop + ".json"), "--replay-dir", rd, "--seed", os.environ.get("VERIF_SEED", "1"),
           "--known", os.path.join(VERIF, "known_findings.txt"), "--deadline", str(int(deadline * 0.75)), "--workers", str(min(8, os.cpu_count() or 8))] + rest
    sys.stdout.flush()
    return run(cmd)

sys.exit(main())
