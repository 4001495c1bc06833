#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree.

Compiles the library sources named in /repo/src/Makefile.am (plus nplCurve and
the bundled Judy arrays and the command line tools), instrumented with
AddressSanitizer, and links them with the simulator in /verif/sim.  Nothing is
written in /repo.  Objects are cached by content hash in BUILD.
"""
import concurrent.futures, fcntl, glob, hashlib, os, re, subprocess, sys, tempfile, shutil

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(os.path.dirname(HERE), "build"))

CFLAGS = ["-g1", "-O1", "-w", "-fsanitize=address", "-fno-omit-frame-pointer",
          "-fno-common", "-ffunction-sections", "-fdata-sections"]
WRAPS = """malloc calloc realloc free strdup exit abort __assert_fail clock time
 gettimeofday clock_gettime times rand srand random srandom drand48 signal sigaction
 fopen fclose rename remove unlink system mkdir opendir readdir closedir rmdir mkstemp getpid
 fflush""".split()
TOOLS = ["carbonizepd", "connectsum", "filterpd", "joinpd", "computepd", "splitpd",
         "plcrwalk", "plcurvature", "struts", "mrlocs", "ropelength"]
TOOLS2 = ["processpdstor", "orientedshadows", "shadow2diagram", "knottype"]   # in /repo/tools, from several sources each


def repo_sources():
    am = open(os.path.join(REPO, "src/Makefile.am")).read().replace("\\\n", " ")
    out = []
    for var in ("libplCurveStatic_la_SOURCES", "libnplCurve_la_SOURCES"):
        m = re.search(r"^%s\s*=(.*)$" % var, am, re.M)
        if not m:
            raise SystemExit("build: no %s in src/Makefile.am" % var)
        for f in m.group(1).split():
            if f.endswith(".c") and f not in out:
                out.append(f)
    # naptable.h is missing from the repository: this file never builds
    if not os.path.exists(os.path.join(REPO, "src/naptable.h")):
        out = [f for f in out if f != "kascentpermutation.c"]
    return out


JL = {"Cascade": "Cascade", "Count": "Count", "CreateBranch": "CreateBranch", "Decascade": "Decascade",
      "First": "First", "FreeArray": "FreeArray", "InsertBranch": "InsertBranch", "MallocIF": "MallocIF",
      "MemActive": "MemActive", "MemUsed": "MemUsed"}


def judy_units():
    """(object name, source under JudyCommon, defines)"""
    u = []
    for A, d, ins, insarr, dele, get in (("1", "-DJUDY1", "Set", "SetArray", "Unset", "Test"),
                                         ("L", "-DJUDYL", "Ins", "InsArray", "Del", "Get")):
        for k in JL:
            u.append(("Judy%s%s" % (A, k), "Judy%s.c" % k, [d]))
        u.append(("Judy%s%s" % (A, ins), "JudyIns.c", [d]))
        u.append(("Judy%s%s" % (A, insarr), "JudyInsArray.c", [d]))
        u.append(("Judy%s%s" % (A, dele), "JudyDel.c", [d]))
        u.append(("Judy%s%s" % (A, get), "JudyGet.c", [d]))
        u.append(("Judy%sNext" % A, "JudyPrevNext.c", [d, "-DJUDYNEXT"]))
        u.append(("Judy%sNextEmpty" % A, "JudyPrevNextEmpty.c", [d, "-DJUDYNEXT"]))
        u.append(("Judy%sPrev" % A, "JudyPrevNext.c", [d, "-DJUDYPREV"]))
        u.append(("Judy%sPrevEmpty" % A, "JudyPrevNextEmpty.c", [d, "-DJUDYPREV"]))
        u.append(("Judy%sByCount" % A, "JudyByCount.c", [d, "-DNOSMARTJBB", "-DNOSMARTJBU", "-DNOSMARTJLB"]))
        u.append(("j__udy%s%s" % (A, get), "JudyGet.c", [d, "-DJUDYGETINLINE"]))
    return u


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        sys.stderr.write("FAILED: %s\n%s\n" % (" ".join(cmd), p.stdout.decode(errors="replace")[-4000:]))
        raise SystemExit(2)
    return p.stdout


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()


def build(quiet=True):
    os.makedirs(BUILD + "/obj", exist_ok=True)
    with open(BUILD + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return build_locked()


def build_locked():
    src = os.path.join(REPO, "src")
    J = os.path.join(REPO, "judy/src")
    hdrs = tree_hash(glob.glob(src + "/*.h") + [HERE + "/config.h"] + glob.glob(J + "/**/*.h", recursive=True))
    myh = tree_hash(glob.glob(HERE + "/*.h") + glob.glob(HERE + "/*.inc"))
    jobs = []  # (objpath, cmd)
    objs = []

    def add(name, source, flags, cc="gcc", hh=hdrs, extra=None, keep=None):
        h = hashlib.sha256()
        for x in (hh, open(source, "rb").read().decode("latin1"), " ".join(flags), cc, extra or "", keep or "", source):
            h.update(x.encode("latin1"))
        o = "%s/obj/%s-%s.o" % (BUILD, name, h.hexdigest()[:20])
        if not os.path.exists(o):
            jobs.append((o, [cc] + flags + ["-c", source], keep))
        return o

    inc = ["-I", HERE, "-I", src, "-I", J, "-DHAVE_CONFIG_H"]
    for f in repo_sources():
        objs.append(add("lib_" + f[:-2], os.path.join(src, f), CFLAGS + inc))
    common = tree_hash(glob.glob(J + "/JudyCommon/*.c") + glob.glob(J + "/JudyCommon/*.h"))
    for o, f, d in judy_units():
        objs.append(add(o, "%s/JudyCommon/%s" % (J, f),
                        CFLAGS + ["-DJU_64BIT"] + d + ["-I", J, "-I", J + "/JudyCommon", "-I", J + "/JudyL", "-I", J + "/Judy1", "-I", HERE],
                        hh=hdrs + common))
    for o, f in (("JudySL", J + "/JudySL/JudySL.c"), ("JudyHS", J + "/JudyHS/JudyHS.c"),
                 ("JudyMalloc", J + "/JudyCommon/JudyMalloc.c")):
        objs.append(add(o, f, CFLAGS + ["-DJU_64BIT", "-I", J, "-I", J + "/JudyCommon", "-I", J + "/JudyHS", "-I", HERE], hh=hdrs + common))
    # planarmap: the library's sources, without its program
    pm = os.path.join(REPO, "planarmap")
    m = re.search(r"^libplanarmap_la_SOURCES\s*=(.*)$", open(pm + "/Makefile.am").read().replace("\\\n", " "), re.M)
    pmh = tree_hash(glob.glob(pm + "/*.h"))
    for f in m.group(1).split():
        if f.endswith(".c"):
            objs.append(add("pm_" + f[:-2], pm + "/" + f, CFLAGS + ["-I", pm, "-I", HERE, "-DHAVE_CONFIG_H"], hh=pmh))
    # Judy's generated tables
    tab = tree_hash([J + "/JudyCommon/JudyTables.c"]) + hdrs
    tdir = "%s/tables-%s" % (BUILD, hashlib.sha256(tab.encode()).hexdigest()[:16])
    if not os.path.isdir(tdir):
        t = tempfile.mkdtemp(dir=BUILD)
        for A in "1L":
            sh(["gcc", "-w", "-DJU_64BIT", "-DJUDY" + A, "-I", J, "-I", J + "/JudyCommon", "-I", J + "/JudyL", "-I", J + "/Judy1",
                "-o", t + "/gen" + A, J + "/JudyCommon/JudyTables.c"])
            sh(["./gen" + A], cwd=t)
        os.rename(t, tdir)
    for A in "1L":
        objs.append(add("Judy%sTables" % A, "%s/Judy%sTables.c" % (tdir, A),
                        CFLAGS + ["-DJU_64BIT", "-DJUDY" + A, "-I", J, "-I", J + "/JudyCommon", "-I", J + "/JudyL", "-I", J + "/Judy1"],
                        hh=hdrs + common))
    for t in TOOLS:
        ex = open(src + "/plCurve.c", "rb").read().decode("latin1") if t == "carbonizepd" else ""
        objs.append(add("tool_" + t, "%s/%s.c" % (src, t), CFLAGS + inc + ["-Dmain=tool_main_" + t], extra=ex, keep="tool_main_" + t))
    tdir = os.path.join(REPO, "tools")
    am = open(tdir + "/Makefile.am").read().replace("\\\n", " ")
    included = tree_hash(glob.glob(tdir + "/*.h")) + "".join(open(src + "/" + x, "rb").read().decode("latin1") for x in ("plCurve.c", "pd_isomorphisms.c"))
    merges = []
    for t in TOOLS2:
        m = re.search(r"^%s_SOURCES\s*=(.*)$" % t, am, re.M)
        parts = [add("tool_%s_%s" % (t, f[:-2]), tdir + "/" + f, CFLAGS + ["-I", HERE, "-I", tdir, "-I", src, "-I", J, "-DHAVE_CONFIG_H", "-Dmain=tool_main_" + t], extra=included)
                 for f in (m.group(1).split() if m else [t + ".c"]) if f.endswith(".c")]
        o = "%s/obj/tool_%s-%s.o" % (BUILD, t, hashlib.sha256(" ".join(parts).encode()).hexdigest()[:20])
        objs.append(o)
        if not os.path.exists(o):
            merges.append((o, ["ld", "-r"] + parts, "tool_main_" + t))
    for f in sorted(glob.glob(HERE + "/*.cpp")):
        objs.append(add("sim_" + os.path.basename(f)[:-4], f,
                        ["-std=gnu++17", "-g1", "-O1", "-w", "-fno-omit-frame-pointer", "-fsanitize=address", "-fpermissive", "-Drestrict=__restrict__"] + inc + ["-I", pm],
                        cc="g++", hh=hdrs + myh + (pmh if f.endswith("p_planar.cpp") else "")))

    def run(job):
        o, cmd, keep = job
        tmp = o + ".tmp%d" % os.getpid()
        sh(cmd + ["-o", tmp])
        if keep:
            sh(["objcopy", "--keep-global-symbol=" + keep, tmp])
        os.rename(tmp, o)

    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(run, jobs))
        list(ex.map(run, merges))
    key = hashlib.sha256(("\n".join(objs) + " ".join(WRAPS)).encode()).hexdigest()[:20]
    exe = "%s/sim-%s" % (BUILD, key)
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        sh(["g++", "-fsanitize=address", "-o", tmp] + objs + ["-Wl,--gc-sections"] + ["-Wl,--wrap=" + w for w in WRAPS] +
           ["-lgsl", "-lgslcblas", "-lm"])
        os.rename(tmp, exe)
        for old in sorted(glob.glob(BUILD + "/sim-*"), key=os.path.getmtime)[:-6]:
            try: os.unlink(old)
            except OSError: pass
    # drop stale objects
    live = set(objs)
    for o in glob.glob(BUILD + "/obj/*.o"):
        if o not in live and len(glob.glob(BUILD + "/obj/*.o")) > 600:
            try: os.unlink(o)
            except OSError: pass
    return exe


if __name__ == "__main__":
    print(build())
