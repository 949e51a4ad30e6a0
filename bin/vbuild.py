"""Builds instrumented flavours of the extension from /repo's working tree into /verif/build (git-ignored)."""
import fcntl, hashlib, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
MON = os.path.join(VERIF, "monitor")

BASE = ["-g", "-fno-omit-frame-pointer", "-fPIC", "-DPIC", "-fvisibility=hidden",
        "-DZEND_ENABLE_STATIC_TSRMLS_CACHE=1", "-DCOMPILE_DL_TEDS", "-DHAVE_TEDS=1", "-w"]
# pointer-overflow, null and nonnull-attribute are excluded: see DESIGN.md (pointers formed but never dereferenced, zero-length copies; ASan sees real accesses).
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow,nonnull-attribute,null", "-fno-sanitize-recover=all"]
FLAVOURS = {
    "asan": {"cflags": ["-O1"] + SAN + ["-fsanitize-coverage=trace-pc"], "ldflags": SAN, "cov": True, "preload": ["libasan.so", "libubsan.so"]},
    "steps": {"cflags": ["-O1", "-fsanitize-coverage=trace-pc", "-U_FORTIFY_SOURCE", "-include", os.path.join(MON, "work.h")], "ldflags": [], "cov": True, "preload": []},
    "plain": {"cflags": ["-O2"], "ldflags": [], "cov": False, "preload": []},
}


class BuildError(Exception):
    pass


def sources():
    names = []
    try:
        m = re.search(r'PHP_TEDS_SRC_FILES="([^"]*)"', open(os.path.join(REPO, "config.m4")).read())
        if m:
            names = m.group(1).split()
    except OSError:
        pass
    names = [n for n in names if os.path.exists(os.path.join(REPO, n))]
    if not names:
        names = sorted(n for n in os.listdir(REPO) if re.fullmatch(r"teds.*\.c", n))
    if not names:
        raise BuildError("no sources found in " + REPO)
    return names


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def tree_hash(extra):
    h = hashlib.sha256()
    for root in (REPO, os.path.join(REPO, "src"), os.path.join(REPO, "include")):
        if not os.path.isdir(root):
            continue
        for n in sorted(os.listdir(root)):
            if n.endswith((".c", ".h")) and n != "config.h" or n == "config.m4":
                h.update(n.encode() + b"\0" + open(os.path.join(root, n), "rb").read())
    for n in sorted(os.listdir(MON)):
        h.update(n.encode() + open(os.path.join(MON, n), "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def build(flavour):
    """Returns a dict: so, vmon, env, blocks (instrumented basic blocks in the extension)."""
    f = FLAVOURS[flavour]
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash((flavour, f))
    out = os.path.join(BUILD, "%s-%s" % (flavour, key))
    with open(os.path.join(BUILD, flavour + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(out, "ok")):
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            inc = _run(["php-config8.3", "--includes"]).split()
            cc = ["gcc"] + BASE + f["cflags"] + ["-I" + REPO] + inc
            objs, jobs = [], []
            for s in sources():
                o = os.path.join(out, s.replace("/", "_") + ".o")
                objs.append(o)
                jobs.append(cc + ["-c", os.path.join(REPO, s), "-o", o])
            if f["cov"]:
                o = os.path.join(out, "cov.o")
                objs.append(o)
                jobs.append(["gcc", "-O2", "-fPIC", "-fvisibility=hidden", "-c", os.path.join(MON, "cov.c"), "-o", o])
            vflags = SAN if flavour == "asan" else []
            jobs.append(["gcc", "-O1", "-g", "-w", "-U_FORTIFY_SOURCE", "-fPIC", "-shared", "-DCOMPILE_DL_VMON"] + vflags + inc +
                        [os.path.join(MON, "vmon.c"), "-o", os.path.join(out, "vmon.so"), "-ldl"])
            jobs.append(["gcc", "-O1", "-w", "-fPIC", "-shared", os.path.join(MON, "shim.c"), "-o", os.path.join(out, "shim.so"), "-ldl"])
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(_run, jobs))
            _run(["gcc", "-shared"] + f["ldflags"] + objs + ["-o", os.path.join(out, "teds.so")])
            blocks = 0
            if f["cov"]:
                # number of calls to the coverage callback = number of instrumented basic blocks
                d = subprocess.run("objdump -d --no-show-raw-insn %s | grep -c 'call.*__sanitizer_cov_trace_pc'" % os.path.join(out, "teds.so"),
                                   shell=True, stdout=subprocess.PIPE, text=True)
                blocks = int(d.stdout.strip() or 0)
            for o in objs:
                os.unlink(o)
            open(os.path.join(out, "blocks"), "w").write(str(blocks))
            open(os.path.join(out, "ok"), "w").write("ok")
            # keep the build directory small
            olds = sorted((d for d in os.listdir(BUILD) if d.startswith(flavour + "-")), key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
            for d in olds[:-4]:
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    pre = [os.path.join(out, "shim.so")] + [_run(["gcc", "-print-file-name=" + l]).strip() for l in f["preload"]]
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("ASAN_", "UBSAN_", "LD_PRELOAD", "USE_ZEND", "VMON", "PHP", "TEDS")):
            del env[k]
    env.update({"USE_ZEND_ALLOC": "0", "ZEND_DONT_UNLOAD_MODULES": "1", "LD_PRELOAD": ":".join(pre),
                "ASAN_OPTIONS": "detect_leaks=0:verify_asan_link_order=0:allocator_may_return_null=1:max_allocation_size_mb=2048:"
                                "hard_rss_limit_mb=3500:handle_abort=1:quarantine_size_mb=16:malloc_context_size=12:exitcode=98",
                "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98", "LC_ALL": "C.UTF-8", "TZ": "UTC"})
    return {"so": os.path.join(out, "teds.so"), "vmon": os.path.join(out, "vmon.so"), "env": env,
            "blocks": int(open(os.path.join(out, "blocks")).read())}


def php_cmd(b, script, *args, ini=()):
    cmd = ["php8.3", "-n", "-d", "memory_limit=-1", "-d", "zend.assertions=-1", "-d", "display_errors=stderr",
           "-d", "error_reporting=32767", "-d", "precision=17", "-d", "serialize_precision=-1", "-d", "opcache.enable_cli=0",
           "-d", "zend.exception_ignore_args=1"]
    for i in ini:
        cmd += ["-d", i]
    return cmd + ["-d", "extension=" + b["vmon"], "-d", "extension=" + b["so"], script] + [str(a) for a in args]


if __name__ == "__main__":
    t = time.time()
    for fl in sys.argv[1:] or ["asan"]:
        b = build(fl)
        print(fl, b["so"], b["blocks"], "%.1fs" % (time.time() - t))
