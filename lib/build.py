"""Builds harness programs against /repo's current working tree.

Every object is compiled from /repo/src by rules of our own (sanitizers on, asserts on), so nothing that
/repo's own build produced is used.  Which sources a harness needs is worked out from what it includes:
including src/x/y.h pulls in src/x/y.cpp (or y_unix.cpp), and so on through those; should the link fail, all
of /repo/src is compiled into an archive instead."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

FLAVORS = {
    "asan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all",
    "tsan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread",
    "plain": "-O2 -g1",
}
LIBS = "-lprotobuf -levent -levent_pthreads -lcares -lpthread -ldl"
EXCLUDE = re.compile(r"(_windows\.cpp$)|(/grpc_transporter/)|(/no_stream_recorder\.cpp$)|(/no_dns_resolver\.cpp$)")


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (cmd if isinstance(cmd, str) else " ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def all_sources():
    r = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in files:
            p = os.path.join(root, f)
            if f.endswith(".cpp") and not EXCLUDE.search(p):
                r.append(p)
    return sorted(r)


INC = re.compile(r'^\s*#\s*include\s*[<"]([^">]+)[">]', re.M)


def closure(harness_files):
    """The /repo sources reachable from the harness by include -> same-named source."""
    srcs = all_sources()
    by_stem = {}
    for s in srcs:
        rel = os.path.relpath(s, os.path.join(REPO, "src"))
        stem = rel[:-4]
        d, b = os.path.split(stem)
        names = {b}
        if b.endswith("_unix"):
            names.add(b[:-5])
        if b.startswith("no_"):
            names.add(b[3:])
        for n in names:
            by_stem.setdefault(os.path.join(d, n), []).append(s)
    roots = [os.path.join(REPO, "src"), os.path.join(REPO, "include"), os.path.join(VERIF, "harness")]
    seen, want, todo = set(), set(), list(harness_files)
    known = set(open(os.path.join(VERIF, "lib", "known_sources.txt")).read().split())
    for s in srcs:  # files that did not exist when this was written: always in
        if os.path.relpath(s, REPO) not in known:
            want.add(s)
            todo.append(s)
    while todo:
        f = todo.pop()
        if f in seen or not os.path.exists(f):
            continue
        seen.add(f)
        try:
            text = open(f, errors="replace").read()
        except OSError:
            continue
        for inc in INC.findall(text):
            for r in roots + [os.path.dirname(f)]:
                p = os.path.normpath(os.path.join(r, inc))
                if os.path.exists(p):
                    todo.append(p)
                    break
            else:
                continue
            stem = inc[:-2] if inc.endswith(".h") else inc
            cands = list(by_stem.get(stem, []))
            if inc.startswith("lightstep/"):
                n = stem[len("lightstep/"):]
                for k, v in by_stem.items():
                    if os.path.basename(k) == n:
                        cands += v
            for s in cands:
                if s not in want:
                    want.add(s)
                    todo.append(s)
    return sorted(want)


def includes():
    g = os.path.join(OUT, "gen")
    return ["-I" + os.path.join(OUT, "version"), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"),
            "-I" + os.path.join(REPO, "3rd_party/base64/include"), "-I" + os.path.join(VERIF, "harness"),
            "-isystem", os.path.join(VERIF, "shim"),
            "-isystem", g, "-isystem", os.path.join(g, "lightstep-tracer-common"),
            "-isystem", os.path.join(g, "lightstep-tracer-configuration")]


def gen_version():
    d = os.path.join(OUT, "version", "lightstep")
    os.makedirs(d, exist_ok=True)
    t = open(os.path.join(REPO, "CMakeLists.txt")).read()
    v = [re.search(r'set\(LIGHTSTEP_VERSION_%s "(\d+)"' % k, t) for k in ("MAJOR", "MINOR", "PATCH")]
    ver = ".".join(m.group(1) for m in v) if all(v) else "0.0.0"
    text = open(os.path.join(REPO, "version.h.in")).read().replace("${LIGHTSTEP_VERSION_STRING}", ver)
    p = os.path.join(d, "version.h")
    if not os.path.exists(p) or open(p).read() != text:
        open(p, "w").write(text)


PROTOS = [("lightstep-tracer-common/third_party/googleapis", "lightstep-tracer-common", "google/api/http"),
          ("lightstep-tracer-common/third_party/googleapis", "lightstep-tracer-common", "google/api/annotations"),
          ("lightstep-tracer-common", "lightstep-tracer-common", "collector"),
          ("lightstep-tracer-common", "lightstep-tracer-common", "lightstep_carrier"),
          ("lightstep-tracer-configuration", "lightstep-tracer-configuration", "tracer_configuration")]


def esc(s):
    return s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def build(programs, jobs=None):
    """programs: list of dict(name, srcs=[harness-relative], flavor, full=bool, flags="").  Returns {name: path}."""
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        try:
            return _build(programs, jobs)
        except BuildError as e:
            if not any(not p.get("full") for p in programs) or "undefined reference" not in str(e):
                raise
            return _build([dict(p, full=True) for p in programs], jobs)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


def digests():
    r = {}
    for top in [os.path.join(REPO, d) for d in ("src", "include", "3rd_party", "lightstep-tracer-common", "lightstep-tracer-configuration")] + \
            [os.path.join(VERIF, d) for d in ("harness", "shim")]:
        for root, _, files in os.walk(top):
            for f in files:
                if f.endswith((".cpp", ".h", ".c", ".cc", ".proto", ".hpp")):
                    p = os.path.join(root, f)
                    r[p] = hashlib.sha1(open(p, "rb").read()).hexdigest()
    return r


def drop_stale(nf):
    """ninja goes by modification times; a file that was put back has an old one.  What depends on a file whose contents
    changed is removed here, whatever its times."""
    rec = os.path.join(OUT, "digests.json")
    try:
        old = json.load(open(rec))
    except (OSError, ValueError):
        old = {}
    new = digests()
    changed = {p for p in set(old) | set(new) if old.get(p) != new.get(p)}
    if old and any(os.path.exists(p) and os.stat(p).st_mtime_ns <= os.stat(rec).st_mtime_ns for p in changed):
        # a file put back with its old time: what this manifest doesn't know can't be judged
        known = set(open(nf).read().split())
        for o in glob.glob(os.path.join(OUT, "*", "obj", "*.o")):
            if o + ":" not in known:
                os.unlink(o)
    if old and changed:
        out = subprocess.run(["ninja", "-f", nf, "-t", "deps"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout
        target = None
        for line in out.splitlines():
            if line and not line[0].isspace():
                target = line.split(":", 1)[0]
            elif line.strip() in changed and target:
                if os.path.exists(target):
                    os.unlink(target)
                target = None
        if any(p.endswith(".proto") for p in changed):
            shutil.rmtree(os.path.join(OUT, "gen"), ignore_errors=True)
    with open(rec + ".new", "w") as f:
        json.dump(new, f)
    os.replace(rec + ".new", rec)


def _build(programs, jobs):
    gen_version()
    gen = os.path.join(OUT, "gen")
    L = ["ninja_required_version = 1.5", "builddir = " + OUT]
    L.append("rule cxx\n  command = g++ $flags -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    L.append("rule ar\n  command = rm -f $out && ar crs $out $in")
    L.append("rule link\n  command = g++ $flags -o $out $in $libs")
    L.append("rule protoc\n  command = mkdir -p $dst && protoc --proto_path=$root --proto_path=%s --proto_path=%s --cpp_out=$dst $in" % (
        REPO + "/lightstep-tracer-common/third_party/protobuf", REPO + "/lightstep-tracer-common/third_party/googleapis"))
    headers, pbcc = [], []
    for root, pre, base in PROTOS:
        dst = os.path.join(gen, pre)
        o = os.path.join(dst, base)
        L.append("build %s %s: protoc %s\n  root = %s\n  dst = %s" % (
            esc(o + ".pb.cc"), esc(o + ".pb.h"), esc(os.path.join(REPO, root, base + ".proto")), os.path.join(REPO, root), dst))
        headers.append(o + ".pb.h")
        pbcc.append(o + ".pb.cc")
    order = " || " + " ".join(esc(h) for h in headers)
    inc = " ".join(includes())
    targets, result = [], {}
    done = set()

    def obj(src, flavor, std, extra=""):
        fl = FLAVORS[flavor]
        key = src.replace(REPO + "/", "repo/").replace(VERIF + "/", "verif/").replace(OUT + "/", "out/").strip("/").replace("/", "__")
        if extra:
            key += "." + hashlib.sha1(extra.encode()).hexdigest()[:8]
        o = os.path.join(OUT, flavor, "obj", key + ".o")
        if o not in done:
            done.add(o)
            L.append("build %s: cxx %s%s\n  flags = %s -std=%s -fPIC -w -pthread %s %s" % (esc(o), esc(src), order, fl, std, extra, inc))
        return o

    for flavor in sorted({p["flavor"] for p in programs}):
        sup = [obj(c, "plain" if flavor != "tsan" else "tsan", "gnu++14") for c in pbcc]
        sup.append(obj(os.path.join(REPO, "3rd_party/base64/src/base64.cpp"), flavor, "gnu++11"))
        sup.append(obj(os.path.join(VERIF, "shim/opentracing_shim.cpp"), flavor, "gnu++17"))
        sa = os.path.join(OUT, flavor, "support.a")
        L.append("build %s: ar %s" % (esc(sa), " ".join(map(esc, sup))))
        full = None
        for p in [q for q in programs if q["flavor"] == flavor]:
            hs = [os.path.join(VERIF, "harness", s) for s in p["srcs"]]
            hobj = [obj(h, flavor, "gnu++17", p.get("flags", "")) for h in hs]
            if p.get("full"):
                if full is None:
                    full = [obj(s, flavor, "gnu++11") for s in all_sources()]
                robj = full
            else:
                robj = [obj(s, flavor, "gnu++11") for s in closure(hs)]
            ra = os.path.join(OUT, flavor, p["name"] + ".repo.a")
            L.append("build %s: ar %s" % (esc(ra), " ".join(map(esc, robj))))
            exe = os.path.join(OUT, flavor, p["name"])
            L.append("build %s: link %s %s %s\n  flags = %s -pthread %s\n  libs = %s %s" % (
                esc(exe), " ".join(map(esc, hobj)), esc(ra), esc(sa), FLAVORS[flavor], "-rdynamic", LIBS, p.get("libs", "")))
            targets.append(exe)
            result[(p["name"], flavor)] = exe
    nf = os.path.join(OUT, "build.ninja")
    open(nf, "w").write("\n".join(L) + "\n")
    for f in sorted({p["flavor"] for p in programs}) + ["plain"]:
        os.makedirs(os.path.join(OUT, f, "obj"), exist_ok=True)
    drop_stale(nf)
    run(["ninja", "-f", nf, "-j", str(jobs or os.cpu_count() or 8)] + targets)
    return result


if __name__ == "__main__":
    for s in closure([os.path.join(VERIF, "harness", a) for a in sys.argv[1:]]):
        print(s)
