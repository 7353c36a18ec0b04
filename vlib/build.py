"""Builds the harnesses of /verif/harness together with the sources of /repo's
current working tree.  The sources are mirrored by content into
/verif/build/src (a file is only rewritten when its bytes changed, so ninja's
timestamps follow contents, not checkout times), and compiled there: nothing is
written into /repo."""
import fcntl, filecmp, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

VARIANTS = {
    "plain": ("-O0 -g1", ""),
    "asan": ("-O0 -g1 -fsanitize=address -fno-omit-frame-pointer", "-fsanitize=address"),
    "tsan": ("-O1 -g1 -fsanitize=thread", "-fsanitize=thread"),
    "rpc": ("-O0 -g1 -DEDGE_RCD -DRPC_RCD -fsanitize=address", "-fsanitize=address"),
    "rcd": ("-O0 -g1 -DEDGE_RCD -DCSV_RCD -fsanitize=address", "-fsanitize=address"),
}

# harness name -> (sources in /verif/harness, variant, needs rocnnet?)
HARNESS = {}


def harness(name, srcs, variant="plain", lib=True, rocnnet=True):
    HARNESS[name] = (srcs, variant, lib, rocnnet)


class BuildError(Exception):
    pass


def _mirror(src, dst, keep):
    """copy src tree into dst by content; remove what is gone"""
    want = set()
    for root, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if keep(os.path.relpath(os.path.join(root, d), src), True)]
        rel = os.path.relpath(root, src)
        for f in files:
            r = os.path.normpath(os.path.join(rel, f))
            if not keep(r, False):
                continue
            want.add(r)
            s, d = os.path.join(src, r), os.path.join(dst, r)
            if os.path.islink(s) and not os.path.exists(s):
                continue
            if os.path.exists(d) and filecmp.cmp(s, d, shallow=False):
                continue
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copyfile(s, d)
    for root, dirs, files in os.walk(dst):
        for f in files:
            p = os.path.join(root, f)
            if os.path.relpath(p, dst) not in want:
                os.remove(p)


EXT = (".hpp", ".h", ".ipp", ".cpp", ".cc", ".proto", ".inl")


def _keep(rel, isdir):
    parts = rel.split(os.sep)
    if isdir:
        return parts[0] not in ("tests", "ext", "bin", "_build", "ipython") and "CMakeFiles" not in parts
    return rel.endswith(EXT)


def mirror():
    base = os.path.join(BUILD, "src")
    for sub in ("tenncor", "rocnnet"):
        _mirror(os.path.join(REPO, "app", sub), os.path.join(base, sub), _keep)
    _mirror(os.path.join(VERIF, "harness"), os.path.join(base, "harness"),
            lambda r, d: d or r.endswith(EXT))
    return base


def _find(d, ext):
    out = []
    for root, dirs, files in os.walk(d):
        for f in files:
            if f.endswith(ext):
                out.append(os.path.join(root, f))
    return sorted(out)


def write_ninja(base):
    t = os.path.join(base, "tenncor")
    r = os.path.join(base, "rocnnet")
    h = os.path.join(base, "harness")
    L = ["ninja_required_version = 1.3"]
    L.append("rule proto\n  command = protoc -I$pdir --cpp_out=$odir $in\n  description = PROTO $in")
    L.append("rule grpc\n  command = protoc -I$pdir --grpc_out=$odir --plugin=protoc-gen-grpc=$$(command -v grpc_cpp_plugin) $in\n  description = GRPC $in")
    L.append("rule cxx\n  command = g++ -std=c++14 -w $flags $inc -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $out")
    L.append("rule ar\n  command = rm -f $out && ar crs $out $in\n  description = AR $out")
    L.append("rule ld\n  command = g++ $flags $in $libs -o $out\n  description = LD $out")
    gen = os.path.join(BUILD, "gen", "proto")
    hdrs, psrc = [], []
    for p in _find(os.path.join(t, "proto"), ".proto"):
        n = os.path.basename(p)[:-6]
        hh, cc = (os.path.join(gen, n + s) for s in (".pb.h", ".pb.cc"))
        L.append(f"build {hh} {cc}: proto {p}\n  pdir = {os.path.dirname(p)}\n  odir = {gen}")
        hdrs.append(hh)
        psrc.append((cc, "pb"))
        if os.sep + "grpc" + os.sep in p:
            hh, cc = (os.path.join(gen, n + s) for s in (".grpc.pb.h", ".grpc.pb.cc"))
            L.append(f"build {hh} {cc}: grpc {p}\n  pdir = {os.path.dirname(p)}\n  odir = {gen}")
            hdrs.append(hh)
            psrc.append((cc, "grpc"))
    L.append(f"build protohdrs: phony {' '.join(hdrs)}")
    inc = f"-I{t}/include -I{r}/include -I{os.path.join(BUILD, 'gen')} -I{h}"
    variants = {v for (_, v, _, _) in HARNESS.values()}
    for v in sorted(variants):
        cf, lf = VARIANTS[v]
        od = os.path.join(BUILD, v)

        def cxx(src, obj, flags=cf):
            L.append(f"build {obj}: cxx {src} || protohdrs\n  flags = {flags}\n  inc = {inc}")
            return obj
        objs = []
        for s, kind in psrc:
            if kind == "grpc" and v not in ("rcd", "rpc"):
                continue
            objs.append(cxx(s, os.path.join(od, "proto", os.path.basename(s) + ".o")))
        for s in _find(os.path.join(t, "src"), (".cpp", ".cc")):
            objs.append(cxx(s, os.path.join(od, "tenncor", os.path.relpath(s, t) + ".o"), (cf if v != "rpc" or os.path.basename(s) != "grpc_vis_record.cpp" else
                             cf.replace(" -DRPC_RCD", "")) + " -DENABLE_STRASSEN"))  # the harness starts its own recorder
        tl = os.path.join(od, "libtenncor.a")
        L.append(f"build {tl}: ar {' '.join(objs)}")
        objs = []
        for s in _find(os.path.join(r, "src"), (".cpp", ".cc")):
            objs.append(cxx(s, os.path.join(od, "rocnnet", os.path.relpath(s, r) + ".o")))
        rl = os.path.join(od, "librocnnet.a")
        L.append(f"build {rl}: ar {' '.join(objs)}")
        for name, (srcs, hv, lib, roc) in HARNESS.items():
            if hv != v:
                continue
            hobjs = [cxx(os.path.join(h, s), os.path.join(od, "h", name, s + ".o"), cf + " -DENABLE_STRASSEN")
                     for s in srcs]
            exe = os.path.join(BUILD, "bin", name)
            deps = hobjs + ([rl] if roc else []) + ([tl] if lib else [])
            libs = ("-lprotobuf " if lib else "") + ("-lgrpc++ -lgrpc -lgpr -labsl_synchronization " if v in ("rcd", "rpc") else "") + "-lpthread"
            L.append(f"build {exe}: ld {' '.join(deps)}\n  flags = {lf}\n  libs = {libs}")
    txt = "\n".join(L) + "\n"
    nf = os.path.join(BUILD, "build.ninja")
    if not os.path.exists(nf) or open(nf).read() != txt:
        open(nf, "w").write(txt)
    return nf


def build(names=None, verbose=False, jobs=None):
    """build the named harnesses; returns {name: path}"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        base = mirror()
        write_ninja(base)
        names = list(names or HARNESS)
        targets = [os.path.join(BUILD, "bin", n) for n in names]
        cmd = ["ninja", "-C", BUILD, "-j", str(jobs or min(8, os.cpu_count() or 4))] + targets
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if verbose:
            print(p.stdout[-3000:])
        if p.returncode != 0:
            raise BuildError(p.stdout[-6000:])
    return {n: os.path.join(BUILD, "bin", n) for n in names}
