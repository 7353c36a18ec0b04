"""Runs TLC: exhaustive model checking, and generation of behaviours."""
import json, os, re, shutil, subprocess, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar"


class TLCError(Exception):
    pass


def _classpath():
    d = os.path.dirname(JARS)
    jars = [JARS] + sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".jar") and f != os.path.basename(JARS))
    return ":".join(jars)


def cfg_text(consts, spec="Spec", invariants=(), properties=(), constraints=(), view=None, action_constraints=()):
    L = ["SPECIFICATION " + spec] if "\n" not in spec else [spec]
    if consts:
        L.append("CONSTANTS")
        for k, v in consts.items():
            L.append(f"  {k} <- {v[1:]}" if isinstance(v, str) and v.startswith("@") else f"  {k} = {tla(v)}")
    L += ["INVARIANT " + i for i in invariants]
    L += ["PROPERTY " + i for i in properties]
    L += ["CONSTRAINT " + i for i in constraints]
    L += ["ACTION_CONSTRAINT " + i for i in action_constraints]
    if view:
        L.append("VIEW " + view)
    L.append("CHECK_DEADLOCK FALSE")
    return "\n".join(L) + "\n"


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v[1:] if v.startswith("!") else '"' + v + '"'
    if isinstance(v, (list, tuple)):
        raise TLCError("sequences need '=' expressions")
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    raise TLCError(f"constant {v!r}")


def unescape(s):
    return s.replace('\\"', '"').replace("\\\\", "\\")


class Result:
    def __init__(self):
        self.lines = []      # (tag, object or raw json text)
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.violated = None  # name of a violated invariant/property of the MODEL
        self.out = ""


def run(module, consts, simulate=None, depth=None, seed=1, workers=1, invariants=(), properties=(),
        constraints=(), action_constraints=(), view=None, spec="Spec", timeout=600, heap="3g", parse=False, allow_violation=False,
        sink=None):
    """simulate: number of behaviours (None: exhaustive).  sink: callable(tag, jsontext)."""
    wd = tempfile.mkdtemp(prefix="verif_tlc_")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), wd)
        # constants whose value starts with "=" are TLA+ expressions
        defs = {k: v[1:] for k, v in consts.items() if isinstance(v, str) and v.startswith("=")}
        if defs:
            with open(os.path.join(wd, "RunDefs.tla"), "w") as f:
                f.write(f"---- MODULE RunDefs ----\nEXTENDS {module}\n" +
                        "".join(f"Def_{k} == {v}\n" for k, v in defs.items()) + "====\n")
            consts = {k: ("@Def_" + k if k in defs else v) for k, v in consts.items()}
            top = "RunDefs"
        else:
            top = module
        with open(os.path.join(wd, "M.cfg"), "w") as f:
            f.write(cfg_text(consts, spec, invariants, properties, constraints, view, action_constraints))
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + wd, "-cp", _classpath(), "tlc2.TLC"]
        if simulate is not None:
            cmd += ["-simulate", f"num={simulate}", "-depth", str(depth), "-seed", str(seed)]
        cmd += ["-workers", str(workers), "-metadir", os.path.join(wd, "states"), "-noGenerateSpecTE",
                "-config", "M.cfg", top + ".tla"]
        res = Result()
        p = subprocess.Popen(["timeout", "-k", "5", str(timeout)] + cmd, cwd=wd, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True, errors="replace")
        tail = []
        for line in p.stdout:
            line = line.rstrip("\n")
            if line.startswith('"@@'):
                body = unescape(line[3:-1])
                tag, js = body[0], body[1:]
                if sink:
                    sink(tag, js)
                else:
                    res.lines.append((tag, json.loads(js) if parse else js))
                continue
            tail.append(line)
            if len(tail) > 4000:
                del tail[:2000]
        rc = p.wait()
        res.out = "\n".join(tail)
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", res.out)
        if m:
            res.generated, res.distinct = (int(x.replace(",", "")) for x in m.groups())
        else:
            m = re.findall(r"([\d,]+) states checked", res.out) or re.findall(r"states generated: ([\d,]+)", res.out)
            if m:
                res.generated = int(m[-1].replace(",", ""))
        m = re.search(r"depth of the complete state graph search is (\d+)", res.out)
        if m:
            res.depth = int(m.group(1))
        m = re.search(r"(?:Invariant|Temporal properties|Action property|property) ?(\S*)[^\n]*(?:is|were) violated", res.out)
        if m:
            res.violated = m.group(1) or "temporal property"
            if not allow_violation:
                raise TLCError(f"{module}: the specification itself violates {res.violated}\n" + res.out[-3500:])
        elif rc == 124:
            raise TLCError(f"{module}: TLC exceeded {timeout} s")
        elif rc != 0:
            raise TLCError(f"{module}: TLC failed ({rc})\n" + res.out[:3500])
        return res
    finally:
        shutil.rmtree(wd, ignore_errors=True)
