"""The checks: which specification runs decide which property, and how deep."""
import json, os, subprocess

from . import build, engine, tlc

# ----------------------------------------------------------------- harnesses
build.harness("graph", ["graph.cpp"], "asan", True, False)
build.harness("large", ["large.cpp"], "asan", True, False)
build.harness("store", ["store.cpp"], "asan", True, False)
build.harness("leaf", ["leaf.cpp"], "asan", True, False)
build.harness("cache", ["cache.cpp"], "asan", False, False)
build.harness("cachefree", ["cachefree.cpp"], "tsan", False, False)
build.harness("cachefree0", ["cachefree.cpp"], "asan", False, False)

HARNESS_OF = {}
CHECKS = {}


def check(prop, *harnesses):
    def deco(f):
        CHECKS[prop] = f
        HARNESS_OF[prop] = list(harnesses)
        return f
    return deco


# --------------------------------------------------------------------- graph
SHAPES = "={<<1>>, <<2>>, <<3>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<2, 1, 2>>}"
UN = {"neg", "pos", "sin", "cos", "tan", "exp", "sqrt", "log", "round", "identity", "pow", "clip_val", "csc", "sec", "cot", "as_constant"}
BIN = {"add", "sub", "mul", "div", "lt", "gt", "eq", "neq"}
SCAL = {"addl", "addr", "subl", "subr", "mull", "mulr", "divl", "divr", "ltl", "ltr", "gtl", "gtr", "eql", "eqr", "neql", "neqr"}
TRANS = {"transpose", "extend", "sum", "max", "mean", "argmax", "flip", "fit", "matmul", "fold", "foldu", "argf", "argfu"}
AXIAL = {"add_a", "add_b", "sub_a", "sub_b", "mul_a", "mul_b", "div_a", "div_b"}
CONV = {"cross", "conv"}
NORM = {"clip_norm"}
LEAVES = {"var", "var0", "ph", "const", "const1"}


def kinds(**w):
    return "=<<" + ", ".join('"%s"' % k for k, n in w.items() for _ in range(n)) + ">>"


def graph_consts(k, steps=26, nodes=14, shapes=SHAPES, un=UN, bi=BIN, scal=SCAL, trans=TRANS | AXIAL | CONV | NORM,
                 leaves=LEAVES, first=3, wide=False, pos=False, mode="one"):
    return dict(Mode=mode, MaxSteps=steps, MaxNodes=nodes, Shapes=shapes, Kinds=k, UnOps=set(un), BinOps=set(bi),
                ScalOps=set(scal), TransOps=set(trans), LeafKinds=set(leaves), FirstLeaves=first, Wide=wide, Positive=pos)


GRAPH_INV = ["TypeOK", "Consistent", "ShapesRight", "ThawCurrent", "Owned"]
GRAPH_PROP = ["FrozenStay", "NoTwins", "OnlyDependents"]


def graph_mc(c, k, steps, nodes, un=("neg",), bi=("add",), scal=("addl",), trans=("sum",), leaves=("var", "ph", "const")):
    c.model("GraphMC", graph_consts(k, steps, nodes, "={<<1>>}", un, bi, scal, trans, leaves, 2, mode="all"),
            label="Graph (exhaustive)", invariants=GRAPH_INV, properties=GRAPH_PROP, view="MCView", workers=4)


def graph_sim(c, k, quick, thorough, seed0=0, label="Graph", steps=26, **kw):
    shards, n = quick if c.quick else thorough
    c.replay("graph", "Graph", graph_consts(k, steps, **kw), n=n, shards=shards, depth=steps + 2, seed0=seed0,
             label=label, extra_invariants=["TypeOK", "Owned"])


QUICK, THOROUGH = (12, 700), (64, 3000)


@check("C01", "graph")
def c01(c):
    graph_mc(c, kinds(leaf=1, un=1, bin=1, assignv=1, prep=1, run=1, notify=1), 4 if c.quick else 6, 5)
    graph_sim(c, kinds(leaf=2, un=2, bin=3, scal=1, trans=2, eval=3, shape=1, init=1, ph=3, assignv=3, assignn=2, prep=1,
                       run=2, notify=1, delete=1, drop=1, clone=1, freeze=1, thaw=2), QUICK, THOROUGH, steps=30, nodes=16)
    graph_sim(c, kinds(un=1, bin=4, eval=3, ph=2, assignv=4, assignn=2, run=1, prep=1, notify=1), (4, 700), (32, 3000), seed0=1,
              label="Graph (deep)", steps=34, nodes=12, shapes="={<<1>>, <<2>>}", un={"neg", "exp", "identity"},
              bi={"add", "mul", "sub"}, leaves={"var", "ph", "var0"})


@check("C02", "graph")
def c02(c):
    graph_mc(c, kinds(leaf=1, un=1, bin=1, assignv=1, freeze=1, thaw=1, clone=1, delete=1), 6 if c.quick else 7, 4)
    graph_sim(c, kinds(leaf=1, un=2, bin=3, scal=1, trans=2, eval=4, shape=1, init=1, ph=2, assignv=3, assignn=2, prep=1,
                       run=2, notify=1, freeze=3, thaw=3, clone=1, delete=1, drop=1), QUICK, THOROUGH, steps=34, leaves={"var", "ph", "var0", "const"})


@check("C03", "graph")
def c03(c):
    smooth = dict(un={"neg", "pos", "sin", "cos", "tan", "csc", "sec", "cot", "exp", "sqrt", "log", "pow", "identity", "as_constant"},
                  bi={"add", "sub", "mul", "div"}, scal={"addl", "addr", "subl", "subr", "mull", "mulr", "divl", "divr"})
    graph_mc(c, kinds(leaf=1, un=1, bin=1, derive=1, assignv=1), 4 if c.quick else 6, 5, un=("neg", "exp"), bi=("add", "mul"))
    graph_sim(c, kinds(leaf=1, un=3, bin=5, scal=2, trans=1, derive=3, gradeval=4, assignv=2, eval=1), (5, 500), (32, 3000), steps=28, nodes=18,
              shapes="={<<2>>, <<2, 2>>, <<3>>, <<2, 1, 2>>}", first=2, trans={"sum"}, leaves={"var", "const", "ph", "const1"}, **smooth)
    graph_sim(c, kinds(un=5, bin=4, scal=2, derive=3, gradeval=3, assignv=3), (4, 500), (32, 3000), seed0=3, label="Graph (positive contents)", steps=22, nodes=14, pos=True,
              shapes="={<<2>>, <<2, 2>>}", first=2, leaves={"var", "ph"}, un={"log", "sqrt", "exp", "pow", "as_constant"}, bi={"add", "mul", "div"}, scal={"mull", "divl", "addr", "divr"})
    layer = dict(un={"sin", "exp", "pow", "neg", "identity", "as_constant"}, bi={"add", "sub", "mul", "div"}, scal={"subl", "mulr", "divr", "addl"})
    mats = "={<<2>>, <<3>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<2, 1>>, <<1, 2>>, <<2, 3, 2>>, <<3, 2, 2>>, <<2, 2, 2>>}"
    k = kinds(un=2, bin=3, scal=1, trans=4, derive=3, gradeval=4, assignv=1)
    graph_sim(c, k, (5, 500), (32, 3000), seed0=1, label="Graph (layers)", steps=26, nodes=18, first=5, shapes=mats,
              trans={"matmul", "transpose", "sum"}, leaves={"var", "const"}, **layer)
    graph_sim(c, k, (5, 500), (32, 3000), seed0=2, label="Graph (biases)", steps=26, nodes=18, first=5,
              shapes="={<<2>>, <<3>>, <<2, 3>>, <<3, 2>>, <<3, 3>>, <<2, 2>>}", trans={"matmul"} | AXIAL, leaves={"var", "const"}, **layer)


@check("C04", "graph")
def c04(c):
    graph_mc(c, kinds(leaf=1, un=1, bin=1, scal=1, trans=1, delete=1), 4 if c.quick else 6, 5)
    small = "={<<1>>, <<2>>, <<2, 2>>}"
    graph_sim(c, kinds(leaf=1, un=2, bin=3, scal=4, trans=3, eval=1, assignv=1, ph=1, clone=1, delete=1, drop=1), (8, 700), (32, 3000),
              steps=34, nodes=22, shapes=small)
    graph_sim(c, kinds(un=1, scal=5, bin=1, eval=1, assignv=1), (4, 700), (24, 3000), seed0=1, label="Graph (near-equal scalars)",
              steps=28, nodes=20, shapes=small, wide=True, leaves={"var", "var0", "ph"}, first=2)
    graph_sim(c, kinds(un=5, scal=3, trans=2, bin=1, eval=1, assignv=1), (4, 500), (24, 3000), seed0=3, label="Graph (near-equal parameters)", steps=28, nodes=20,
              shapes=small, wide=True, leaves={"var", "var0", "ph"}, first=2, un={"pow", "clip_val", "neg"}, scal={"mull", "addr"}, trans=NORM)
    graph_sim(c, kinds(trans=5, scal=3, un=2, eval=1), (4, 700), (24, 3000), seed0=2, label="Graph (parameters)",
              steps=30, nodes=24, shapes="={<<2, 2>>, <<2, 2, 2>>}", leaves={"var", "ph"}, first=2)


@check("C05", "graph")
def c05(c):
    graph_mc(c, kinds(leaf=1, un=1, bin=1, scal=1), 4 if c.quick else 6, 5, un=("neg", "pow"), bi=("add", "mul"),
             scal=("mull", "addr"), leaves=("var", "const"))
    graph_sim(c, kinds(leaf=3, un=3, bin=4, scal=4, trans=2, eval=1, assignv=1), (8, 700), (32, 3000), steps=28, nodes=20,
              leaves={"const", "const1", "var"})
    graph_sim(c, kinds(leaf=1, un=2, bin=4, scal=4, eval=1, ph=1), (8, 700), (32, 3000), seed0=1, label="Graph (constants)",
              steps=28, nodes=20, leaves={"const1", "const", "ph"}, shapes="={<<1>>, <<2>>, <<1, 1>>, <<2, 2>>}")


@check("C06", "graph")
def c06(c):
    graph_mc(c, kinds(leaf=1, un=1, bin=1, clone=1, delete=1, drop=1), 4 if c.quick else 6, 5)
    graph_sim(c, kinds(leaf=3, un=2, bin=4, scal=2, trans=2, eval=2, assignv=2, ph=1, notify=1, delete=4, drop=3, clone=2, handle=4, derive=1, leaves=1),
              QUICK, THOROUGH, steps=36, nodes=20)


@check("C13", "graph")
def c13(c):
    graph_mc(c, kinds(leaf=1, un=1, bin=1, clone=1, assignv=1, delete=1), 4 if c.quick else 6, 5)
    graph_sim(c, kinds(leaf=1, un=2, bin=3, scal=1, trans=2, eval=3, assignv=3, assignn=1, ph=2, init=1, clone=5, delete=1, drop=1,
                       freeze=1, thaw=1, leaves=1), QUICK, THOROUGH, steps=34, nodes=18)
    graph_sim(c, kinds(un=1, bin=2, trans=3, clone=4, derive=3, gradeval=4, assignv=1, delete=2), (5, 500), (32, 3000), seed0=1, label="Graph (differentiated copies)",
              steps=30, nodes=18, first=4, shapes="={<<2>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<1>>}", trans={"matmul", "sum", "add_b", "mul_a", "sub_a", "div_b"},
              leaves={"var", "const"}, un={"sin", "pow", "neg", "as_constant"}, bi={"add", "mul"})
    graph_sim(c, kinds(un=1, trans=5, clone=4, derive=4, gradeval=1, assignv=1, delete=2), (3, 800), (24, 3000), seed0=2, label="Graph (copies of stacked layers)",
              steps=16, nodes=14, first=2, shapes="={<<2, 2>>}", trans={"matmul"}, leaves={"var"}, un={"sin"})


@check("C16", "graph", "large")
def c16(c):
    large = dict(Mode="one", MaxSteps=3, Dims={1, 2, 3, 16, 100, 255, 256, 257, 258, 300, 385, 511, 513, 520}, Limit=45000000, Batches={1, 2}, Samples=6)
    c.replay("large", "Large", large, n=8 if c.quick else 60, shards=8 if c.quick else 40, depth=5, label="Large")
    c.replay("large", "Large", dict(large, Dims={1, 2, 3, 4}, Batches={1, 2, 3}), n=200, shards=1, depth=5, seed0=1, label="Large (small)", extra_invariants=["Agrees"])
    more = "={<<1>>, <<2>>, <<3>>, <<4>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<1, 3>>, <<3, 1>>, <<3, 3>>, <<4, 3>>, <<2, 1, 2>>, <<2, 2, 2>>, <<3, 2, 2>>, <<2, 3, 2>>}"
    graph_mc(c, kinds(leaf=1, un=1, bin=1, trans=1), 4 if c.quick else 5, 5, trans=("sum", "transpose", "matmul", "flip", "fit"))
    graph_sim(c, kinds(leaf=2, un=1, bin=1, trans=4), (8, 600), (48, 3000), steps=24, nodes=24, shapes=more, first=4,
              trans=TRANS, leaves={"var", "ph", "const"})
    graph_sim(c, kinds(leaf=2, trans=3, ph=1), (6, 600), (32, 3000), seed0=1, label="Graph (axial, convolution)", steps=24,
              nodes=24, shapes=more, first=5, trans=AXIAL | CONV | {"matmul"} | NORM, leaves={"var", "ph"})
    graph_sim(c, kinds(leaf=1, un=3, bin=3, scal=3, assignv=1), (4, 600), (32, 3000), seed0=2, label="Graph (elementwise)", steps=24,
              nodes=24, leaves={"var", "ph", "const"})


# ---------------------------------------------------------- shapes and tensors
def shapes_upto(rank, ext):
    return "={<<>>} \\cup UNION {[1..k -> {%s}] : k \\in 1..%d}" % (", ".join(map(str, ext)), rank)


STORE_KINDS = dict(new=3, fill=4, const=1, plus=2, setshape=4, alloc=2, allocs=3, dealloc=1, copyfrom=3, copy=2, move=1, drop=1, proto=2, ask=4)


def store_consts(mode="one", steps=26, slots=(1, 2, 3), pool=None, ids=(0,), **w):
    return dict(Mode=mode, MaxSteps=steps, Slots=set(slots), Allocs=set(ids), ShapePool=pool or shapes_upto(3, (0, 1, 2, 3)), Kinds=kinds(**(w or STORE_KINDS)))


@check("C07", "store")
def c07(c):
    c.model("Store", store_consts("all", 3 if c.quick else 4, (1, 2), "={<<>>, <<1>>, <<2>>, <<0>>, <<2, 0>>, <<2, 1>>}", new=1, fill=1, setshape=1,
            allocs=1, copy=1, move=1, copyfrom=1, dealloc=1), label="Store (exhaustive)", invariants=["TypeOK", "WithinAllowed"],
            properties=["Isolation", "NoInvention"], view="view", workers=4)
    shards, n = (8, 1200) if c.quick else (48, 4000)
    c.replay("store", "Store", store_consts(), n=n, shards=shards, depth=28, label="Store", extra_invariants=["TypeOK", "WithinAllowed"])
    c.replay("store", "Store", store_consts(steps=30, slots=(1, 2), new=2, fill=4, setshape=6, allocs=3, ask=2, proto=1, copy=1, copyfrom=2), n=n,
             shards=shards // 2, seed0=1, depth=32, label="Store (reshaping)", extra_invariants=["TypeOK", "WithinAllowed"])


MEM_INV = ["TypeOK", "WithinAllowed", "Registered"]


@check("C23", "store")
def c23(c):
    c.model("Store", store_consts("all", 5 if c.quick else 6, (1, 2), "={<<>>, <<2>>, <<2, 1>>}", (0, 1), new=1, reg=1, setshape=1, copy=1, move=1, copyfrom=1,
            dealloc=1, drop=1, proto=1), label="Store (exhaustive)", invariants=MEM_INV, properties=["Isolation", "KeepsAllocator"], view="view", workers=4)
    shards, n = (8, 1000) if c.quick else (48, 4000)
    c.replay("store", "Store", store_consts(steps=28, ids=(0, 1, 2, 3), reg=3, new=4, fill=1, setshape=4, alloc=2, allocs=3, dealloc=1, copyfrom=3, copy=4,
             move=3, drop=1, proto=4), n=n, shards=shards, depth=30, seed0=3, label="Store (allocators)", extra_invariants=MEM_INV)


@check("C08", "store")
def c08(c):
    laws = ["Symmetric", "Reflexive", "RoundTrip", "Inside", "Idempotent", "PaddingKeeps", "MergeMore", "MergeCompat", "CatElems", "FullElems", "SameCount"]
    c.replay("store", "ShapeAlg", dict(Mode="all", MaxRank=3 if c.quick else 4, PairRank=3, Extents={0, 1, 2, 3}), label="ShapeAlg", extra_invariants=laws)
    c.replay("store", "ShapeAlg", dict(Mode="all", MaxRank=4 if c.quick else 5, PairRank=2, Extents="={0, 1, 4}"), label="ShapeAlg (higher rank)", extra_invariants=laws)
    c.replay("store", "ShapeWide", dict(Mode="all", MaxRank=3 if c.quick else 4, Exponents={0, 1, 5, 16, 20, 31}, MaxBits=62), label="ShapeWide", extra_invariants=["Agrees"])
    if not c.quick:
        c.replay("store", "ShapeAlg", dict(Mode="all", MaxRank=5, PairRank=5, Extents="={0, 1, 2}"), label="ShapeAlg (rank 5)", extra_invariants=laws)


# -------------------------------------------------------------------- leaves
LEAF_KINDS = dict(newvar=3, newph=3, newconst=2, setinit=1, init=2, inits=3, assign=3, data=4, tensor=3, copy=2, copyto=1, move=1, moveto=1, node=4, eval=4)


def leaf_consts(mode="one", steps=26, leaves=5, nodes=5, pool=None, **w):
    return dict(Mode=mode, MaxSteps=steps, NLeaves=leaves, NNodes=nodes, ShapePool=pool or shapes_upto(2, (0, 1, 2, 3)) + " \\cup {<<2, 0, 2>>, <<0, 2, 0>>, <<2, 1, 2>>}",
                Kinds=kinds(**(w or LEAF_KINDS)))


LEAF_INV = ["TypeOK", "Allowed"]


@check("C15", "leaf")
def c15(c):
    c.model("Leaf", leaf_consts("all", 3 if c.quick else 4, 2, 1, "={<<>>, <<2>>, <<0>>}", newvar=1, newph=1, data=1, inits=1, copyto=1, node=1),
            label="Leaf (exhaustive)", invariants=LEAF_INV, properties=["Stays", "Rejected", "Others"], view="view", workers=4)
    shards, n = (8, 1200) if c.quick else (48, 4000)
    c.replay("leaf", "Leaf", leaf_consts(), n=n, shards=shards, depth=28, label="Leaf", extra_invariants=LEAF_INV)
    c.replay("leaf", "Leaf", leaf_consts(steps=30, leaves=3, newvar=3, newph=2, setinit=2, init=3, inits=5, assign=1, data=3, tensor=1), n=n, shards=shards // 2, seed0=1,
             depth=32, label="Leaf (shapes)", extra_invariants=LEAF_INV)


@check("C17", "leaf")
def c17(c):
    c.model("Leaf", leaf_consts("all", 4 if c.quick else 5, 2, 1, "={<<2>>, <<1>>}", newph=1, tensor=1, node=1, bad=1, eval=1),
            label="Leaf (exhaustive)", invariants=LEAF_INV, properties=["Stays", "Rejected", "Others"], view="view", workers=4)
    shards, n = (8, 1200) if c.quick else (48, 4000)
    c.replay("leaf", "Leaf", leaf_consts(steps=32, leaves=4, nodes=6, pool="={<<2>>, <<3>>, <<2, 2>>, <<1>>, <<0>>, <<2, 0>>, <<2, 2, 2>>, <<2, 2, 3>>, <<2, 1, 2>>}", newvar=2, newph=3, init=2, inits=3, assign=3, data=3,
                                         tensor=6, copyto=2, node=5, eval=6, bad=3), n=n, shards=shards, depth=34, label="Leaf (failures)", extra_invariants=LEAF_INV)


# ------------------------------------------------- producer and consumer feed
@check("C12", "cache", "cachefree", "cachefree0")
def c12(c):
    ks = dict(add=4, get=6, escape=1)
    c.model("Cache", dict(Mode="all", MaxSteps=8 if c.quick else 10, Keys={1, 2}, Consumers={1, 2}, Kinds=kinds(add=1, get=1, escape=1)), label="Cache (exhaustive)",
            invariants=["WaitOnlyWhenDone", "NewestLives"], properties=["Forward"], view="view")
    c.model("CacheList", dict(MaxNodes=5 if c.quick else 7, Keys={1, 2, 3}, Consumers={1, 2}), label="CacheList (exhaustive)", invariants=["ListOK"], properties=["Refines"], workers=4)
    c.replay("cache", "Cache", dict(Mode="all", MaxSteps=7 if c.quick else 9, Keys={1, 2}, Consumers={1}, Kinds=kinds(add=1, get=1, escape=1)), label="Cache (all short behaviours)",
             extra_invariants=["WaitOnlyWhenDone"], workers=4)
    for k, (nk, nc) in enumerate(((3, 2), (2, 3), (5, 4))):
        c.replay("cache", "Cache", dict(Mode="one", MaxSteps=40, Keys=set(range(1, nk + 1)), Consumers=set(range(1, nc + 1)), Kinds=kinds(**ks)), n=500 if c.quick else 5000,
                 shards=2, seed0=k, depth=42, label=f"Cache ({nk} keys, {nc} consumers)", extra_invariants=["WaitOnlyWhenDone", "NewestLives"])
    for k in range(4 if c.quick else 32):
        c.task(cache_free, c, 1000 * c.seed + k, 150 if c.quick else 600)


def cache_free(c, seed, runs):
    """records free-running executions and has TLC explain them"""
    label = "free-running feed"
    env = dict(os.environ, TSAN_OPTIONS="halt_on_error=1:exitcode=66")
    def go(exe):
        return subprocess.run(["timeout", "-k", "5", "600"] + exe + [str(seed), str(runs)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    # ThreadSanitizer wants a fixed address layout; where it cannot run the same executions are recorded without it
    for exe in (["setarch", "-R", c.bins["cachefree"]], [c.bins["cachefree"]], [c.bins["cachefree0"]]):
        p = go(exe)
        if p.stdout or not any(w in p.stderr for w in (b"unexpected memory mapping", b"setarch:", b"personality")):
            break
    lines = [json.loads(l) for l in p.stdout.decode().splitlines()]
    bad = [l for l in lines if "stuck" in l]
    beh = dict(seed=seed, runs=runs)
    if bad:
        c.fail("cachefree0", label, f"{bad[0]['stuck']} consumers never get the last entry (run {bad[0]['run']} of seed {seed})", [beh], confirmed=True)
        return
    if p.returncode != 0 or not lines or "runs" not in lines[-1]:
        err = p.stderr.decode(errors="replace")
        c.fail("cachefree0", label, f"execution ends with status {p.returncode} (seed {seed}): {err[:600]}", [beh], kind="crash", confirmed=True)
        return
    traces = lines[:-1]
    path = os.path.join(engine.OUT, f"{c.prop}-trace-{seed}-{os.getpid()}.json")
    with open(path, "w") as f:
        json.dump(traces, f)
    ok = set()
    r = tlc.run("CacheTrace", dict(TraceFile=path), invariants=["Accepted"], sink=lambda t, js: ok.add(int(js)) if t == "A" else None)
    os.remove(path)
    for i, t in enumerate(traces):
        if i + 1 not in ok:
            c.fail("cachefree0", label, f"no behaviour of the feed explains what a consumer received (seed {seed}): {json.dumps(t)}", [dict(beh, trace=t)], confirmed=True)
            break
    with c.cov.lock:
        c.cov.traces += len(traces)
        c.cov.checks += sum(len(t["got"]) for t in traces)
        c.cov.mc_states += r.distinct
        c.cov.mc_trans += r.generated
        c.cov.parts.append({"trace": label, "behaviours": len(traces), "spec_states": r.distinct})


# ---------------------------------------------------------- stoppable threads
build.harness("stop", ["stop.cpp"], "asan", True, False)
STOP_INV = ["TypeOK", "AskedEnds", "NoneUnasked"]
STOP_PROP = ["OnlyOwn", "HoldsOn"]


def stop_consts(mode, steps, nh, nw, wk=("wait", "poll", "work", "late", "check"), **w):
    return dict(Mode=mode, MaxSteps=steps, NH=nh, NW=nw, Kinds=kinds(**(w or dict(new=1, start=5, stop=6, race=3, release=4, join=2, detach=2, destroy=3, move=2, moveto=2))), WKinds=set(wk))


@check("C19", "stop")
def c19(c):
    one = dict(new=1, start=1, stop=1, race=1, release=1, join=1, detach=1, destroy=1, move=1, moveto=1)
    c.model("Stop", stop_consts("all", 5 if c.quick else 7, 2, 2, **one), label="Stop (exhaustive)", invariants=STOP_INV, properties=STOP_PROP, view="view", workers=4)
    c.model("StopImpl", dict(Workers={1, 2}, Locked=True), label="StopImpl (exhaustive)", invariants=["NoneUnasked"], properties=["AskedEnds", "Refines"], workers=2)
    c.replay("stop", "Stop", stop_consts("all", 4 if c.quick else 5, 2, 2, wk=("wait", "late", "check"), **dict(one, new=0)), label="Stop (all short behaviours)", extra_invariants=STOP_INV, workers=4)
    shards, n = (6, 150) if c.quick else (32, 600)
    c.replay("stop", "Stop", stop_consts("one", 30, 4, 8), n=n, shards=shards, depth=32, label="Stop", extra_invariants=STOP_INV)
    c.replay("stop", "Stop", stop_consts("one", 40, 2, 14, wk=("late", "work", "wait"), start=5, stop=3, race=3, release=4, join=2, detach=1, destroy=3, move=1), n=n, shards=shards // 2, depth=42,
             seed0=1, label="Stop (one after another)", extra_invariants=STOP_INV)


# ------------------------------------------------------ producers and consumers
build.harness("observe", ["observe.cpp"], "asan", True, False)
OBS_INV = ["TypeOK", "NoneGone", "Loopless"]
OBS_PROP = ["Keeps", "Reasons", "Frame"]
OK_ALL = ("src", "tmp", "snk", "brk", "once", "node", "node", "link", "gen")


def observe_consts(mode, steps, no, deps=3, ok=OK_ALL, **w):
    return dict(Mode=mode, MaxSteps=steps, NO=no, MaxDeps=deps, OKinds="=<<" + ", ".join(f'"{k}"' for k in ok) + ">>",
                Kinds=kinds(**(w or {"new": 6, "add": 2, "remove": 2, "replace": 3, "tie": 2, "untie": 1, "destroy": 2, "steal": 1, "copy": 2, "move": 1,
                                     "assign": 2, "moveto": 2, "notify": 3, "break": 1})))


@check("C20", "observe")
def c20(c):
    one = dict(new=1, add=1, remove=1, replace=1, tie=1, untie=1, destroy=1, steal=1, copy=1, move=1, assign=1, moveto=1, notify=1, **{"break": 1})
    c.model("Observe", observe_consts("all", 4 if c.quick else 5, 3, 2, ("tmp", "snk", "node"), **one), label="Observe (exhaustive)", invariants=OBS_INV, properties=OBS_PROP, view="view", workers=4)
    shards, n = (8, 900) if c.quick else (40, 5000)
    c.replay("observe", "Observe", observe_consts("one", 30, 10), n=n, shards=shards, depth=32, label="Observe", extra_invariants=OBS_INV)


# -------------------------------------------------------------- generated nodes
build.harness("gen", ["gen.cpp"], "asan", True, False)
GEN_INV = ["TypeOK", "Loopless", "Follows"]
GEN_PROP = ["Lasting", "Used"]


def gen_consts(mode, steps, no, **w):
    return dict(Mode=mode, MaxSteps=steps, NO=no, ShapePool="={<<1>>, <<2>>, <<2, 2>>, <<3, 2>>, <<2, 1, 2>>}" if mode == "one" else "={<<1>>, <<2>>}",
                Kinds=kinds(**(w or dict(ph=2, var=2, init=4, feed=5, gen=6, op=5, hold=2, drop=3, destroy=1, clone=2, move=2, assign=2, moveto=2))))


@check("C21", "gen")
def c21(c):
    one = dict(ph=1, var=1, init=1, feed=1, gen=1, op=1, hold=1, drop=1, destroy=1, clone=1, move=1, assign=1, moveto=1)
    c.model("Gen", gen_consts("all", 5 if c.quick else 6, 4, **one), label="Gen (exhaustive)", invariants=GEN_INV, properties=GEN_PROP, view="view", workers=4)
    shards, n = (8, 700) if c.quick else (40, 4000)
    c.replay("gen", "Gen", gen_consts("one", 28, 12), n=n, shards=shards, depth=30, label="Gen", extra_invariants=GEN_INV)


# ------------------------------------------------------------- the recorded graph
build.harness("record", ["observe.cpp"], "rcd", True, False)
build.harness("recordcsv", ["gen.cpp"], "rcd", True, False)


@check("C22", "record", "recordcsv")
def c22(c):
    one = dict(new=1, add=1, remove=1, replace=1, tie=1, untie=1, destroy=1, steal=1, copy=1, move=1, assign=1, moveto=1, notify=1, **{"break": 1})
    c.model("Observe", observe_consts("all", 4 if c.quick else 5, 3, 2, ("src", "snk", "gen"), **one), label="Observe (exhaustive)", invariants=OBS_INV, properties=OBS_PROP, view="view", workers=4)
    shards, n = (8, 400) if c.quick else (40, 2500)
    c.replay("record", "Observe", observe_consts("one", 30, 10), n=n, shards=shards, depth=32, seed0=7, label="Observe (recorded)", extra_invariants=OBS_INV)
    c.replay("recordcsv", "Gen", gen_consts("one", 28, 12), n=n, shards=shards, depth=30, seed0=8, label="Gen (written)", extra_invariants=GEN_INV)


# ------------------------------------------------------- viewers of the recorded graph
build.harness("viewer", ["observe.cpp"], "rpc", True, False)
VIEW_INV = ["Sees", "NotDue", "Honest", "Records"]


def viewer_consts(mode, steps, no, views, deps=3, ok=OK_ALL, **w):
    w = w or {"new": 6, "add": 2, "remove": 2, "replace": 3, "destroy": 2, "steal": 1, "copy": 2, "move": 1, "assign": 2, "moveto": 1, "notify": 4, "tie": 1,
              "break": 1, "view": 3, "leave": 2, "settle": 5, "stop": 2}
    return dict(observe_consts(mode, steps, no, deps, ok, **w), MaxViews=views)


@check("C24", "viewer")
def c24(c):
    one = dict(new=1, add=1, remove=1, replace=1, destroy=1, move=1, notify=1, view=1, leave=1, settle=1, stop=1)
    c.model("Viewer", viewer_consts("all", 4 if c.quick else 5, 2, 2, 1, ("src", "snk"), **one), label="Viewer (exhaustive)", spec="VSpec", invariants=VIEW_INV, view="vview", workers=4)
    c.model("Viewer", viewer_consts("all", 4, 2, 1, 1, ("src", "snk"), new=1, remove=1, notify=1, view=1, leave=1), label="Viewer (everyone is told)", spec="VSpec", properties=["Informed"], workers=2)
    shards, n = (8, 150) if c.quick else (40, 1500)
    c.replay("viewer", "Viewer", viewer_consts("one", 34, 9, 3), n=n, shards=shards, depth=36, label="Viewer", spec="VSpec", extra_invariants=VIEW_INV)


# -------------------------------------------------------- layers, models, networks
build.harness("net", ["net.cpp"], "asan", True, True)
L_ = lambda o, f: f'[o |-> {o}, f |-> "{f}"]'


def arch(n, *ls):
    return f"[n |-> {n}, l |-> <<{', '.join(L_(o, f) for o, f in ls)}>>]"


ARCHS = [arch(2, (2, "id")), arch(2, (3, "sig"), (2, "sig")), arch(3, (2, "tanh"), (1, "id")), arch(1, (2, "sig"), (3, "tanh"), (2, "id")),
         arch(2, (2, "sig")), arch(3, (1, "sig")), arch(2, (2, "tanh"), (2, "sig"))]
VGB = ['[k |-> "vgb", r |-> <<1, 16>>, d |-> <<0, 1>>]', '[k |-> "vgb", r |-> <<1, 10>>, d |-> <<0, 1>>]']
RMS = ['[k |-> "rms", r |-> <<1, 10>>, d |-> <<9, 10>>]', '[k |-> "rms", r |-> <<1, 4>>, d |-> <<1, 2>>]']


def qpar(ti, rp, dr, tr, ep, si, mb, mx):
    q = lambda x: f"<<{x[0]}, {x[1]}>>"
    return f"[ti |-> {ti}, rp |-> {q(rp)}, dr |-> {q(dr)}, tr |-> {q(tr)}, ep |-> {ep}, si |-> {si}, mb |-> {mb}, mx |-> {mx}]"


QPAR = [qpar(1, (0, 1), (9, 10), (1, 2), 1, 1, 1, 3), qpar(2, (1, 4), (1, 2), (1, 10), 20, 2, 2, 3), qpar(3, (1, 1), (1, 1), (1, 1), 10, 1, 3, 4),
        qpar(1, (1, 20), (19, 20), (1, 100), 60, 3, 2, 4)]


def seq(xs):
    return "=<<" + ", ".join(xs) + ">>"


def net_consts(mode="one", steps=30, nm=4, no=3, nf=2, archs=None, batches=(1, 2, 3), ups=None, params=None, first=(), long=False, **w):
    return dict(Long=long, Mode=mode, MaxSteps=steps, NM=nm, NO=no, NF=nf, Archs=seq(archs or ARCHS), Kinds=kinds(**w), Batches=set(batches), Updaters=seq(ups or VGB + RMS),
                Params=seq(params or QPAR), First="=<<" + ", ".join(f'"{x}"' for x in first) + ">>")


NET_INV = ["TypeOK", "Bounded"]
NET_PROP = ["Newest", "Apart", "Learning"]


def net_mc(c, steps, nm=2, nf=0, first=(), **kw):
    """every behaviour of a small instance, against what must hold of the specification itself"""
    steps += 0 if c.quick else 3
    c.model("Nets", net_consts("all", steps, nm=nm, no=1, nf=nf, archs=ARCHS[:1], batches=(1,), ups=VGB[:1], params=[qpar(1, (0, 1), (1, 1), (1, 2), 1, 2, 1, 2)], first=first, **kw),
            label="Nets (exhaustive)", invariants=NET_INV, properties=NET_PROP, workers=4, heap="6g")


def net_sim(c, n, shards=8, label="Nets", seed0=0, steps=30, **kw):
    if not c.quick:
        n, shards = n * 4, shards * 5
    c.replay("net", "Nets", net_consts(steps=steps, **kw), n=n, shards=shards, depth=steps + 2, label=label, seed0=seed0, extra_invariants=NET_INV)


@check("C09", "net")
def c09(c):
    net_mc(c, 7, nm=1, nf=1, mlp=1, init=1, save=1, harm=1, setw=1, clone=1, delete=1, first=("mlp", "init"))
    net_sim(c, 500, mlp=3, rbm=1, db=1, gd=1, dq=1, init=6, save=7, harm=3, setw=3, train=1, clone=1, delete=1, first=("mlp", "init"))


@check("C10", "net")
def c10(c):
    net_mc(c, 7, mlp=1, gd=1, init=1, train=1, run=1, clone=1, assign=1, move=1, massign=1, delete=1, first=("mlp", "gd", "init"))
    net_sim(c, 500, mlp=2, gd=2, init=2, train=10, run=3, setw=0, clone=1, move=1, assign=1, massign=1, delete=1, out=1, look=1, first=("mlp", "gd", "init"))
    net_sim(c, 60, label="Nets (fine-tuning)", seed0=1, nm=3, db=2, init=2, setw=3, settune=3, tune=8, out=1, look=2, clone=1, move=1, assign=1, massign=1, delete=1, batches=(1, 2),
            first=("db", "init", "settune", "tune"))


@check("C11", "net")
def c11(c):
    net_mc(c, 8, mlp=1, dq=1, init=1, store=1, qtrain=1, clone=1, move=1, massign=1, delete=1, first=("mlp", "dq", "init"))
    net_sim(c, 500, mlp=1, dq=1, init=2, store=8, qtrain=8, run=1, acts=2, clone=1, move=1, assign=1, massign=1, delete=1, steps=36,
            archs=[a for a in ARCHS], first=("mlp", "dq", "init"))


@check("C14", "net")
def c14(c):
    net_mc(c, 7, nm=2, rbm=1, init=1, setcd=1, cd=1, clone=1, move=1, delete=1, first=("rbm", "init", "setcd"))
    net_sim(c, 200, batches=(1, 2), rbm=3, db=2, init=3, setw=3, setbig=3, setcd=4, cd=12, rec=4, out=1, look=2, clone=1, move=1, assign=1, massign=1, delete=1,
            first=("rbm", "init", "setcd"))
    net_sim(c, 30, label="Nets (long chains)", seed0=1, steps=16, nm=1, archs=[arch(1, (1, "sig")), arch(2, (1, "sig")), arch(1, (2, "sig"))], batches=(1,), long=True, rbm=0, mid1=1, mid2=1, mid3=1, setcd=1, cd=4,
            first=("rbm", "init", "setcd", "mid1", "mid2", "mid3"))


@check("C18", "net")
def c18(c):
    net_mc(c, 6, nm=3, mlp=1, gd=1, init=1, out=1, look=1, clone=1, assign=1, move=1, massign=1, delete=1, self=1, first=("mlp", "init"))
    net_sim(c, 500, mlp=2, rbm=2, db=2, fc=2, conv=1, init=5, setw=5, out=6, look=8, clone=3, move=2, assign=3, massign=2, self=1, delete=2, gd=1, train=1, first=("mlp", "init"))
