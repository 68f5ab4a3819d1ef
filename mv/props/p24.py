"""P24: results depend only on arguments (no mutation, history or thread effects)."""
from __future__ import annotations

import os
import pickle
import random
import subprocess
import sys

import numpy as np

from mv.props import p24_ops as O

TECHNIQUE = ("argument snapshots and write-protected arguments, an offline checker of "
             "recorded call histories against results of fresh processes, threaded "
             "executions with injected delays and forced context switches")
LEVEL_NOTE = (
    "Every public entry point as an operation; reference results come from one fresh "
    "process per call (random hash seeds); histories ruin every returned array and "
    "inject failing calls; threads start from a process with empty caches.  Schedules "
    "are sampled, not enumerated.")

RULE = ("one case per operation and argument selection, per call history or per set of "
        "threaded rounds; non-trivial if at least one result was compared with that of "
        "a fresh process.")
ASSUMPTIONS = [
    "operations are compared up to 1e-12 relative to the size of the result (BLAS may "
    "round differently for differently aligned arrays)",
    "arrays that are attributes of a rule or map object belong to that object; only "
    "results of calls are ruined"]
REQUIRED = ("arguments unchanged", "result does not alias arguments",
            "write-protected arguments", "repeated call", "call after ruining results",
            "history", "history other operations", "failing call in history",
            "global state", "concurrent calls", "concurrent calls shared objects",
            "threads finished", "results of fresh process", "caches after threads")


def _arrays(r):
    if isinstance(r, np.ndarray):
        yield r
    elif isinstance(r, (list, tuple)):
        for i in r:
            yield from _arrays(i)


def _global_state():
    import locale
    import warnings
    st = np.random.get_state()
    return {
        "modules": sum(not m.startswith("modepy") for m in sys.modules),
        "numpy random state": hash(st[1].tobytes()) ^ st[2],
        "python random state": hash(random.getstate()),
        "floating point errors": repr(np.geterr()),
        "print options": repr(sorted(np.get_printoptions().items(), key=str)),
        "warning filters": len(warnings.filters),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "environment": hash(frozenset(os.environ.items())),
        "locale": repr(locale.getlocale()),
        "directory": os.getcwd(),
    }


def _state_unchanged(t, before, what):
    after = _global_state()
    # other packages may change process-wide settings when first imported
    imported = before.pop("modules") != after.pop("modules")
    for key in before:
        t.true("global state", imported or before[key] == after[key],
               f"{what} changed the {key}")


def _want(name, k):
    return O.pristine([(name, k)], 1)[name, k]


def _check(t, mon, name, k, res, what=""):
    want = _want(name, k)
    d = O.same(res, want)
    t.true(mon, not d, lambda: f"{name}({k}) {what}: {d} (fresh process: "
           f"{str(want)[:120]})")


# {{{ one operation

def single(t, name, k):
    want = _want(name, k)
    t.true("results of fresh process", not (isinstance(want, str)
                                            and want.startswith("EXC")), want)
    before = _global_state()

    args, call = O.OPS[name](k)
    snap = O.snapshot(args)
    r = call()
    fr = O.freeze(r)
    _check(t, "repeated call", name, k, fr, "first call")
    t.true("arguments unchanged", O.snapshot(args) == snap,
           lambda: f"{name}({k}): {_diff(args, snap)} modified by the call")
    for i, a in enumerate(_arrays(r)):
        for kk, v in args.items():
            if isinstance(v, np.ndarray):
                t.true("result does not alias arguments", not np.shares_memory(a, v),
                       f"{name}({k}): result {i} shares memory with {kk}")

    # ruin what came back, repeat
    t.note(arrays_ruined=O.scribble(r))
    t.true("arguments unchanged", O.snapshot(args) == snap,
           lambda: f"{name}({k}): {_diff(args, snap)} changed with the result")
    r = call()
    _check(t, "call after ruining results", name, k, O.freeze(r), "same objects")
    O.scribble(r)
    args2, call2 = O.OPS[name](k)
    r = call2()
    _check(t, "call after ruining results", name, k, O.freeze(r), "new objects")
    O.scribble(r)

    # write-protected arguments
    args3, call3 = O.OPS[name](k)
    for v in args3.values():
        if isinstance(v, np.ndarray):
            v.setflags(write=False)
    try:
        r = O.freeze(call3())
    except Exception as e:
        t.fail("write-protected arguments", f"{name}({k}): {type(e).__name__}: {e}")
    else:
        _check(t, "write-protected arguments", name, k, r)

    _state_unchanged(t, before, f"{name}({k})")
    t.state(name, k)
    t.show(operation=name, arguments=k, watched=sorted(args))


def _diff(args, snap):
    now = O.snapshot(args)
    return [k for k in snap if snap[k] != now[k]]

# }}}


# {{{ histories

class _Boom(Exception):
    pass


def _boom(x):
    raise _Boom


def _after(n):
    """callable raising at its n-th evaluation"""
    left = [n]

    def f(x):
        left[0] -= 1
        if left[0] < 0:
            raise _Boom
        return np.cos(np.asarray(x) if np.ndim(x) < 2 else x[0])
    return f


def _failing(k):
    """calls that raise, half-way through where that is possible"""
    import modepy as mp
    from modepy.quadrature import construction as qc
    from modepy.quadrature.kronrod import make_kronrod_quadrature, quadgk
    from modepy.tools import AffineMap
    sh = mp.Simplex(2)
    b = mp.orthonormal_basis_for_space(mp.PN(2, 3), sh)
    x = np.array(mp.warp_and_blend_nodes(2, 3))
    q = mp.XiaoGimbutasSimplexQuadrature(4, 2)
    return [
        lambda: quadgk(_after(2), 0.0, 1.0, order=5+k % 4),
        lambda: quadgk(_after(3), 0.0, np.inf, order=6),
        lambda: make_kronrod_quadrature(1+k % 12)(_boom),
        lambda: mp.vandermonde([*b.functions[:4], _boom], x),
        lambda: mp.resampling_matrix([*b.functions[:-1], _boom], x, x),
        lambda: mp.nodal_quadrature_test_matrix(
            q, [*b.functions[:-1], _boom], b.functions, x),
        lambda: mp.mass_matrix(b, x[:, :4]),
        lambda: mp.XiaoGimbutasSimplexQuadrature(10000, 2),
        lambda: mp.VioreanuRokhlinSimplexQuadrature(10000, 3),
        lambda: mp.WitherdenVincentQuadrature(10000, 2),
        lambda: mp.JaskowiecSukumarQuadrature(10000, 3),
        lambda: AffineMap(np.zeros((2, 2)), np.zeros(2)).inverse,
        lambda: q(_boom),
        lambda: qc.orthogonalize_basis(q, [b.functions[0], _boom]),
        lambda: mp.quadrature_for_space(mp.PN(2, 3), mp.Simplex(3)),
        lambda: mp.submesh_for_shape(sh, [(0, 0)]).nosuch,
        lambda: mp.warp_and_blend_nodes(2, 3, [(0, 0), (0, "1")]),
        lambda: mp.transplanted_1d_quadrature(q, _boom),
        lambda: mp.transplanted_legendre_gauss_quadrature(3+k % 3, _boom),
    ][k % 19]


def history(t, seq, seed):
    """*seq*: operations and failing calls in order; every result is compared with
    that of a process that made just this one call, then ruined"""
    rng = random.Random(seed)
    before = _global_state()
    kept = []
    prev = "start"
    for name, k in seq:
        if name == "!":
            try:
                _failing(k)()
            except Exception:
                t.true("failing call in history", True)
            prev = f"!{k % 19}"
            continue
        _args, call = O.OPS[name](k)
        r = call()
        fr = O.freeze(r)
        _check(t, "history", name, k, fr, f"after {prev}")
        t.state(prev, name)
        prev = name
        if rng.random() < 0.75:
            O.scribble(r)
        if rng.random() < 0.2:
            kept.append((name, k, call))
        if kept and rng.random() < 0.2:
            # repeat an earlier call on its own objects
            name2, k2, call2 = kept[rng.randrange(len(kept))]
            _check(t, "history other operations", name2, k2, O.freeze(call2()),
                   "on objects kept from earlier")
    for name2, k2, call2 in kept:
        _check(t, "history other operations", name2, k2, O.freeze(call2()),
               "on objects kept from earlier")
    _state_unchanged(t, before, "the history")
    t.show(length=len(seq), first=[list(s) for s in seq[:6]])

# }}}


# {{{ threads

def _shared_tasks(seed):
    """objects shared by all threads, and what the threads do with them"""
    import modepy as mp
    from modepy.quadrature import construction as qc
    from modepy.quadrature.kronrod import make_kronrod_quadrature
    from modepy.tools import AffineMap, Monomial
    rng = np.random.default_rng(seed)
    tasks = []

    a = rng.normal(size=(3, 3)) + 4*np.eye(3)
    m = AffineMap(a, rng.normal(size=3))
    x3 = rng.normal(size=(3, 5))
    tasks += [lambda: m(x3), lambda: float(m.jacobian), lambda: m.inverse(x3),
              lambda: m.inverse.inverse(x3), lambda: float(m.inverse.jacobian)]

    for desc in [(2,), (3,), (1, 1), (2, 1), (1, 2)]:
        from mv import common as C
        o = tuple(int(i) for i in rng.integers(1, 4, len(desc)))
        sp, sh = C.mk_space(desc, o), C.mk_shape(desc)
        b = mp.basis_for_space(sp, sh)
        x = np.array(mp.edge_clustered_nodes_for_space(sp, sh))
        q = mp.quadrature_for_space(sp, sh)
        x.setflags(write=False)
        tasks += [
            lambda b=b, x=x: [f(x) for f in b.functions],
            lambda b=b, x=x: [f(x) for f in b.gradients],
            lambda b=b, x=x: mp.mass_matrix(b, x),
            lambda b=b, x=x: mp.diff_matrices(b, x),
            lambda q=q, b=b: [float(q(f)) for f in b.functions],
            lambda b=b: repr([O._plain(i) for i in b.mode_ids]),
            lambda sp=sp, sh=sh: mp.edge_clustered_nodes_for_space(sp, sh),
            lambda sp=sp, sh=sh: mp.equispaced_nodes_for_space(sp, sh),
            lambda sp=sp: repr(mp.node_tuples_for_space(sp)),
            lambda sh=sh: mp.unit_vertices_for_shape(sh),
            lambda sp=sp, sh=sh: [np.array(i) for i in O._raw(
                mp.quadrature_for_space(sp, sh))],
            lambda sp=sp, sh=sh, b=b, q=q, x=x: mp.nodal_quadrature_test_matrix(
                q, b.functions, b.functions, x),
            lambda sp=sp, sh=sh: [sp.space_dim, sp.spatial_dim, sh.dim, sh.nvertices],
            lambda b=b: repr(mp.symbolicize_function(b.functions[-1], b._dim)),
        ]
    for sh in [mp.Simplex(3), mp.Hypercube(2)]:
        fs = mp.faces_for_shape(sh)
        xf = np.full((sh.dim-1, 2), 0.3)
        tasks += [lambda fs=fs, xf=xf: [f.map_to_volume(xf) for f in fs],
                  lambda fs=fs: [mp.face_normal(f) for f in fs]]

    kq = make_kronrod_quadrature(5)
    mono = Monomial((2, 1), 3)
    b2 = mp.orthonormal_basis_for_space(mp.PN(2, 2), mp.Simplex(2))
    lc = qc.linearly_combine([1.0, 2.0], [
        qc.linearly_combine([0.5, 1.5], b2.functions[:2]),
        qc.linearly_combine([1.0, -1.0], b2.functions[2:4])])
    y = np.full((2, 3), -0.3)
    tasks += [lambda: float(kq(np.cos)), lambda: mono(y), lambda: lc(y),
              lambda: float(mono.simplex_integral())]
    return tasks


_code_list = []


def _codes(prefix):
    """code objects of all functions defined in files below *prefix* (instrumenting
    all code would also do so for the huge tables)"""
    import gc
    import types
    if not _code_list:
        todo = [f.__code__ for f in gc.get_objects()
                if isinstance(f, types.FunctionType)
                and f.__code__.co_filename.startswith(prefix)]
        seen = set()
        while todo:
            c = todo.pop()
            if c not in seen:
                seen.add(c)
                todo += [i for i in c.co_consts if isinstance(i, types.CodeType)]
        _code_list.extend(sorted(seen, key=lambda c: (c.co_filename, c.co_firstlineno)))
    return _code_list


def _run_threads(mode, nthreads, keys, seed, repeat, delay):
    """in a child process that has called nothing yet"""
    import threading
    import time

    from mv.core import REPO
    sys.setswitchinterval(1e-6 if seed % 3 else 2e-5)
    switches = {}
    last = [None, None]
    hits = {}
    counts = [0, 0, 0]
    drng = random.Random(seed)
    mon = sys.monitoring
    tool = 4
    mon.use_tool_id(tool, "mv-delays")
    import functools

    import pymbolic
    import pytools
    # the code under test, and the caches it uses
    prefix = (REPO + "/modepy/", os.path.dirname(pytools.__file__),
              os.path.dirname(pymbolic.__file__), functools.__file__)

    def on_line(code, line):
        seen = hits.get((code, line), 0) + 1
        hits[code, line] = seen
        if seen > 100:
            return mon.DISABLE      # enough delays here: do not slow the rest down
        me = threading.get_ident()
        counts[0] += 1
        if last[0] != me:
            counts[1] += 1
            if last[1] is not None and len(switches) < 4000:
                switches[last[1], (code.co_qualname, line)] = 1
            last[0] = me
        last[1] = (code.co_qualname, line)
        if counts[2] < 1000 and drng.random() < delay:
            counts[2] += 1
            time.sleep(drng.choice((0, 0, 1e-5, 2e-4)))

    mon.register_callback(tool, mon.events.LINE, on_line)

    results = []        # (thread, key or task index, result)
    errors = []
    bar = threading.Barrier(nthreads)
    if mode == "shared":
        tasks = _shared_tasks(seed)
        jobs = list(range(len(tasks)))
    else:
        jobs = [tuple(k) for k in keys]

    def body(i):
        rng = random.Random(seed*1000+i)
        mine = []
        for _ in range(repeat):
            js = list(jobs)
            if mode != "same":
                rng.shuffle(js)
            mine += js
        bar.wait()
        for j in mine:
            if mode == "same":
                # everybody makes the first call at the same time
                bar.wait()
            try:
                if mode == "shared":
                    r = tasks[j]()
                else:
                    r = O.OPS[j[0]](j[1])[1]()
                results.append((i, j, O.freeze(r)))
                if mode != "shared":
                    O.scribble(r)
            except Exception as e:
                errors.append((i, j, f"{type(e).__name__}: {e}"))

    for code in _codes(prefix):
        mon.set_local_events(tool, code, mon.events.LINE)
    ths = [threading.Thread(target=body, args=(i,), daemon=True)
           for i in range(nthreads)]
    for th in ths:
        th.start()
    t0 = time.monotonic()
    for th in ths:
        th.join(max(0.1, 90-(time.monotonic()-t0)))
    stuck = sum(th.is_alive() for th in ths)
    for code in _codes(prefix):
        mon.set_local_events(tool, code, 0)
    later = []
    if not stuck:
        if mode == "shared":
            # the same on other objects, by one thread
            later = [(j, O.freeze(f())) for j, f in enumerate(_shared_tasks(seed))]
        else:
            for j in jobs:
                later.append((j, O.freeze(O.OPS[j[0]](j[1])[1]())))
    return {"results": list(results), "errors": list(errors), "stuck": stuck,
            "later": later, "switches": sorted(repr(s) for s in switches)[:300],
            "nswitch": len(switches), "counts": counts}


def thread_main():
    import warnings
    warnings.simplefilter("ignore")
    # numpy loads these on first use, and two threads doing so at once can make
    # numpy.__getattr__ recurse without end
    import numpy.fft
    import numpy.linalg
    import numpy.ma
    import numpy.polynomial
    import numpy.random

    import modepy  # noqa: F401
    import mv.common  # noqa: F401
    from modepy import modal_decay, tools  # noqa: F401
    from modepy.quadrature import construction, kronrod, transplanted  # noqa: F401
    for rnd in pickle.load(sys.stdin.buffer):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                res = _run_threads(**rnd)
            except BaseException as e:
                res = {"crash": f"{type(e).__name__}: {e}"}
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
            os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        sys.stdout.buffer.write(len(data).to_bytes(8, "little") + data)
        sys.stdout.flush()


def threads(t, mode, nthreads, keys, seed, repeat, delay, rounds):
    from mv.core import HarnessError
    keys = [tuple(k) for k in keys]
    want = O.pristine(keys, 1)
    env = O.fresh_env()
    todo = [{"mode": mode, "nthreads": nthreads, "keys": keys, "seed": seed+i,
             "repeat": repeat, "delay": delay} for i in range(rounds)]
    p = subprocess.run(
        [sys.executable, "-c", "from mv.props.p24 import thread_main; "
         "thread_main()"], input=pickle.dumps(todo), stdout=subprocess.PIPE, env=env)
    out = p.stdout
    for _ in range(rounds):
        n = int.from_bytes(out[:8], "little")
        data, out = out[8:8+n], out[8+n:]
        if not data:
            raise HarnessError("threaded round returned nothing")
        res = pickle.loads(data)
        if "crash" in res:
            t.fail("threads finished", res["crash"])
            continue
        t.true("threads finished", res["stuck"] == 0,
               f"{res['stuck']} threads still running after 90 s")
        if res["stuck"]:
            continue
        for i, j, e in res["errors"]:
            t.fail("concurrent calls", f"thread {i}, {j}: {e}")
        if mode == "shared":
            alone = dict(res["later"])
            for i, j, r in res["results"]:
                d = O.same(r, alone[j])
                t.true("concurrent calls shared objects", not d,
                       lambda i=i, j=j, d=d: f"thread {i}, task {j}: {d}")
        else:
            for i, j, r in res["results"]:
                d = O.same(r, want[j])
                t.true("concurrent calls", not d,
                       lambda i=i, j=j, d=d: f"thread {i}, {j[0]}({j[1]}): {d}")
            for j, r in res["later"]:
                d = O.same(r, want[j])
                t.true("caches after threads", not d,
                       lambda j=j, d=d: f"{j[0]}({j[1]}) afterwards: {d}")
        for s in res["switches"]:
            t.state(s)
        t.note(thread_switches_in_modepy=res["counts"][1],
               lines_traced_in_threads=res["counts"][0],
               delays_injected=res["counts"][2],
               distinct_switch_points=res["nswitch"])
    t.show(mode=mode, threads=nthreads, rounds=rounds, keys=len(keys),
           first=[list(k) for k in keys[:4]])

# }}}


GROUPS = {"single": single, "history": history, "threads": threads}

# operations with process-wide caches or lazily loaded tables
# the cases prepare results in fresh processes: no sampling of the thorough tier
SAMPLE_THOROUGH = False

CACHED = ["kronrod_half", "kronrod_rule", "quadgk", "maps", "transplanted",
          "transplanted_lg", "xiao_gimbutas", "vioreanu", "jaskowiec", "witherden",
          "space_rule", "affine", "faces", "submesh"]


def cases(tier, rng):
    quick = tier == "quick"
    names = sorted(O.OPS)
    out = []

    nk = 10 if quick else 42
    for name in names:
        # every residue of the small argument cycles, then random ones
        ks = list(range(4)) + [rng.randrange(4, 210) for _ in range(nk-4)]
        for k in dict.fromkeys(ks):
            out.append(("single", {"name": name, "k": k}))

    for i in range(32 if quick else 120):
        pool = names if i % 3 else rng.sample(names, 6)
        seq = []
        n = 60 if quick else 150
        few = [rng.randrange(210) for _ in range(5)]
        while len(seq) < n:
            if rng.random() < 0.08:
                seq.append(("!", rng.randrange(210)))
                continue
            name = rng.choice(pool)
            # small pools of arguments: the same calls recur
            seq.append((name, rng.choice(few) if i % 2 else rng.randrange(7)))
            if rng.random() < 0.15:
                seq.append(seq[-1])
        out.append(("history", {"seq": seq, "seed": rng.randrange(1 << 30)}))

    for i in range(16 if quick else 64):
        mode = ("same", "shuffled", "shared", "same")[i % 4]
        if mode == "same":
            # all of them in every run
            keys = [(CACHED[(3*i//2+j) % len(CACHED)], rng.randrange(60))
                    for j in range(3)]
        else:
            keys = [(rng.choice(names), rng.randrange(30)) for _ in range(14)]
        out.append(("threads", {
            "mode": mode, "nthreads": 8 if i % 3 else 3,
            "keys": [] if mode == "shared" else keys, "seed": rng.randrange(1 << 20),
            "repeat": 1 if mode == "same" else 2,
            "delay": (0.0005, 0.002, 0.02)[i % 3],
            "rounds": 3 if quick and mode == "same" else 1 if quick else 10}))

    # the very first calls of a process, by all threads at once
    for name in names:
        out.append(("threads", {
            "mode": "same", "nthreads": 6,
            "keys": [(name, rng.choice((2, 3, 5, 11, 14, 16)))],
            "seed": rng.randrange(1 << 20), "repeat": 1, "delay": 0.05,
            "rounds": 8 if quick else 60}))

    # results of fresh processes, shared by the workers
    keys = []
    for g, p in out:
        if g == "single":
            keys.append((p["name"], p["k"]))
        elif g == "history":
            keys += [(n, k) for n, k in p["seq"] if n != "!"]
        elif p["mode"] != "shared":
            keys += p["keys"]
    O.pristine(keys)
    return out
