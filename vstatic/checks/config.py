"""P34 invalid configurations are rejected, the time step respects the CFL limit.

Simulation.__post_init__ is reduced to the condition under which it completes (the disjunction of its non-raising paths;
pydantic models are given their documented meaning: field bounds, then every after-validator in order of definition).
The condition is compared, as a formula, with the rule over a box of grid sizes that contains every relation the rule
distinguishes (dividing or not, below, at and above the guard width, zero and negative values)."""
from ..world import *
from ..interp import *
from ..alg import subst, b_atoms, evaluate
from .topology import run_jobs, fresh
import itertools

AX = "xyz"


def accept(dim, opt, seed="None"):
    """condition of construction, values set up, functions"""
    w = world()
    it = fresh(w)
    ax = AX[:dim]
    cname = "Simulation" + ("3D" if dim == 3 else "")
    sim = atom("newobj", cname, 0)
    it.types[sim] = w.cls("simulation.simulation", cname)
    params = ["sim"] + ["n%s: int" % a for a in ax] + ["d%s" % a for a in ax] + ["n_guard: int", "cpml: int", "dt_cfl", "bc"]
    params += (["nsteps: int"] if opt[0] else []) + (["sim_time"] if opt[1] else [])
    src = "from .simulation.simulation import Simulation, Simulation3D\nfrom scipy.constants import c\ndef main(%s):\n" % ", ".join(params)
    for a in ax:
        src += "    sim.n%s = n%s\n    sim.d%s = d%s\n    sim.npatch_%s = 0\n" % (a, a, a, a, a)
    src += "    sim.nsteps = %s\n    sim.sim_time = %s\n" % ("nsteps" if opt[0] else "None", "sim_time" if opt[1] else "None")
    src += "    sim.dt_cfl = dt_cfl\n    sim.n_guard = n_guard\n    sim.cpml_thickness = cpml\n    sim.boundary_conditions = bc\n    sim.comm = None\n"
    src += "    sim.log_file = None\n    sim.truncate_log = True\n    sim.enable_timer = False\n    sim.random_seed = %s\n    sim._auto_patch_factor = 4\n" % seed
    src += "    sim.__post_init__()\n"
    src += "    ref = dt_cfl / (c * (%s)**0.5)\n" % " + ".join("1/d%s**2" % a for a in ax)
    src += "    return (ref, sim.dt, sim.get_cfl(), (%s,), (%s,), (%s,), sim.n_guard, sim.cpml_thickness, sim.boundary_conditions, sim.dimension, sim.random_seed)\n" % (
        ", ".join("sim.npatch_" + a for a in ax), ", ".join("sim.n%s_per_patch" % a for a in ax), ", ".join("sim.L" + a for a in ax))
    fn = w.driver(src)
    models = []

    def auto(it_, av, kv, st, n):
        base = it_.base_of(av[0])[0]
        m = st.mem.get(base)
        m = m.copy() if m is not None else MemObj()
        for a in ax:
            m.vals["npatch_" + a] = P(sym("np" + a, isint=True))
        st.mem[base] = m
        return NONE

    def model(cls):
        def h(it_, av, kv, st, n):
            models.append(cls.name)
            a = atom("newobj", cls.name, next(it_.seq))
            it_.types[a] = cls
            m = MemObj()
            given = dict(kv)
            ok = TRUE
            chain = list(reversed(w.pkg.mro(cls)))
            for k in chain:
                for nm in k.annots:
                    f = k.attrs.get(nm)
                    call = f.a if f is not None and f.op == "call" else None
                    kw = {x: it_.ev(y, st) for x, y in call[2]} if call else {}
                    v = given.get(nm)
                    if v is None:
                        v = it_.ev(call[1][0], st) if call and call[1] else NONE
                    m.vals[nm] = v
                    for rel, bound in kw.items():
                        if v is NONE or not isinstance(v, Poly) or rel not in ("gt", "ge", "lt", "le"):
                            continue
                        b = it_.num(bound)
                        ok = ok & {"gt": alg.lt0(b - v), "ge": alg.le0(b - v), "lt": alg.lt0(v - b), "le": alg.le0(v - b)}[rel]
            # the model is built with the field bounds of the most derived class
            st.mem[a] = m
            st.pc = st.pc & ok
            seen = {}
            for k in chain:
                for nm, meth in k.methods.items():
                    if any("model_validator" in str(d) for d in meth.decorators):
                        seen[nm] = meth
            for meth in seen.values():
                if st.pc is FALSE:
                    break
                if "field_validator" in str(meth.decorators):
                    raise Broken("field validators are not modelled")
                r = it_.call_func(FuncV(meth, None, P(a)), [P(a)], [], st, n)
            return P(a)
        return h
    for nm in ("SimulationConfig", "Simulation3DConfig"):
        it.intrin[nm] = model(w.cls("simulation.simulation", nm))
    for nm in ("Simulation._auto_patch", "Simulation3D._auto_patch"):
        it.intrin[nm] = auto
    for nm in ("configure_logger", "set_timer_enabled", "rank_log", "get_default_comm", "get_default_rank"):
        it.intrin[nm] = lambda it_, av, kv, st, n: NONE
    eff, ret, st = it.run_func(fn, args={"sim": P(sim)})
    if not models:
        raise Broken("Simulation.__post_init__ builds no SimulationConfig")
    return st.pc, ret, it.analysed, (fn.file, fn.line)


def value(f, env):
    v = subst(f, lambda a: P(env[str(a.args[0])]) if a.kind == "sym" and str(a.args[0]) in env else None)
    if v is TRUE or v is FALSE:
        return v is TRUE
    return v


LOC = ("src/lambdapic/simulation/simulation.py", 0)


def config_job(dim, opt):
    pc, ret, fns, loc = accept(dim, opt)
    ax = AX[:dim]
    obs = []
    D = "%dd" % dim
    if opt[0] and opt[1]:
        obs.append(("reject", D + " step count and total time", pc is FALSE, "both a step count and a total time are accepted", LOC))
        return obs, fns
    if ret is None or pc is FALSE:
        obs.append(("accept", D + " ordinary configurations", False, "no configuration is accepted", LOC))
        return obs, fns
    base = {"n_guard": 3, "cpml": 6, "dt_cfl": Fraction(19, 20), "nsteps": 10, "sim_time": Fraction(1, 2)}
    for a in ax:
        base.update({"n" + a: 64, "np" + a: 4, "d" + a: Fraction(1, 8)})

    def case(rule, key, valid, **kw):
        env = dict(base)
        env.update(kw)
        v = value(pc, env)
        if v not in (True, False):
            raise Broken("construction condition is undecided for %s: %s" % (kw, show_b(v)[:300]))
        if valid is None:
            return
        if rule == "accept":
            obs.append((rule, key, v, "%s is rejected" % kw, LOC))
        else:
            obs.append((rule, key, not v, "%s is accepted" % kw, LOC))
    for n, g, q in itertools.product((16, 24, 64, 96), (1, 2, 3, 4), (1, 2, 4)):
        if n // q >= 6 * g:
            case("accept", D + " ordinary configurations", True, n_guard=g, **{"n" + a: n for a in ax}, **{"np" + a: q for a in ax})
    for a in ax:
        for n in list(range(-1, 14)):
            for q in range(-1, 7):
                for g in range(0, 5):
                    if n <= 0 or q <= 0:
                        if n < 0 or g > 1:
                            continue
                        case("reject", D + " positive sizes along " + a, False, **{"n" + a: n, "np" + a: q, "n_guard": g})
                    elif n % q:
                        case("reject", D + " whole patches along " + a, False, **{"n" + a: n, "np" + a: q, "n_guard": g})
                    elif n // q < g:
                        case("reject", D + " patches hold the guard width along " + a, False, **{"n" + a: n, "np" + a: q, "n_guard": g})
        for d in (0, -1):
            case("reject", D + " positive spacing along " + a, False, **{"d" + a: d})
    for g in (0, -1):
        case("reject", D + " positive guard width", False, n_guard=g)
        case("reject", D + " positive layer thickness", False, cpml=g)
    for f in (0, -1, Fraction(3, 2), Fraction(1001, 1000), 2):
        case("reject", D + " CFL fraction", False, dt_cfl=f)
    for f in (Fraction(1, 2), 1):
        case("accept", D + " CFL fraction", True, dt_cfl=f)
    ref, dt, cfl, nps, pp, L, ng, th, bc, d, _ = ret.items
    obs.append(("step", D + " dt", equal(dt, ref), "dt is %s, the CFL fraction prescribes %s" % (dt, ref), LOC))
    obs.append(("step", D + " reported CFL number", equal(cfl, P(sym("dt_cfl"))), "get_cfl() is %s" % (cfl,), LOC))
    for i, a in enumerate(ax):
        n, q = P(sym("n" + a, isint=True)), P(sym("np" + a, isint=True))
        obs.append(("derived", D + " patches along " + a, equal(nps.items[i], q), "the patch count along %s is not the validated one: %s" % (a, nps.items[i]), LOC))
        vals = {(x, y): evaluate(pp.items[i], lambda s: {"n" + a: x, "np" + a: y}.get(str(s.args[0])) if getattr(s, "kind", "") == "sym" else None) for x, y in ((12, 3), (64, 4), (9, 1))}
        obs.append(("derived", D + " cells per patch along " + a, all(v == x // y for (x, y), v in vals.items()), "cells per patch are %s" % (pp.items[i],), LOC))
        obs.append(("derived", D + " length along " + a, equal(L.items[i], n * P(sym("d" + a))), "the domain length is %s" % (L.items[i],), LOC))
    obs.append(("derived", D + " guard width, layer thickness, sides", equal(ng, P(sym("n_guard", isint=True))) and equal(th, P(sym("cpml", isint=True))) and equal(bc, P(sym("bc"))) and d.const() == dim,
                "guard width %s, thickness %s, boundaries %s, dimension %s" % (ng, th, bc, d), LOC))
    return obs, fns


LAYERS = {2: ("PMLXmin", "PMLXmax", "PMLYmin", "PMLYmax"), 3: ("PMLXmin", "PMLXmax", "PMLYmin", "PMLYmax", "PMLZmin", "PMLZmax")}


def layer_job(dim, name):
    """a layer is only built in a patch wider than the layer"""
    w = world()
    it = fresh(w)
    ax = AX[:dim]
    cls = w.cls("core.boundary.cpml", name)
    src = "from .core.boundary.cpml import %s\nfrom .core.fields import Fields%dD\ndef main(f: Fields%dD, thickness: int, %s):\n" % (name, dim, dim, ", ".join("n%s: int" % a for a in ax))
    src += "".join("    f.n%s = n%s\n" % (a, a) for a in ax) + "    f.n_guard = 3\n"
    src += "    l = %s(f, thickness)\n    return l\n" % name
    fn = w.driver(src)
    eff, ret, st = it.run_func(fn)
    a = name[3].lower()
    obs = []
    loc = ("src/lambdapic/core/boundary/cpml.py", 0)
    for t in (1, 2, 3, 6):
        for n in range(1, 10):
            env = {"n" + b: 64 for b in ax}
            env["n" + a] = n
            env["thickness"] = t
            v = value(st.pc, env)
            if v not in (True, False):
                raise Broken("condition of %s undecided: %s" % (name, show_b(v)[:200]))
            if n <= t:
                obs.append(("layer", "%dd %s" % (dim, name), not v, "a layer of %d cells is built in a patch of %d cells along %s" % (t, n, a), loc))
    env = {"n" + b: 64 for b in ax}
    env["thickness"] = 6
    obs.append(("accept", "%dd %s" % (dim, name), value(st.pc, env) is True, "an ordinary layer is rejected", loc))
    return obs, it.analysed


def auto_job(dim):
    """the division chosen automatically holds the guard and the absorbing layer along every axis when one of the candidates does"""
    w = world()
    it = fresh(w)
    fn = w.func("simulation.utils", "auto_patch_%dd" % dim)
    ax = AX[:dim]
    K = 3 if dim == 2 else 2
    asked = []

    def divisors(it_, av, kv, st, n):
        a = av[0].as_atom() if isinstance(av[0], Poly) else None
        if a is None or a.kind != "sym":
            return None
        asked.append(str(a.args[0]))
        return Tup([P(sym("%s_%d" % (a.args[0], i), isint=True)) for i in range(K)])
    it.intrin["find_divisors"] = divisors
    eff, ret, st = it.run_func(fn)
    if not isinstance(ret, Tup) or len(ret.items) != dim or set(asked) != {"n" + a for a in ax}:
        raise Broken("auto_patch_%dd: unexpected result" % dim)
    obs = []
    loc = ("src/lambdapic/simulation/utils.py", fn.line)

    def ev(e, env):
        def leaf(a):
            if getattr(a, "name", None) == "numpy.inf":
                return 10 ** 15
            if not hasattr(a, "kind"):
                return None
            if a.kind == "sym" and str(a.args[0]) in env:
                return env[str(a.args[0])]
            if a.kind in ("val", "ext") and "inf" in str(a):
                return 10 ** 15
        return int(evaluate(e, leaf))
    box = (12, 32, 64, 96) if dim == 2 else (24, 64)
    for n in itertools.product(box, repeat=dim):
        for g, t in ((3, 6), (2, 8), (4, 4)):
            for lim in (1, 8, 30, 200, 2000):
                env = {"n_guard": g, "cpml_thickness": t, "npatch_min": lim}
                divs = []
                for a, m in zip(ax, n):
                    ds = [q for q in (2, 3, 4, 6, 8, 12, 16, 24, 32, 48) if m % q == 0 and q < m]
                    ds = (ds[0], ds[len(ds) // 2], ds[-1]) if K == 3 else (ds[0], ds[-2])
                    divs.append(ds)
                    env["n" + a] = m
                    env.update(("n%s_%d" % (a, i), q) for i, q in enumerate(ds))
                good = all(m // ds[0] >= max(2 * g, t) for m, ds in zip(n, divs))
                got = [ev(e, env) for e in ret.items]
                ok = all(q in ds for q, ds in zip(got, divs)) and (not good or all(m // q >= max(2 * g, t) for m, q in zip(n, got)))
                obs.append(("auto", "%dd automatic division" % dim, ok, "cells %s, guard %d, layer %d, at least %d patches of %s: %s is chosen, %s cells per patch" % (
                    n, g, t, lim, divs, got, [m // q for m, q in zip(n, got)]), loc))
    return obs, it.analysed


def p34(c):
    c.rule("reject", "no configuration with zero or negative sizes, patches that do not divide the grid or are narrower than the guard, a CFL fraction outside (0, 1], or two run lengths is constructed")
    c.rule("accept", "ordinary configurations are constructed")
    c.rule("step", "the time step is the CFL fraction of 1/(c sqrt(sum 1/d^2)) over the axes of the simulation")
    c.rule("derived", "cells per patch, lengths and widths in use are those that were validated (also when the patch counts were chosen automatically)")
    c.rule("auto", "the division chosen automatically holds the guard and the layer along every axis when a candidate does")
    c.rule("layer", "an absorbing layer is refused in a patch that is not wider than the layer")
    jobs = [("config_job", d, o) for d in (2, 3) for o in ((0, 0), (1, 0), (0, 1), (1, 1))]
    jobs += [("layer_job", d, n) for d in (2, 3) for n in LAYERS[d]]
    jobs += [("auto_job", d) for d in (2, 3)]
    run_jobs(c, jobs, mod=globals())
    c.units |= {"src/lambdapic/simulation/simulation.py", "src/lambdapic/core/boundary/cpml.py"}
    c.floor("reject", 10)
    c.floor("layer", 8)
