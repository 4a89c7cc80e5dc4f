"""check.py <property id>: decides one property (quick or thorough tier by VERIF_TIER)."""
import itertools, json, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *  # noqa
import gen
from exact import frpts, hull_cw, outline_cw

QUICK = TIER == "quick"


def size(q, t):
    return q if QUICK else t


# ---- jobs from inputs -------------------------------------------------------------------------------------------
def job_of(i, inp, kind, **kw):
    j = dict(id=i, kind=kind, k=scale_for(gen.corners_of(inp)), **{x: inp[x] for x in ("sites", "poly", "box", "typ", "ptyp", "fam") if x in inp})
    j.update(kw)
    return j


def poly_units(inp, k):
    cw = outline_cw(frpts(gen.corners_of(inp)))
    return [[limbs(frac_units(x, k)), limbs(frac_units(y, k))] for x, y in cw]


def frac_units(v, k):
    u = v * 10 ** k if k >= 0 else v / 10 ** (-k)
    assert u.denominator == 1, (v, k)
    return int(u)


def site_units(inp, k):
    return [[enc(x, k), enc(y, k)] for x, y in inp["sites"]]


def whole(j):
    """whether all coordinates are whole numbers of units"""
    return all((gen.F(c) * gen.F(10) ** j["k"]).denominator == 1 for p in j["sites"] for c in p)


def describe(j):
    return {x: j[x] for x in ("kind", "fam", "sites", "poly", "box", "typ", "ptyp", "rz") if x in j} if "sites" in j else {x: j[x] for x in j if x not in ("id", "time")}


def execute(check, jobs):
    """runs the jobs; faults are violations of whatever property is being decided, as its end state was never reached"""
    res = run_jobs(jobs)
    good = []
    for j in jobs:
        r = res.get(j["id"])
        if r is None:
            continue  # not run because of too many hangs before
        if "fault" in r:
            check.violation("%s.%s" % (check.prop, r["fault"]), describe(j), r.get("where", ""))
        else:
            good.append((j, r))
    check.note("executions", check.cov.get("executions", 0) + len(jobs))
    return good


def batches(items, limit):
    """split so that a batch stays below the limit in weight"""
    out, cur, w = [], [], 0
    for it, weight in items:
        if cur and w + weight > limit:
            out.append(cur)
            cur, w = [], 0
        cur.append(it)
        w += weight
    if cur:
        out.append(cur)
    return out


def judge(check, module, good, todata, extra=None, limit=120000):
    """validates recorded runs and files the failures; todata(job, result) -> run record"""
    items = []
    for j, r in good:
        d = todata(j, r)
        items.append(((j, d), len(json.dumps(d)) // 10))
    for b in batches(items, limit * 20):
        data = dict(runs=[d for _, d in b], **(extra or {}))
        fails, r = validate(module, data)
        check.spec(r)
        check.traces(len(b))
        for n, clause, detail in fails:
            if clause.startswith(check.prop + "."):
                check.violation(clause, describe(b[n][0]), detail)


# ---- finished diagrams ------------------------------------------------------------------------------------------
def diagram_run(j, r):
    k = j["k"]
    q = 2 * k - j.get("digits", 3)
    return dict(sites=site_units(j, k), poly=poly_units(j, k), rz=1 if j.get("rz", True) else 0, q=limbs(10 ** q if q > 0 else 1),
                E=r["E"], H=r["H"], V=r["V"], cells=r["cells"], nsites=r["nsites"], acc=r["acc"])


def grid_inputs(rng, n4=0):
    subs = list(gen.grid_subsets(3, 3, range(1, 10)))
    out = gen.accept(gen.grids(rng, subs), len(subs), rng)
    if n4:
        out += gen.accept(gen.grids4(rng, n4), n4, rng)
    return out


def diagram_inputs(rng, grid, nmixed, nmax, big, longer=.05):
    inputs = grid_inputs(rng) if grid else []
    inputs += [gen.lengthened(rng, x) if rng.random() < longer else x for x in gen.mixed(rng, nmixed, nmax)]
    inputs += gen.large(rng, big)
    return inputs


def huge_jobs(quick, first=10 ** 6, **kw):
    """inputs with more than a thousand parts of one kind, kept in corpus/ as it takes minutes to decide that they are in the domain"""
    with open(os.path.join(VERIF, "corpus", "huge.json")) as f:
        inputs = json.load(f)
    return [job_of(first + i, x, "final", rz=True, time=200, **kw) for i, x in enumerate(inputs) if not QUICK or i in quick]


def final_check(check, jobs):
    good = execute(check, jobs)
    judge(check, "DiagramTrace", good, diagram_run, dict(want=[check.prop]))
    for j, r in good[:3] + good[-2:]:
        check.sample(dict(input=describe(j), edges=r["E"], vertices=len(r["V"])))


def c01(check):
    rng = random.Random("C01-%d" % SEED)
    inputs = diagram_inputs(rng, True, size(500, 6000), size(14, 25), size([30, 60, -90], [30, 50, 80, 120, 150, -90, -150]))
    final_check(check, [job_of(i, x, "final", rz=rng.random() < .85) for i, x in enumerate(inputs)] + huge_jobs([]))


def c02(check):
    rng = random.Random("C02-%d" % SEED)
    inputs = diagram_inputs(rng, True, size(700, 8000), size(14, 25), size([30, 60, 100, -90], [-150, 30, 50, 80, 120, 150, 200, 300]))
    final_check(check, [job_of(i, x, "final", rz=rng.random() < .6) for i, x in enumerate(inputs)] + huge_jobs([0]))


def c03(check):
    rng = random.Random("C03-%d" % SEED)
    inputs = diagram_inputs(rng, True, size(500, 6000), size(12, 25), size([30, 60, -90], [30, 50, 80, 120, 150, -90, -150]))
    final_check(check, [job_of(i, x, "final", rz=rng.random() < .85) for i, x in enumerate(inputs)] + huge_jobs([]))


def pair_run(j, r):
    return dict(off=diagram_run(dict(j, rz=False), r["off"]), on=diagram_run(dict(j, rz=True), r["on"]))


def c04(check):
    rng = random.Random("C04-%d" % SEED)
    inputs = grid_inputs(rng)
    degenerate = [(gen.cocircular, 3), (gen.nearcircle, 2), (gen.symmetric, 3), (gen.border, 1), (gen.ties, 1), (gen.rows, 1)]

    def one():
        while True:
            f = rng.choices([a for a, _ in degenerate], [b for _, b in degenerate])[0]
            yield f(rng, rng.randint(3, size(12, 24)))
    inputs += gen.accept(one(), size(300, 4000), rng)
    inputs += gen.mixed(rng, size(100, 1000), size(12, 20))
    inputs += gen.accept(gen.endless(gen.fullgrid, rng), size(6, 40), rng)
    inputs += gen.accept(gen.grids(rng, gen.grid_subsets(4, 4, range(4, 13), rng, size(150, 3000))), size(100, 2500), rng)
    good = execute(check, [job_of(i, x, "pair") for i, x in enumerate(inputs)])
    judge(check, "CleanupTrace", good, pair_run)
    for j, r in good[:3] + good[-2:]:
        check.sample(dict(input=describe(j), edges_off=r["off"]["E"], edges_on=r["on"]["E"]))
    check.note("runs_with_zero_length_edges", sum(1 for _, r in good if r["off"]["E"] > r["on"]["E"]))


# ---- sweeps -----------------------------------------------------------------------------------------------------
def sweep_run(j, r):
    k = j["k"]
    return dict(sites=site_units(j, k), steps=r["steps"], names=r["names"], left=r["fin"]["left"], ln=r["fin"].get("ln", []))


def sweep_check(check, jobs):
    design(check)
    good = execute(check, jobs)
    judge(check, "FortuneTrace", good, sweep_run, dict(want=[check.prop]))
    for j, r in good[:3] + good[-2:]:
        check.sample(dict(input=describe(j), events="".join(s["k"] for s in r["steps"]), beach=[s["beach"] for s in r["steps"]][-3:]))


def sweep_jobs(check, nq, nt, maxq, maxt, bigq, bigt, want):
    rng = random.Random("%s-%d" % (check.prop, SEED))
    inputs = diagram_inputs(rng, True, size(nq, nt), size(maxq, maxt), size(bigq, bigt))
    return [job_of(i, x, "sweep", rz=rng.random() < .8, want=want) for i, x in enumerate(inputs)]


def c05(check):
    sweep_check(check, sweep_jobs(check, 600, 6000, 14, 25, [40], [40, 60, 100], []))


def c06(check):
    sweep_check(check, sweep_jobs(check, 400, 4000, 12, 20, [30], [30, 40, 50], []))


def c07(check):
    sweep_check(check, sweep_jobs(check, 500, 5000, 12, 25, [30], [30, 50, 80], ["pend", "verts"]))


def c08(check):
    sweep_check(check, sweep_jobs(check, 400, 5000, 14, 25, [40, 60, -60], [40, 60, 100, 150, -100], ["tree"]))


def c09(check):
    sweep_check(check, sweep_jobs(check, 400, 5000, 12, 20, [25], [25, 40], ["edges"]))


def special_inputs(rng, big):
    """all on one line, all on one circle, full grids, one and two sites, larger sets"""
    out = []
    for n in (1, 2, 3, 5, 9, 17) + ((40,) if big else ()):
        out += gen.accept(gen.endless(gen.collinear, rng, n), 4, rng)
    for n in (3, 4, 6, 8, 12, 20, 36):
        out += gen.accept(gen.endless(gen.cocircular, rng, n), 4, rng)
    for f in (gen.single, gen.pair):
        out += gen.accept(gen.endless(f, rng, 1), 10, rng)
    return out


def c14(check):
    rng = random.Random("C14-%d" % SEED)
    inputs = diagram_inputs(rng, True, size(500, 8000), size(14, 30), size([40, 80, 150, -120], [40, 80, 150, 200, 300, 300, -200]))
    inputs += special_inputs(rng, not QUICK)
    jobs = [job_of(i, x, "final", rz=rng.random() < .8) for i, x in enumerate(inputs)] + huge_jobs([0, 3, 5])
    good = execute(check, jobs)
    judge(check, "DiagramTrace", good, diagram_run, dict(want=["C14"]))
    design(check)
    jobs = [job_of(i, x, "sweep", rz=True, want=["lite"]) for i, x in enumerate(inputs)]
    good = execute(check, jobs)
    judge(check, "FortuneTrace", good, sweep_run, dict(want=["C14"]))
    for j, r in good[:3] + good[-2:]:
        check.sample(dict(input=describe(j), events="".join(s["k"] for s in r["steps"])))


COORDINATE_CFG = """SPECIFICATION Spec
CONSTANTS Objects = {%s} Values = {%s} Depth = %d Emitting = %s
INVARIANTS Emit
PROPERTIES OneObject OneCoordinate
CHECK_DEADLOCK FALSE
"""


def c20(check):
    rng = random.Random("C20-%d" % SEED)
    inputs = diagram_inputs(rng, True, size(500, 6000), size(12, 25), size([30, 60, -90], [30, 50, 80, 120, 150, -90, -150]))
    final_check(check, [job_of(i, x, "final", rz=rng.random() < .85, digits=rng.choice([0, 1, 2, 3, 5])) for i, x in enumerate(inputs)] + huge_jobs([0]))
    r = model_check("MCCoordinate", COORDINATE_CFG % ("1, 2", "1, 2", 3, "TRUE"), "histories of coordinates")
    check.spec(r)
    replay(check, "coordinates", rng.sample(histories(r), size(3000, 12000)), "coordinate_histories", chunk=1000, seed=SEED)
    r = model_check("MCCoordinate", COORDINATE_CFG % ("1, 2, 3", "1, 2, 3, 4", 9, "TRUE"), "random histories of coordinates", workers=1,
                    args=("-simulate", "num=%d" % size(150, 3000), "-depth", "12", "-seed", str(SEED)))
    check.spec(r)
    replay(check, "coordinates", histories(r)[:size(4000, 60000)], "coordinate_histories_random", chunk=500, seed=SEED + 1)


# ---- breakpoints and arcs ---------------------------------------------------------------------------------------
CURVES_CFG = """SPECIFICATION Spec
CONSTANTS Width = %d Height = %d Depth = %d
INVARIANTS Characterised Bisector LowerSiteBetween
PROPERTY Apart
CHECK_DEADLOCK FALSE
"""


def curves_job(rng, i, pair, pos, steps):
    """a pair of lattice points and a sweep line moving down from the lower one"""
    low = min(p[1] for p in pair)
    span = max(2, abs(pair[0][0] - pair[1][0]), abs(pair[0][1] - pair[1][1]))
    at = lambda x, y: pos((x, y))
    lines, l = [], gen.F(low)
    top = max(p[1] for p in pair) + rng.choice([1, 2, 10])
    xs = [p[0] for p in pair]
    for n in range(steps):
        lines.append(dict(l=at(0, l)[1], top=at(0, top)[1] if rng.random() < .5 else None, float=rng.random() < .5,
                          xs=[at(gen.F(min(xs) - span) + gen.F(rng.randint(0, 12 * span), 4), 0)[0] for _ in range(3)]))
        if rng.random() < .3:  # the same objects are asked again for the same line, but another top
            lines.append(dict(lines[-1], top=at(0, top + rng.choice([1, 3]))[1] if rng.random() < .7 else None))
        l -= rng.choice([gen.F(1, 2), gen.F(1, 4), gen.F(1), gen.F(span), gen.F(3 * span), gen.F(1, 100) * span])
    sites = [at(*p) for p in pair]
    k = scale_for([at(min(xs), low), at(min(xs) + span, low + span)])
    far = max(abs(frac_units(gen.F(c), k)) for p in sites for c in p)
    x = fits(dict(sites=sites, typ=rng.choice(["float", "decimal", "str", "int", "np"]), poly=sites))
    return dict(id=i, kind="curves", pair=sites, typ=x["typ"], lines=lines, k=k, far=limbs(far + 10 ** 20))


def c21(check):
    rng = random.Random("C21-%d" % SEED)
    check.spec(model_check("MCCurves", CURVES_CFG % size((4, 4, 6), (6, 6, 12)), "pairs of sites"))
    n = size(4, 6)
    pts = [(x, y) for x in range(1, n + 1) for y in range(1, n + 1)]
    pairs = [(p, q) for p in pts for q in pts if p < q]
    jobs = [curves_job(rng, i, p, gen.Pos(gen.F(1)), 7) for i, p in enumerate(pairs)]
    for _ in range(size(1500, 20000)):
        w = rng.choice([3, 10, 100, 1000])
        p, q = [(rng.randint(0, w), rng.randint(0, w)) for _ in range(2)]
        if rng.random() < .2:
            q = (q[0], p[1])
        if rng.random() < .1:
            q = (p[0], q[1])
        if p != q:
            jobs.append(curves_job(rng, len(jobs), (p, q), gen.positions(rng), rng.choice([3, 6])))
    good = execute(check, jobs)
    unit = lambda j, p: [limbs(frac_units(gen.F(p[0]), j["k"])), limbs(frac_units(gen.F(p[1]), j["k"]))]
    items = [(j, dict(a=unit(j, j["pair"][0]), b=unit(j, j["pair"][1]), lines=r["lines"], does=r["does"], far=j["far"])) for j, r in good]
    for part in split(items, max(1, len(items) // 3000)):
        fails, r = validate("CurvesTrace", dict(runs=[d for _, d in part]))
        check.spec(r)
        check.traces(len(part))
        for n, clause, detail in fails:
            j = part[n][0]
            check.violation(clause, dict(kind="curves", pair=j["pair"], typ=j["typ"], line=j["lines"][detail[0] - 1] if detail[0] else None), detail)
    for j, r in good[:2] + good[-2:]:
        check.sample(dict(pair=j["pair"], lines=j["lines"][:2]))


# ---- related inputs ---------------------------------------------------------------------------------------------
def fits(inp):
    """a representation that can hold the numbers"""
    if inp["typ"] in ("float", "int", "list", "array", "np", "mixed", "tuples", "nparray", "np32", "array32") and gen.long(inp["sites"]):
        inp["typ"] = "decimal"
    if inp["typ"] in ("int", "nparray") and any("." in c for p in inp["sites"] for c in p):
        inp["typ"] = "float"
    if inp.get("ptyp") in ("float", "int") and gen.long(gen.corners_of(inp)):
        inp["ptyp"] = "decimal"
    return inp


def power_below(v):
    """the largest power of ten that is at most v > 0"""
    e = len(str(v.numerator)) - len(str(v.denominator))
    p = gen.F(10) ** e
    while p > v:
        p /= 10
    while p * 10 <= v:
        p *= 10
    return p


def relate_job(rng, i, tag, inp, nothers):
    """variants of an input: permuted and converted (C12), moved, scaled and turned (C15), with the polygon given differently (C16)"""
    n = len(inp["sites"])
    rz = rng.random() < .8
    base = job_of(0, inp, "", rz=rz)
    others = []
    tries = 0
    while len(others) < nothers:
        perm, m, s, t = list(range(n)), (1, 0, 0, 1), gen.F(1), (gen.F(0), gen.F(0))
        if tag == "C12":
            if rng.random() < .8:
                rng.shuffle(perm)
            x = gen.mapped(inp, m, s, t, perm)
            if "box" not in x:
                x["poly"] = [list(c) for c in inp["poly"]]
            x["typ"] = rng.choice(gen.TYPES + ["tuples", "nparray", "np32", "array32"])
        elif tag == "C15":
            corners = [(gen.F(a), gen.F(b)) for a, b in gen.corners_of(inp)]
            ext = max(max(c[0] for c in corners) - min(c[0] for c in corners), max(c[1] for c in corners) - min(c[1] for c in corners))
            m = rng.choice(gen.SYMMETRIES)
            if rng.random() < .5:
                s = rng.choice([gen.F(2), gen.F(1, 2), gen.F(3), gen.F(5, 4), gen.F(10), gen.F(1, 10), gen.F(1000), gen.F(1, 1000), gen.F(10) ** 6, gen.F(1, 10 ** 6),
                                gen.F(7), gen.F(37, 100)])
            if rng.random() < .6 or (m == (1, 0, 0, 1) and s == 1):
                away = max(max(abs(a), abs(b)) for a, b in corners)
                e = power_below(ext) * s
                far = rng.choice([1, 1, 1, 10, 1000, 10 ** 6 if away <= 1000 * ext else 1])
                if any(len(c) > 14 for p in inp["sites"] for c in p):
                    # nearly degenerate: the 28 digits of the library are needed for what is close
                    far = min(far, 10)
                t = (e * rng.randint(-9, 9) * far, e * rng.randint(-9, 9) * far)
                if rng.random() < .3:
                    # to the origin, or with the origin inside
                    c = corners[0] if rng.random() < .5 else rng.choice([(gen.F(a), gen.F(b)) for a, b in inp["sites"]])
                    t = (-s * (m[0] * c[0] + m[1] * c[1]), -s * (m[2] * c[0] + m[3] * c[1]))
            if rng.random() < .3:
                rng.shuffle(perm)
            tries += 1
            if tries > 10 * nothers:
                s, t = gen.F(1), (gen.F(0), gen.F(0))
            x = gen.mapped(inp, m, s, t, perm, rng)
        else:
            x = gen.mapped(inp, m, s, t)
            c = [list(c) for c in gen.corners_of(inp)]
            x.pop("box", None), x.pop("poly", None)
            if "box" in inp and rng.random() < .3:
                x["box"] = inp["box"]
                x["ptyp"] = rng.choice(gen.PTYPES)
            else:
                rng.shuffle(c)
                x["poly"] = c
                x["ptyp"] = rng.choice(gen.PTYPES)
        o = job_of(0, fits(x), "", rz=rz)
        if not whole(o):
            continue
        f = s * gen.F(10) ** (o["k"] - base["k"])
        o["map"] = dict(m=m, p=limbs(f.numerator), q=limbs(f.denominator), d=[limbs(frac_units(t[0], o["k"])), limbs(frac_units(t[1], o["k"]))])
        o["perm"] = [p + 1 for p in perm]
        others.append(o)
    return dict(id=i, kind="relate", tag=tag, base=base, others=others, sites=inp["sites"], time=30)


def relate_run(j, r):
    diagram = lambda x, y: dict(sites=site_units(x, x["k"]), poly=poly_units(x, x["k"]), cells=y["cells"])
    return dict(tag=j["tag"], base=diagram(j["base"], r["base"]),
                others=[dict(d=diagram(o, y), map=o["map"], perm=o["perm"], given=y["given"], listed=y["listed"], before=y["before"], after=y["after"])
                        for o, y in zip(j["others"], r["others"])])


RELATE_CFG = """SPECIFICATION Spec
CONSTANTS Size = 3 MaxSites = %d
INVARIANTS Symmetric
CHECK_DEADLOCK FALSE
"""
POLYGON_CFG = """SPECIFICATION Spec
CONSTANTS W = %d H = %d MaxCorners = %d
INVARIANTS RayCastingAgrees Pick
CHECK_DEADLOCK FALSE
"""


def relate_check(check, inputs, rng, nothers):
    inputs = [x for x in inputs if whole(job_of(0, x, ""))]
    jobs = [relate_job(rng, i, check.prop, x, nothers) for i, x in enumerate(inputs)]
    good = execute(check, jobs)
    items = [((j, d), len(json.dumps(d)) // 10) for j, r in good for d in [relate_run(j, r)]]
    for b in batches(items, 2400000):
        fails, r = validate("RelateTrace", dict(runs=[d for _, d in b]))
        check.spec(r)
        check.traces(len(b) * (1 + nothers))
        for n, clause, detail in fails:
            j = b[n][0]
            o = j["others"][detail[0] - 1]
            check.violation(clause, dict(kind="relate", base=describe(j["base"]), other=describe(o), map=o["map"], perm=o["perm"]), detail)
    for j, r in good[:2] + good[-2:]:
        check.sample(dict(base=describe(j["base"]), other=describe(j["others"][0]), map=j["others"][0]["map"]["m"], perm=j["others"][0]["perm"]))


def c12(check):
    rng = random.Random("C12-%d" % SEED)
    check.spec(model_check("MCRelate", RELATE_CFG % size(3, 4), "symmetric sweeps"))
    inputs = diagram_inputs(rng, True, size(250, 4000), size(12, 25), size([30, 60], [30, 60, 100, 150]))
    inputs = [gen.lengthened(rng, x) if rng.random() < .2 else x for x in inputs]
    relate_check(check, inputs, rng, size(2, 4))


def c15(check):
    rng = random.Random("C15-%d" % SEED)
    check.spec(model_check("MCRelate", RELATE_CFG % size(4, 5), "symmetric sweeps"))
    inputs = diagram_inputs(rng, True, size(250, 4000), size(12, 25), size([30, 60], [30, 60, 100, 150]), 0)
    relate_check(check, inputs, rng, size(2, 6))


def polygon_job(rng, i):
    """a polygon, given in several ways, and points in and around it"""
    while True:
        w = rng.choice([3, 5, 10, 30, 100, 1000])
        c = gen.polygon(rng, w, rng.choice([w, w, 2 * w, 1 + w // 2])) if rng.random() < .8 else hull_cw([(rng.randint(0, w), rng.randint(0, w)) for _ in range(rng.choice([5, 12, 40]))])
        if rng.random() < .3:
            c = gen.chamfered(rng, c, w)
        if len(c) >= 3 and len(hull_cw(c)) == len(c):
            if rng.random() < .25:
                c = [(gen.F(x), gen.F(y)) for x, y in gen.flattened(rng, dict(poly=[(gen.text(x), gen.text(y)) for x, y in c]))["poly"]]
            break
    pos = gen.positions(rng)
    corners = [list(pos(p)) for p in c]
    box = len(c) == 4 and len({p[0] for p in c}) == 2 and len({p[1] for p in c}) == 2
    k = scale_for(corners)
    others = []
    for v in range(4):
        q = list(corners)
        rng.shuffle(q)
        o = dict(poly=q, ptyp=rng.choice(gen.PTYPES))
        if box and v < 2:
            o = dict(box=[pos((min(p[0] for p in c), 0))[0], pos((max(p[0] for p in c), 0))[0], pos((0, min(p[1] for p in c)))[1], pos((0, max(p[1] for p in c)))[1]],
                     ptyp=o["ptyp"])
        if o["ptyp"] in ("float", "int") and gen.long(corners):
            o["ptyp"] = "decimal"
        others.append(o)
    x0, x1 = int(min(p[0] for p in c)), int(max(p[0] for p in c))
    y0, y1 = int(min(p[1] for p in c)), int(max(p[1] for p in c))
    qs = []
    near = max(abs(gen.F(x)) for p in corners for x in p) <= 1000 * (max(gen.F(p[0]) for p in corners) - min(gen.F(p[0]) for p in corners))
    for _ in range(25):
        t = rng.random()
        a = rng.choice(c)
        b = rng.choice(c)
        F = gen.F
        if t < .4:
            q = (F(rng.randint(8 * x0 - 8, 8 * x1 + 8), 8), F(rng.randint(8 * y0 - 8, 8 * y1 + 8), 8))
        elif t < .6:    # as high as a corner
            q = (F(rng.randint(8 * x0 - 8, 8 * x1 + 8), 8), F(a[1]))
        elif t < .7:
            q = (F(a[0]), F(rng.randint(8 * y0 - 8, 8 * y1 + 8), 8))
        elif t < .9:    # close to a side or a corner
            m = F(rng.randint(0, 8), 8)
            e = F(1, 10 ** rng.choice([1, 3, 6, 9]))
            if t > .8 and near:
                # as close as exact numbers can tell
                e = power_below(F(max(x1 - x0, y1 - y0))) / 10 ** rng.choice([14, 16, 17])
            q = (a[0] + m * (b[0] - a[0]) + e * rng.choice([-1, 0, 1]), a[1] + m * (b[1] - a[1]) + e * rng.choice([-1, 0, 1]))
        else:           # far away
            q = (F(rng.choice([-1, 1]) * rng.randint(0, 10 ** 6)), F(rng.choice([a[1], rng.randint(-10 ** 6, 10 ** 6)])))
        qs.append(pos(q))
    return dict(id=i, kind="polygon", k=k, corners=corners, others=others, queries=qs)


def polygon_run(j, r):
    k = j["k"]
    pt = lambda p: [limbs(frac_units(gen.F(p[0]), k)), limbs(frac_units(gen.F(p[1]), k))]
    return dict(given=[pt(c) for c in j["corners"]], queries=[pt(q) for q in j["queries"]], variants=r["variants"])


def c16(check):
    rng = random.Random("C16-%d" % SEED)
    cases = []
    for w, h, m in size([(2, 2, 6)], [(2, 2, 6), (3, 3, 8), (4, 2, 7)]):
        r = model_check("MCPolygon", POLYGON_CFG % (w, h, m), "lattice polygons", heap="12g")
        check.spec(r)
        cases += histories(r)
    pos = [["1", "0", "0"], ["0.5", "-3", "7"], ["0.1", "1000.3", "-0.2"], ["3", "-100", "-100"]]
    parts = split(cases, 32)
    jobs = [dict(id=i, kind="polytable", hists=p, seed=i, orders=size(12, 40), pos=pos[:size(3, 4)], time=600) for i, p in enumerate(parts)]
    res = run_jobs(jobs, per_job=630)
    total = 0
    for j in jobs:
        r = res.get(j["id"])
        if r is None:
            continue
        if "fault" in r:
            check.violation("C16." + r["fault"], dict(kind="polytable", polygons=[h["cycle"] for h in j["hists"]][:3]), r.get("where", ""))
            continue
        total += r["n"]
        for b in r["bad"]:
            check.violation("C16." + b["clause"], dict(kind="polytable", corners=b["ops"]), b["got"])
    check.traces(total)
    check.note("lattice_polygons", len(cases))
    check.note("orders_replayed", total)
    jobs = [polygon_job(rng, i) for i in range(size(600, 8000))]
    good = execute(check, jobs)
    for part in split(good, max(1, len(good) // 1500)):
        fails, r = validate("PolygonTrace", dict(runs=[polygon_run(j, q) for j, q in part]))
        check.spec(r)
        check.traces(len(part))
        for n, clause, detail in fails:
            j = part[n][0]
            check.violation(clause, dict(kind="polygon", corners=j["corners"], given=j["others"][detail[0] - 1]), detail)
    inputs = diagram_inputs(rng, False, size(250, 3000), size(12, 20), [30])
    relate_check(check, inputs, rng, size(2, 4))


# ---- messages ---------------------------------------------------------------------------------------------------
def observe_job(rng, i, nmax):
    """diagrams with own or shared polygons, created once or several times, with observers that come and go"""
    nd = rng.choice([1, 1, 2, 3])
    shared = nd > 1 and rng.random() < .7
    if shared:
        inputs = gen.sharing(rng, nmax, rng.randint(2, 3))
        polys = [inputs[0]]
        diagrams = [dict(poly=1, rz=rng.random() < .7) for _ in range(nd)]
        choice = {d: list(range(1, len(inputs) + 1)) for d in range(1, nd + 1)}
    else:
        inputs, polys, choice = [], [], {}
        for d in range(1, nd + 1):
            more = gen.sharing(rng, nmax, rng.randint(1, 2))
            choice[d] = list(range(len(inputs) + 1, len(inputs) + len(more) + 1))
            inputs += more
            polys.append(more[0])
        diagrams = [dict(poly=d, rz=rng.random() < .7) for d in range(1, nd + 1)]
    no = nd + rng.randint(1, 3)
    plain = list(range(nd + 1, no + 1))
    scripts = [[] for _ in range(no)]
    for o in plain:
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            scripts[o - 1].append([rng.choice([1, 2, 3, 5, 8, rng.randint(1, 40)]), rng.choice(["attach", "detach", "detach"]), rng.choice(plain + [o])])
    ops = [dict(op="attach", d=d, o=d, input=0) for d in range(1, nd + 1)]
    for _ in range(rng.randint(0, 4)):
        ops.append(dict(op="attach", d=rng.randint(1, nd), o=rng.choice(plain), input=0))
    creates = rng.choice([nd, nd, nd + 1, nd + 2])
    for c in range(creates):
        d = c % nd + 1 if rng.random() < .8 else rng.randint(1, nd)
        ops.append(dict(op="create", d=d, o=0, input=rng.choice(choice[d])))
        if rng.random() < .4:
            ops.append(dict(op=rng.choice(["attach", "detach"]), d=rng.randint(1, nd), o=rng.choice(plain), input=0))
    if rng.random() < .1:
        ops = [dict(op="create", d=1, o=0, input=choice[1][0])] + ops
    keep = ("sites", "poly", "box", "typ", "ptyp", "fam")
    return dict(id=i, kind="observe", ops=ops, scripts=scripts, diagrams=diagrams, inputs=[{k: x[k] for k in keep if k in x} for x in inputs],
                polys=[{k: x[k] for k in keep if k in x} for x in polys])


def observe_run(j, r):
    return dict(nd=len(j["diagrams"]), no=len(j["scripts"]), ops=j["ops"], scripts=j["scripts"], log=r["log"], snaps=r["snaps"])


def c10(check):
    rng = random.Random("C10-%d" % SEED)
    jobs = [observe_job(rng, i, rng.choice([4, 8, size(12, 20)])) for i in range(size(500, 6000))]
    for n in size([40], [40, 80, 120]):
        j = observe_job(rng, len(jobs), 3)
        big = gen.large(rng, [n])[0]
        j.update(inputs=[big], polys=[big], diagrams=[dict(poly=1, rz=True)] * len(j["diagrams"]), ops=[dict(o, input=1) for o in j["ops"]])
        jobs.append(j)
    good = execute(check, jobs)
    judge(check, "ObserversTrace", good, observe_run, limit=150000)
    for j, r in good[:2]:
        check.sample(dict(ops=j["ops"], scripts=j["scripts"], messages=[e["k"] for e in r["log"] if e["o"] == 1]))
    check.note("deliveries", sum(len(r["log"]) for _, r in good))


# ---- sessions ---------------------------------------------------------------------------------------------------
SESSION_CFG = """SPECIFICATION Spec
CONSTANTS ND = %d NI = %d Depth = %d Emitting = %s
INVARIANTS Quiet OwnInput KeptCovers Emit
PROPERTIES OnlyAdded OthersUntouched
CHECK_DEADLOCK FALSE
"""


def session_job(rng, i, prog, nmax):
    np, ni = max(prog["world"]["poly"]), max([o[x] for o in prog["ops"] for x in "ij"] + [1])
    keep = ("sites", "poly", "box", "typ", "ptyp", "fam")
    inputs = [[{k: x[k] for k in keep if k in x} for x in gen.sharing(rng, nmax, ni)] for _ in range(np)]
    return dict(id=i, kind="session", world=prog["world"], ops=prog["ops"], inputs=inputs, seed=rng.randint(0, 10 ** 6), time=60)


def c13(check):
    rng = random.Random("C13-%d" % SEED)
    r = model_check("MCSession", SESSION_CFG % (2, size(1, 2), 2, "TRUE"), "programs of two operations", heap="12g")
    check.spec(r)
    progs = histories(r)
    check.note("programs_of_two", len(progs))
    if QUICK:
        progs = rng.sample(progs, 500)
    r = model_check("MCSession", SESSION_CFG % (3, 2, size(5, 7), "TRUE"), "random programs", workers=1,
                    args=("-simulate", "num=%d" % size(350, 6000), "-depth", "10", "-seed", str(SEED)))
    check.spec(r)
    more = histories(r)  # TLC prints all successors of the last states of each walk
    progs += rng.sample(more, min(len(more), size(400, 8000)))
    jobs = [session_job(rng, i, p, rng.choice([3, 6, size(9, 16)])) for i, p in enumerate(progs)]
    good = execute(check, jobs)
    for j, r in good:
        if r["silent"]:
            check.violation("C13.observed", dict(kind="session", inputs=j["inputs"], keys=r["silent"]), "attaching an observer changed the result")
    judge(check, "SessionTrace", good, lambda j, r: dict(world=j["world"], log=r["log"], fresh=r["fresh"]))
    check.note("creations", sum(1 for _, r in good for e in r["log"] if e["k"] == "end"))
    for j, r in good[:2] + good[-2:]:
        check.sample(dict(world=j["world"], ops=j["ops"]))


# ---- provided observers -----------------------------------------------------------------------------------------
OPTIONS_CFG = """SPECIFICATION Spec
CONSTANTS MaxObs = %d MaxFlags = %d MaxMsgs = %d Emitting = %s
INVARIANTS CountsRight TreeResultOnlyWithoutSteps OwnSettingsWin Emit
CHECK_DEADLOCK FALSE
"""


def options_job(rng, i, world, nmax, given=None):
    shared = given is None and rng.random() < .4
    inputs = given or (gen.sharing(rng, nmax, 2) if shared else gen.mixed(rng, rng.choice([1, 1, 2]), nmax))
    same = shared and rng.random() < .4
    free = {"print", "show"}
    obs = []
    for w in world:
        o = dict(w, default=False, omit=rng.random() < .4, empty=rng.random() < .3, scale=1, size=[8, 8], offset=1)
        if w["type"] == "voronoi" and rng.random() < .5:
            o.update(size=rng.choice([[8, 8], [3, 4], [5.5, 2]]), offset=rng.choice([1, 0, 3, 0.5]), scale=rng.choice([1, 2, 0.5]))
        chance = {"voronoi": "show", "debug": "print", "tree": "print" if w["text"] else None}[w["type"]]
        if chance in free and rng.random() < .3:
            free.discard(chance)
            o["default"] = True
        obs.append(o)
    keep = ("sites", "poly", "box", "typ", "ptyp", "fam")
    inputs = [dict({k: x[k] for k in keep if k in x}, rz=True if same else rng.random() < .8, k=scale_for(gen.corners_of(x))) for x in inputs]
    return dict(id=i, kind="options", obs=obs, inputs=inputs, shared=shared, same=same, time=60)


def options_run(j, r):
    keep = ("type", "steps", "clip", "result", "text")
    return dict(obs=[dict({k: o[k] for k in keep}, on=[], off=[]) for o in j["obs"]], **{k: r[k] for k in ("stream", "log", "fin", "same", "clean")})


def c11(check):
    rng = random.Random("C11-%d" % SEED)
    check.spec(model_check("MCOptions", OPTIONS_CFG % (2, size(0, 1), size(1, 2), "FALSE"), "options"))
    r = model_check("MCOptions", OPTIONS_CFG % (2, 0, 0, "TRUE"), "pairs of observers")
    check.spec(r)
    worlds = histories(r)
    singles, pairs = [w for w in worlds if len(w) == 1], [w for w in worlds if len(w) > 1]
    r = model_check("MCOptions", OPTIONS_CFG % (3, 5, 0, "TRUE"), "random worlds", workers=1,
                    args=("-simulate", "num=%d" % size(60, 1200), "-depth", "14", "-seed", str(SEED)))
    check.spec(r)
    more = histories(r)
    more = [w for n, w in enumerate(more) if n + 1 == len(more) or len(more[n + 1]) < len(w) or w[:-1] != more[n + 1][:len(w) - 1] or rng.random() < .1]
    worlds = singles + rng.sample(pairs, size(40, len(pairs))) + rng.sample(more, min(len(more), size(60, 1200)))
    jobs = [options_job(rng, i, w, size(6, 10)) for i, w in enumerate(worlds)]
    trees = [w for w in singles if w[0]["type"] == "tree"]
    for x in gen.large(rng, size([40, 60, -40], [40, 60, 90, 120, -40, -90])):  # drawings of trees with many nodes
        w = rng.choice([w for w in trees if w[0]["steps"] and not w[0]["text"]] if rng.random() < .7 else trees)
        jobs.append(options_job(rng, len(jobs), w, 0, [x]))
    good = execute(check, jobs)
    judge(check, "OptionsTrace", good, options_run)
    check.note("callbacks", sum(len(r["log"]) for _, r in good))
    check.note("worlds", len(worlds))
    for j, r in good[:2] + good[-2:]:
        check.sample(dict(observers=j["obs"], stream=r["stream"], callbacks=[[e["o"], e["at"], e["n"]] for e in r["log"]]))


# ---- drawings ---------------------------------------------------------------------------------------------------
CANVAS_CFG = """SPECIFICATION Spec
CONSTANTS MaxCmds = %d MaxFlags = %d Emitting = %s
INVARIANTS ShownIsUnion LabelsNeedOwner Emit
PROPERTY OnlyGrows
CHECK_DEADLOCK FALSE
"""


def canvas_job(rng, i, inp, plans):
    j = job_of(i, inp, "canvas", rz=rng.random() < .7, time=60)
    corners = [(gen.F(a), gen.F(b)) for a, b in gen.corners_of(inp)]
    j["cw"] = [[frac_units(x, j["k"]), frac_units(y, j["k"])] for x, y in outline_cw(frpts(gen.corners_of(inp)))]
    e = power_below(max(c[0] for c in corners) - min(c[0] for c in corners))
    j["ext"] = gen.text(e)
    n = len(inp["sites"])
    moments = rng.sample(range(1, 3 * n), min(3 * n - 1, rng.choice([1, 2, 3]))) + rng.sample(["sweep", "end", "end"], 1)
    j["plans"] = {str(m): dict(cmds=rng.choice(plans), seed=rng.randint(0, 10 ** 6), finish=rng.choice(["get", "get", "show"]), size=rng.choice([[8, 8], [3, 4], [6.5, 2]]),
                               offset=gen.text(e * rng.choice([gen.F(1), gen.F(1, 2), gen.F(0), gen.F(3), gen.F(1, 10)])),
                               scale=gen.text(e * rng.choice([gen.F(1), gen.F(1, 2), gen.F(1, 10)])), otyp=rng.choice(["float", "decimal", "int"])) for m in moments}
    return j


def c19(check):
    rng = random.Random("C19-%d" % SEED)
    check.spec(model_check("MCCanvas", CANVAS_CFG % (2, size(1, 2), "FALSE"), "canvas"))
    r = model_check("MCCanvas", CANVAS_CFG % (1, 2, "TRUE"), "single commands")
    check.spec(r)
    singles = histories(r)
    r = model_check("MCCanvas", CANVAS_CFG % (5, 9, "TRUE"), "random plans", workers=1, args=("-simulate", "num=%d" % size(60, 600), "-depth", "16", "-seed", str(SEED)))
    check.spec(r)
    more = [h for h in histories(r) if len(h) > 1 or h[0]["k"] == "all"]
    more = rng.sample(more, min(len(more), size(1500, 15000)))
    inputs = gen.mixed(rng, size(260, 5000), size(9, 16)) + grid_inputs(rng)[:size(60, 500)] + gen.large(rng, size([25], [25, 40, 60]))
    jobs = []
    for i, x in enumerate(inputs):
        jobs.append(canvas_job(rng, i, x, singles if rng.random() < .5 else more))
    good = execute(check, jobs)
    judge(check, "CanvasTrace", good, lambda j, r: r)
    check.note("views", sum(len(r["views"]) for _, r in good))
    check.note("commands", sum(len(w["cmds"]) for _, r in good for w in r["views"]))
    for j, r in good[:2] + good[-2:]:
        check.sample(dict(input=describe(j), plans=j["plans"]))


# ---- histories generated from a specification and replayed --------------------------------------------------------
def replay(check, kind, hists, what, chunk=2000, **kw):
    """replays histories TLC produced; a deviation from the specification's outcome is a violation"""
    jobs = [dict(id=i, kind=kind, hists=hists[a:a + chunk], time=300, **kw) for i, a in enumerate(range(0, len(hists), chunk))]
    res = run_jobs(jobs, per_job=330)
    for j in jobs:
        r = res.get(j["id"])
        if r is None:
            continue
        if "fault" in r:
            check.violation("%s.%s" % (check.prop, r["fault"]), dict(kind=kind), r.get("where", ""))
            continue
        for b in r["bad"]:
            check.violation("%s.%s" % (check.prop, b["clause"]), dict(kind=kind, beh=b.get("beh"), ops=b["ops"]), b)
    check.traces(len(hists))
    check.note(what, len(hists))
    for h in hists[:1] + hists[-1:]:
        check.sample(h)


SUBJECT_CFG = """SPECIFICATION Spec
CONSTANTS Parents = {1, 2} Children = {%s} Observers = {%s} Depth = %d
Mixes <- %s
INVARIANTS OnlyNotify SenderIsParent ChildSeesParent Emit
PROPERTY ExactlyOnce
CHECK_DEADLOCK FALSE
"""


def c18(check):
    r = model_check("MCSubject", SUBJECT_CFG % ("3", "1, 2", size(4, 5), "AllMixes"), "all histories", heap="12g")
    check.spec(r)
    replay(check, "subject", histories(r), "histories_exhaustive", nsub=3)
    r = model_check("MCSubject", SUBJECT_CFG % ("3, 4", "1, 2, 3", size(12, 16), "AllMixes"), "random histories", workers=1,
                    args=("-simulate", "num=%d" % size(1500, 15000), "-depth", "20", "-seed", str(SEED)))
    check.spec(r)
    replay(check, "subject", histories(r), "histories_random", nsub=4, chunk=200)


def tree_verdicts(check, jobs, chunked):
    """the recorded trees of some jobs, judged by TreeTrace"""
    for j, r in chunked:
        runs = r["runs"]
        for a in range(0, len(runs), 20000):
            part = runs[a:a + 20000]
            if not part:
                continue
            fails, t = validate("TreeTrace", dict(trees=r["trees"], runs=[dict(ops=x["ops"], obs=x["obs"], keys=x.get("keys", [])) for x in part]))
            check.spec(t)
            check.traces(len(part))
            for n, clause, detail in fails:
                check.violation(clause, dict(kind=j["kind"], ops=part[n]["ops"][:detail[0] + 1 if detail else None], tree=r["trees"][part[n]["obs"][-1] - 1]["n"]
                                             if not part[n]["ops"] else None), detail)


def split(items, parts):
    n = max(1, -(-len(items) // parts))
    return [items[a:a + n] for a in range(0, len(items), n)]


TREE_CFG = """SPECIFICATION Spec
CONSTANTS K = %d Depth = %d
INVARIANTS KeysRight Emit
CHECK_DEADLOCK FALSE
"""
FULLTREE_CFG = """SPECIFICATION Spec
CONSTANTS MaxLeaves = %d
INVARIANTS RotationsKeepOrder SearchEndsInLeaf LeavesAreEveryOther CutRemovesTwo Emit
CHECK_DEADLOCK FALSE
"""


def c17(check):
    jobs = []

    def histories_of(k, depth, **kw):
        r = model_check("MCTree", TREE_CFG % (k, depth), "histories", **kw)
        check.spec(r)
        for part in split(histories(r), 8):
            jobs.append(dict(id=len(jobs), kind="treehist", hists=part, K=k, time=300))
    sim = lambda n, d: dict(workers=1, args=("-simulate", "num=%d" % n, "-depth", str(d + 5), "-seed", str(SEED)))
    histories_of(5, size(6, 7))
    histories_of(7, 14, **sim(size(400, 5000), 14))
    histories_of(12, 40, **sim(size(150, 2000), 40))
    histories_of(25, 120, **sim(size(20, 300), 120))
    r = model_check("FullTree", FULLTREE_CFG % size(6, 8), "trees with two children")
    check.spec(r)
    shapes = histories(r)
    for part in split(shapes, 8):
        jobs.append(dict(id=len(jobs), kind="fulltree", hists=part, time=300))
    res = run_jobs(jobs, per_job=330)
    good = []
    for j in jobs:
        q = res.get(j["id"])
        if q is None:
            continue
        if "fault" in q:
            check.violation("C17." + q["fault"], dict(kind=j["kind"]), q.get("where", ""))
            continue
        for b in q.get("bad", []):
            check.violation("C17." + b["clause"], dict(kind=j["kind"], ops=b["ops"]), b)
        if "broken" in q:
            check.violation("C17.exception", dict(kind=j["kind"], ops=q["broken"]["ops"]), q["broken"])
        good.append((j, q))
    merged = {}
    for j, q in good:
        m = merged.setdefault(j["kind"] + str(j.get("K", "")), (j, dict(trees=[], runs=[])))[1]
        base = len(m["trees"])
        m["trees"] += q["trees"]
        m["runs"] += [dict(x, obs=[o + base if o else 0 for o in x["obs"]]) for x in q["runs"]]
    tree_verdicts(check, jobs, merged.values())
    check.note("histories", sum(len(j["hists"]) for j in jobs if j["kind"] == "treehist"))
    check.note("shapes", len(shapes))
    check.sample(good[0][0]["hists"][0] if good else "")
    check.sample(shapes[-1]["tree"])


# ---- the specification itself -----------------------------------------------------------------------------------
FORTUNE_CFG = """SPECIFICATION Spec
CONSTANTS Width = %d Height = %d MaxSites = %d
INVARIANTS BeachIsLowerEnvelope VerticesAreEmptyCircles EdgesMatchBeach OpenEndsAreTraced SweptIsComplete NoDeadlockBeforeEnd
PROPERTIES SweepMovesDown SitesOnce %s
CHECK_DEADLOCK FALSE
"""


def design(check):
    """model checks Fortune on all small site sets: the specification the recordings are compared with is right itself"""
    for w, h, n in size([(3, 3, 4)], [(3, 3, 9), (4, 3, 5), (5, 2, 5), (2, 6, 5)]):
        check.spec(model_check("MCFortune", FORTUNE_CFG % (w, h, n, "" if QUICK else "Finishes"), "%dx%d lattice, up to %d sites" % (w, h, n)))


# ---- findings that are not repaired -----------------------------------------------------------------------------
def known_findings(check):
    """replays the listed inputs; a listed failure is reported as known, anything else is not touched"""
    for f in check.known:
        j = dict(f["input"])
        if j["kind"] in ("final", "sweep"):
            j = job_of(0, j, j["kind"], rz=j.get("rz", True), want=j.get("want", []))
        j["id"] = 0
        r = run_jobs([j])[0]
        failed = []
        if "fault" in r:
            failed = ["%s.%s" % (check.prop, r["fault"])]
        elif j["kind"] == "final":
            fails, _ = validate("DiagramTrace", dict(runs=[diagram_run(j, r)], want=[check.prop]))
            failed = [c for _, c, _ in fails]
        if failed:
            print("KNOWN-FINDING: property=%s %s (%s)" % (check.prop, f["what"], ", ".join(sorted(set(failed)))))


CHECKS = {n.upper(): f for n, f in list(globals().items()) if n[0] == "c" and n[1:].isdigit()}


def main(prop):
    check = Check(prop)
    try:
        CHECKS[prop](check)
        known_findings(check)
    except MachineryError as e:
        if check.violations:
            return check.finish()
        sys.stderr.write("check of %s could not be carried out: %s\n" % (prop, e))
        return 2
    return check.finish()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
