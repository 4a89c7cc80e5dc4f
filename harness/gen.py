"""Inputs: every family is a generator of dicts (sites, poly or box as decimal texts, fam).  All choices come from the given random.Random.
Only inputs of the domain are returned: distinct sites inside or on a convex polygon, no Voronoi vertex on the border (decided exactly)."""
import itertools, math, random, sys
from decimal import Decimal
from fractions import Fraction as F
from exact import frpts, hull_cw, outline_cw, inside_closed, border_state, orient

TYPES = ["float", "int", "decimal", "str", "list", "array", "np", "mixed"]
PTYPES = ["float", "int", "decimal", "float"]


def text(v):
    """decimal text of a Fraction with a finite expansion, or of a number"""
    if isinstance(v, F):
        d = Decimal(v.numerator) / Decimal(v.denominator)
    else:
        d = Decimal(str(v))
    t = format(d, "f")
    if "." in t:
        t = t.rstrip("0").rstrip(".")
    return "0" if t in ("-0", "") else t


class Pos:
    """lattice -> plane: (x, y) -> (ox + sx * x, oy + sx * y)"""

    def __init__(self, step=F(1), ox=F(0), oy=F(0)):
        self.s, self.ox, self.oy = F(step), F(ox), F(oy)

    def __call__(self, p):
        return (text(self.ox + self.s * p[0]), text(self.oy + self.s * p[1]))


def positions(rng):
    if rng.random() < .15:
        # far from the origin or of extreme size
        step = F(10) ** rng.choice([0, 0, 0, -12, -9, -6, 6, 9, -3])
        m = lambda: rng.choice([0, 1, -1]) * rng.choice([10 ** 5, 10 ** 6, 123456, 10 ** 7])
        return Pos(step, step * m(), step * m()) if rng.random() < .7 else Pos(step)
    step = rng.choice([F(1), F(1), F(1), F(1, 10), F(1, 100), F(1, 2), F(25, 10), F(1000), F(7), F(1, 1000)])
    off = rng.choice([0, 0, 0, 1, -3, 10, 1000, -1000, -50])
    return Pos(step, step * (off if rng.random() < .5 else rng.choice([0, -off])), step * off)


def box_poly(l, r, b, t):
    return [(l, b), (l, t), (r, t), (r, b)]


def corners_of(inp):
    if "box" in inp:
        l, r, b, t = inp["box"]
        return box_poly(l, r, b, t)
    return inp["poly"]


def domain(inp):
    """'' when outside of the domain, otherwise 'vertex', 'corner' or 'plain'"""
    sites = frpts(inp["sites"])
    poly = frpts(corners_of(inp))
    cw = outline_cw(poly)
    if len(set(sites)) != len(sites) or len(cw) != len(poly) or len(cw) < 3:
        return ""
    if not all(inside_closed(cw, s) for s in sites):
        return ""
    st = border_state(sites, cw)
    if st == "near":
        return ""
    return st or "plain"


def make(fam, sites, poly, pos, **kw):
    if len(poly) == 4 and kw.pop("asbox", True) and {p[0] for p in poly} == {min(p[0] for p in poly), max(p[0] for p in poly)} \
            and {p[1] for p in poly} == {min(p[1] for p in poly), max(p[1] for p in poly)}:
        lo = pos((min(p[0] for p in poly), min(p[1] for p in poly)))
        hi = pos((max(p[0] for p in poly), max(p[1] for p in poly)))
        return dict(fam=fam, sites=[pos(s) for s in sites], box=[lo[0], hi[0], lo[1], hi[1]], **kw)
    return dict(fam=fam, sites=[pos(s) for s in sites], poly=[pos(p) for p in poly], **kw)


# ---- polygons on the lattice ------------------------------------------------------------------------------------
def polygon(rng, w, h=None):
    """a convex lattice polygon that contains a good part of [0,w]x[0,h]"""
    h = h or w
    t = rng.random()
    if t < .45:
        return box_poly(0, w, 0, h)
    if t < .55:
        return [(0, 0), (w, 0), (0, h)][:: rng.choice([1, -1])]
    if t < .65:
        return rng.sample([(0, 0), (w, h // 2 or 1), (w // 3, h)], 3)
    if t < .75:
        return rng.sample([(0, h // 2 or 1), (w // 2, h), (w, h - h // 2 or 1), (w - w // 2, 0)], 4)
    if t < .85:
        c = max(1, min(w, h) // 3)
        return [(c, 0), (0, c), (0, h - c), (c, h), (w - c, h), (w, h - c), (w, c), (w - c, 0)]
    # hull of random points
    k = rng.randint(4, 9)
    p = hull_cw([(rng.randint(0, w), rng.randint(0, h)) for _ in range(k)])
    return p if len(p) >= 3 else box_poly(0, w, 0, h)


def margin_box(rng, w, h=None):
    h = h or w
    m = rng.choice([0, 1, 2, 3])
    return box_poly(-m, w + rng.choice([m, 1, 3]), -rng.choice([0, 1, m]), h + m)


# ---- families ---------------------------------------------------------------------------------------------------
def grid_subsets(w, h, sizes, rng=None, n=None):
    """all (or n random) subsets of the w x h lattice with the given sizes"""
    pts = [(x, y) for x in range(1, w + 1) for y in range(1, h + 1)]
    if n is None:
        for k in sizes:
            yield from (list(c) for c in itertools.combinations(pts, k))
    else:
        for _ in range(n):
            yield rng.sample(pts, rng.choice(list(sizes)))


GRID_BOXES = [(F(0), F(4), F(0), F(4)), (F(1), F(3), F(1), F(3)), (F(1, 2), F(21, 4), F(-1, 4), F(15, 4)), (F(-7), F(8), F(-6), F(9)),
              (F(1), F(7, 2), F(3, 4), F(3)), (F(7, 10), F(33, 10), F(4, 10), F(41, 10))]
GRID_POLYS = [[(F(-2), F(0)), (F(6), F(0)), (F(2), F(8))], [(F(2), F(-1)), (F(-1), F(2)), (F(2), F(5)), (F(5), F(2))],
              [(F(0), F(0)), (F(9), F(0)), (F(0), F(9))], [(F(1), F(0)), (F(0), F(1)), (F(0), F(4)), (F(2), F(5)), (F(5), F(4)), (F(4), F(0))]]


def grids(rng, subsets):
    for s in subsets:
        s = list(s)
        rng.shuffle(s)
        if rng.random() < .7:
            b = rng.choice(GRID_BOXES)
            poly = box_poly(*b)
        else:
            poly = list(rng.choice(GRID_POLYS))
        yield make("grid", s, poly, Pos())


def in_poly(rng, poly, w, h, n, tries=4000):
    cw = hull_cw(poly)
    out, seen = [], set()
    for _ in range(tries):
        if len(out) == n:
            break
        p = (rng.randint(0, w), rng.randint(0, h))
        if p not in seen and inside_closed(cw, p):
            seen.add(p)
            out.append(p)
    return out


def lattice(rng, n, w, h=None):
    h = h or w
    poly = polygon(rng, w, h)
    if rng.random() < .2:
        poly = margin_box(rng, w, h)
    s = in_poly(rng, poly, w, h, n)
    return make("lattice%d" % w, s, poly, positions(rng)) if s else None


def collinear(rng, n):
    dx, dy = rng.choice([(1, 0), (0, 1), (1, 1), (1, -1), (2, 1), (1, 3), (-2, 3)])
    ks = rng.sample(range(0, 3 * n), n)
    pts = [(k * dx, k * dy) for k in ks]
    x0, y0 = min(p[0] for p in pts), min(p[1] for p in pts)
    pts = [(p[0] - x0, p[1] - y0) for p in pts]
    w, h = max(p[0] for p in pts), max(p[1] for p in pts)
    a, b, c, d = (rng.choice([1, 2, 5, 0]) for _ in range(4))
    return make("collinear", pts, box_poly(-a - (w == 0), w + b + (w == 0), -c - (h == 0), h + d + (h == 0)), positions(rng))


CIRCLE = [(5, 0), (4, 3), (3, 4), (0, 5), (-3, 4), (-4, 3), (-5, 0), (-4, -3), (-3, -4), (0, -5), (3, -4), (4, -3)]
CIRCLE65 = [(a, b) for a in range(-65, 66) for b in range(-65, 66) if a * a + b * b == 65 * 65]


def cocircular(rng, n):
    base = CIRCLE if rng.random() < .6 else CIRCLE65
    r = 5 if base is CIRCLE else 65
    pts = rng.sample(base, min(n, len(base)))
    if rng.random() < .3:
        pts.append((0, 0))
    if rng.random() < .3:
        q = (rng.randint(-r, r), rng.randint(-r, r))
        if q not in pts:
            pts.append(q)
    a, b, c, d = (rng.choice([0, 1, 2, r]) for _ in range(4))
    return make("cocircular", pts, box_poly(-r - a, r + b, -r - c, r + d), positions(rng))


def nearcircle(rng, n):
    """almost on one circle, in one row or symmetric: very short edges, and events that almost coincide"""
    m = rng.choice([100, 1000, 10000, 100000])
    pts = [(m * x, m * y) for x, y in rng.sample(CIRCLE, min(n, len(CIRCLE)))]
    if rng.random() < .4:
        pts += [(m * x, m * y) for x, y in {(rng.randint(-5, 5), rng.randint(-5, 5)) for _ in range(rng.randint(1, 4))} if (m * x, m * y) not in pts]
    pts = list({(x + rng.choice([0, 0, 1, -1, 2]), y + rng.choice([0, 0, 1, -1, 3])) for x, y in pts})
    a, b, c, d = (rng.choice([1, 3, 10]) * m for _ in range(4))
    return make("nearcircle", pts, box_poly(-6 * m - a, 6 * m + b, -6 * m - c, 6 * m + d), Pos(F(1, rng.choice([1, 1, 100]))))


def nearline(rng, n):
    """almost on one line: circles much larger than the polygon"""
    m = rng.choice([10, 100, 1000, 10000, 100000])
    dx, dy = rng.choice([(1, 0), (0, 1), (1, 1), (1, -1), (2, 1), (1, 3), (-2, 3)])
    e = rng.choice([1, 1, 2, 7])
    pts = list({(k * m * dx + rng.randint(-e, e), k * m * dy + rng.randint(-e, e)) for k in rng.sample(range(2 * n), n)})
    if rng.random() < .3:
        pts.append((rng.randint(-n, n) * m, rng.randint(-n, n) * m))
    x0, x1, y0, y1 = min(p[0] for p in pts), max(p[0] for p in pts), min(p[1] for p in pts), max(p[1] for p in pts)
    a, b, c, d = (rng.choice([1, 2, m, 3 * m, n * m]) for _ in range(4))
    return make("nearline", pts, box_poly(x0 - a, x1 + b, y0 - c, y1 + d), Pos(F(1, rng.choice([1, 1, 100])))) if len(set(pts)) == len(pts) else None


def rows(rng, n):
    """several sites on each of a few rows (or columns)"""
    w = rng.choice([6, 10, 30])
    ys = rng.sample(range(0, w + 1), rng.randint(1, 3))
    s = set()
    for _ in range(n * 3):
        if len(s) < n:
            s.add((rng.randint(0, w), rng.choice(ys)))
    s = list(s)
    if rng.random() < .4:
        s = [(y, x) for x, y in s]
    return make("rows", s, margin_box(rng, w), positions(rng))


def almostrows(rng, n):
    """sites whose heights differ by so little that floats can hardly, or cannot, tell them apart"""
    w = rng.choice([30, 100, 1000])
    far = w * rng.choice([0, 0, 1, -1, 10, 100, 100, 1000, 1000, -1000])
    if rng.random() < .5:
        # the events of more than two sites in a row happen so far away that they need a part of the digits
        tiny = F(w) / 10 ** rng.choice([10, 11, 12])
        ys = [rng.randint(0, w) for _ in range(rng.randint(1, max(1, n // 2)))]
        ys = [rng.choice(ys) for _ in range(n)]
    else:
        tiny = F(w) / 10 ** rng.choice([13, 14, 15])
        ys = 2 * rng.sample(range(w + 1), (n + 1) // 2)
    s = list({(rng.randint(0, w), y) for y in ys[:n]})
    s = [(F(x), y + tiny * rng.choice([-3, -2, -1, 0, 0, 1, 2, 3])) for x, y in s]
    if rng.random() < .3:
        s = [(y, x) for x, y in s]
    a, b, c, d = (F(rng.choice([1, 2, w // 3, w, 4 * w])) for _ in range(4))
    return make("almostrows", s, box_poly(-a, w + b, -c, w + d), Pos(rng.choice([F(1), F(1), F(1, 100), F(1000)]), F(0), F(far)))


def under(rng, n):
    """sites straight below breakpoints and circle events at the height of sites"""
    s = {(0, 6), (4, 6)} if rng.random() < .5 else {(0, 8), (6, 8), (3, 5)}
    cx = 2 if (4, 6) in s else 3
    s.add((cx, rng.randint(0, 3)))
    while len(s) < n:
        s.add((rng.randint(0, 8), rng.randint(0, 8)))
    return make("under", list(s), margin_box(rng, 8), positions(rng))


def ties(rng, n):
    """the lowest point of a circle coincides with a site or with that of another circle"""
    ox = rng.choice([0, 12])
    s = {(5, 10), (1, 8), (9, 8)} if rng.random() < .4 else {(2, 9), (8, 9), (1, 8)}
    s.add((5, 0))
    if ox:
        s |= {(x + 12, y) for x, y in s}
    while len(s) < n:
        s.add((rng.randint(0, 10 + ox), rng.randint(0, 10)))
    return make("ties", list(s), margin_box(rng, 10 + ox, 10), positions(rng))


def border(rng, n):
    """sites on the border and in the corners"""
    w = rng.choice([4, 6, 12, 60])
    poly = box_poly(0, w, 0, w)
    s = set()
    while len(s) < n:
        t = rng.random()
        u = rng.randint(0, w)
        s.add(rng.choice([(0, u), (w, u), (u, 0), (u, w)]) if t < .6 else rng.choice(poly) if t < .8 else (rng.randint(0, w), u))
        if len(s) >= (w + 1) ** 2 // 2:
            break
    return make("border", list(s), poly, positions(rng))


def symmetric(rng, n):
    """point or mirror symmetric sets: many equal distances"""
    w = rng.choice([4, 8, 20])
    s = set()
    while len(s) < min(n, w * w // 2):
        x, y = rng.randint(0, w), rng.randint(0, w)
        s.add((x, y))
        s.add((w - x, y) if w < 20 else (w - x, w - y))
        if w == 4:
            s.add((x, w - y))
    m = rng.choice([1, 2, 3])
    return make("symmetric", list(s), box_poly(-m, w + m, -m, w + m + rng.choice([0, 1])), positions(rng))


def wide(rng, n):
    """very flat or very narrow polygon"""
    w, h = rng.choice([(1000, 10), (10, 1000), (400, 7)])
    poly = box_poly(0, w, 0, h) if rng.random() < .6 else [(0, 0), (w, 0), (w, h)]
    return make("wide", in_poly(rng, poly, w, h, n), poly, positions(rng))


def cluster(rng, n):
    """all sites in a small part of a large polygon"""
    w = rng.choice([100, 1000, 10000])
    r = rng.choice([3, 8])
    cx, cy = rng.randint(0, w - r), rng.randint(0, w - r)
    s = set()
    while len(s) < min(n, (r + 1) ** 2 // 2):
        s.add((cx + rng.randint(0, r), cy + rng.randint(0, r)))
    return make("cluster", list(s), box_poly(0, w, 0, w), positions(rng))


def fullgrid(rng, *_):
    k, m = rng.randint(2, 6), rng.randint(2, 6)
    s = [(x, y) for x in range(1, k + 1) for y in range(1, m + 1)]
    rng.shuffle(s)
    s = s[:rng.choice([len(s), len(s), max(2, len(s) - 2)])]
    return make("fullgrid", s, box_poly(F(0), F(2 * k + rng.choice([1, 2, 3]), 2), F(rng.choice([0, -1]), 2), F(2 * m + rng.choice([1, 2, 3]), 2)), positions(rng))


def single(rng, n):
    poly = polygon(rng, 12)
    s = in_poly(rng, poly, 12, 12, 1)
    return make("single", s, poly, positions(rng)) if s else None


def pair(rng, n):
    poly = polygon(rng, 12)
    s = in_poly(rng, poly, 12, 12, 2)
    return make("pair", s, poly, positions(rng)) if s else None


def finite(v):
    d = v.denominator
    for p in (2, 5):
        while d % p == 0:
            d //= p
    return d == 1


def onborder(rng, n):
    """a rectangle, not always upright, with a Voronoi vertex on its border or in its corner"""
    w = rng.choice([2, 3, 4, 4, 6, 10, 40])
    n = min(n, (w + 1) ** 2 // 2)
    s = rng.sample([(x, y) for x in range(w + 1) for y in range(w + 1)], max(3, n))
    cand = []
    for a, b, c in itertools.combinations(s[:9], 3):
        bx, by, cx, cy = b[0] - a[0], b[1] - a[1], c[0] - a[0], c[1] - a[1]
        g = 2 * (bx * cy - by * cx)
        if g:
            u = F(cy * (bx * bx + by * by) - by * (cx * cx + cy * cy), g)
            v = F(bx * (cx * cx + cy * cy) - cx * (bx * bx + by * by), g)
            if finite(u) and finite(v):
                cand.append(((a[0] + u, a[1] + v), u * u + v * v))
    rng.shuffle(cand)
    cand = [v for v, r in cand[:20] if all((q[0] - v[0]) ** 2 + (q[1] - v[1]) ** 2 >= r for q, r in ((q, r) for q in s))]
    rng.shuffle(cand)
    dirs = [(1, 0), (0, 1), (-1, 0), (0, -1)] * 3 + [(x, y) for x in range(-4, 5) for y in range(-4, 5) if x and y]
    for v in cand[:5]:
        for dx, dy in rng.sample(dirs, 8):
            m = [(dx * (q[0] - v[0]) + dy * (q[1] - v[1]), -dy * (q[0] - v[0]) + dx * (q[1] - v[1])) for q in s]
            if any(y < 0 for _, y in m):
                continue
            k = dx * dx + dy * dy
            lo, hi, up = min(x for x, _ in m) / k, max(x for x, _ in m) / k, max(y for _, y in m) / k
            fl = lambda x: F(x.__floor__())
            t = rng.random()
            a = F(0) if t < .2 and lo >= 0 else min(F(0), fl(lo)) - rng.choice([0, 1, F(1, 2), 3])
            b = F(0) if .2 <= t < .4 and hi <= 0 else max(F(0), -fl(-hi)) + rng.choice([0, 1, F(1, 2), 3])
            c = -fl(-up) + rng.choice([0, 0, 1, F(1, 2), 3])
            if a == b or c <= 0:
                continue
            at = lambda x, y: (v[0] + x * dx - y * dy, v[1] + x * dy + y * dx)
            poly = [at(a, 0), at(b, 0), at(b, c), at(a, c)]
            return make("onborder", s, rng.sample(poly, 4), positions(rng))
    return None


def floats(rng, n):
    """floats that need all their 16 or 17 digits"""
    w = rng.choice([1, 10, 100, 1000])
    v = lambda a, b: text(repr(round(rng.uniform(a, b), 16 - len(str(w)) + 1)))
    sites = [(v(.05 * w, .95 * w), v(.05 * w, .95 * w)) for _ in range(n)]
    if rng.random() < .3:
        sites = [(x, rng.choice(sites[:2])[1]) for x, _ in sites]
    if len(set(sites)) < n:
        return None
    if rng.random() < .5:
        return dict(fam="floats", sites=sites, box=[v(0, .05 * w), v(.95 * w, w), v(0, .05 * w), v(.95 * w, w)])
    corners = [(F(v(0, w)), F(v(0, w))) for _ in range(9)]
    corners = hull_cw(corners + [(F(0), F(0)), (F(0), F(w)), (F(w), F(rng.choice([0, w])))])
    rng.shuffle(corners)
    if not all(inside_closed(hull_cw(corners), (F(a), F(b))) for a, b in sites):
        return None
    return dict(fam="floats", sites=sites, poly=[(text(a), text(b)) for a, b in corners])


def computed(rng, n):
    """points of lines, grids and circles as they come out of a calculation with floats"""
    t = rng.random() * 2 * math.pi
    c, s = math.cos(t), math.sin(t)
    h = rng.choice([.1, .3, 1.1, 2.5, 7, 1000 / 3])
    cx, cy = rng.choice([(0, 0), (0, 0), (3, 4), (100.5, -20.25)])
    k = max(2, int(n ** .5))
    kind = rng.choice(COMPUTED)
    if kind == "line":
        dx, dy = rng.choice([.1, .2, .7, 1.1, .3, 2.3]), rng.choice([.3, .1, -.7, .9, 1.3])
        pts = [(i * dx, i * dy) for i in rng.sample(range(2 * n), n)]
    elif kind == "turnedline":
        pts = [(cx + c * i * h, cy + s * i * h) for i in rng.sample(range(2 * n), n)]
    elif kind == "grid":
        pts = [(cx + i * h, cy + j * h) for i in range(k) for j in range(k)]
    elif kind == "turnedgrid":
        pts = [(cx + c * i * h - s * j * h, cy + s * i * h + c * j * h) for i in range(k) for j in range(k)]
    elif kind == "hexagons":
        pts = [(cx + i * h + j % 2 * h / 2, cy + j * h * math.sqrt(3) / 2) for i in range(k) for j in range(k)]
    elif kind == "turnedhexagons":
        pts = [(cx + c * x - s * y, cy + s * x + c * y) for x, y in [(i * h + j % 2 * h / 2, j * h * math.sqrt(3) / 2) for i in range(k) for j in range(k)]]
    else:
        pts = [(cx + h * math.cos(t + 2 * math.pi * i / n), cy + h * math.sin(t + 2 * math.pi * i / n)) for i in range(n)]
        if rng.random() < .4:
            pts.append((cx, cy))
    pts = list(set(pts))
    rng.shuffle(pts)
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    m = lambda: h * rng.choice([0, .5, 1, 1.3, 3])
    lo = lambda v: text(repr(math.floor((v - m()) * 8) / 8))
    hi = lambda v: text(repr(math.ceil((v + m()) * 8) / 8))
    return dict(fam="computed", sites=[(text(repr(x)), text(repr(y))) for x, y in pts], box=[lo(min(xs)), hi(max(xs)), lo(min(ys)), hi(max(ys))])


COMPUTED = ["line", "turnedline", "grid", "turnedgrid", "hexagons", "turnedhexagons", "circle"]


def wheel(rng, n):
    """one cell with many borders"""
    m = 10 ** rng.choice([4, 5])
    pts = [(0, 0)]
    f = rng.random()
    rs = rng.choice([[1], [1], [1, 1, 1.01]])
    for i in range(n - 1):
        a = 2 * math.pi * (i + f) / (n - 1)
        r = m * rng.choice(rs)
        pts.append((round(r * math.cos(a)), round(r * math.sin(a))))
    rng.shuffle(pts)
    a, b, c, d = (round(m * rng.choice([1.02, 1.1, 2, 3])) for _ in range(4))
    return make("wheel", pts, box_poly(-a, b, -c, d), positions(rng)) if len(set(pts)) == n else None


FAMILIES = [(lattice, 6), (collinear, 1), (cocircular, 2), (rows, 2), (under, 1), (ties, 1), (border, 2), (symmetric, 2), (wide, 1),
            (cluster, 1), (nearcircle, 1), (nearline, 1), (almostrows, 1.5), (computed, 1), (onborder, 2), (floats, 1), (wheel, .5), (single, .3), (pair, .5)]


def flattened(rng, inp):
    """the input with corners on the sides of the polygon, where it does not turn"""
    cw = hull_cw(frpts(corners_of(inp)))
    for _ in range(rng.choice([1, 1, 2, 4])):
        k = rng.randrange(len(cw))
        a, b = cw[k - 1], cw[k]
        t = rng.choice([F(1, 2), F(1, 4), F(3, 4), F(1, 5), F(9, 10)])
        cw.insert(k, (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])))
    k = rng.randrange(len(cw))
    cw = cw[k:] + cw[:k]
    if rng.random() < .5:
        rng.shuffle(cw)
    return dict({k: v for k, v in inp.items() if k != "box"}, poly=[(text(x), text(y)) for x, y in cw])


def one(rng, nmax):
    x = plain(rng, nmax)
    return flattened(rng, x) if x is not None and rng.random() < .06 else x


def plain(rng, nmax):
    f = rng.choices([a for a, _ in FAMILIES], [b for _, b in FAMILIES])[0]
    n = rng.randint(2, nmax)
    if rng.random() < .5:
        n = min(n, rng.randint(2, 8))
    if f is lattice:
        w = rng.choice([6, 10, 10, 30, 100, 1000, 10000])
        return lattice(rng, min(n, w * w // 4), w, rng.choice([None, w, max(2, w // 2)]))
    return f(rng, n)


def accept(gen, n, rng, types=True):
    """the first n inputs of the domain, with representations chosen"""
    out = []
    miss = 0
    for inp in gen:
        if len(out) >= n or miss > 50 * n + 1000:
            break
        if inp is None or not inp["sites"]:
            miss += 1
            continue
        d = domain(inp)
        # the centers of almost collinear sites are known with 10 to 12 digits only, too few to meet a corner
        if not d or inp["fam"] in ("computed", "nearline") and d != "plain":
            miss += 1
            continue
        inp["dom"] = d
        if types:
            inp["typ"] = rng.choice(TYPES) if rng.random() < .4 else "float"
            inp["ptyp"] = rng.choice(PTYPES)
            if any("." in c for p in inp["sites"] for c in p) and inp["typ"] in ("int",):
                inp["typ"] = "float"
            if long(inp["sites"]):
                inp["typ"] = rng.choice(["str", "decimal"])
            if long(corners_of(inp)):
                inp["ptyp"] = "decimal"
        out.append(inp)
    return out


def endless(f, *a):
    while True:
        yield f(*a)


def mixed(rng, n, nmax=14):
    return accept(endless(one, rng, nmax), n, rng)


def large(rng, sizes):
    """sizes: numbers of sites, negative for one cell with that many neighbours"""
    out = []
    for n in sizes:
        n, spokes = abs(n), n < 0

        def g():
            w = rng.choice([100, 1000, 10000])
            t = rng.random()
            if spokes:
                return wheel(rng, n)
            if t < .6:
                return lattice(rng, n, w)
            if t < .8:
                k = max(2, int(n ** .5))
                s = [(x, y) for x in range(1, k + 1) for y in range(1, k + 1)]
                rng.shuffle(s)
                return make("fullgrid", s, box_poly(F(0), F(k + 1), F(0), F(2 * k + 3, 2)), positions(rng))
            return symmetric(rng, n) if n < 60 else lattice(rng, n, 10000, 5000)
        out += accept(endless(g), 1, rng)
    return out


def key(inp):
    return (tuple(sorted(map(tuple, inp["sites"]))), tuple(map(tuple, corners_of(inp))))


def sharing(rng, nmax, k):
    """k inputs with the same polygon"""
    while True:
        first = mixed(rng, 1, nmax)[0]
        out = [first]
        for _ in range(40):
            if len(out) == k:
                return out
            x = dict(first, sites=rng.sample(first["sites"], rng.randint(1, len(first["sites"]))))
            if domain(x):
                out.append(x)


# ---- related inputs ---------------------------------------------------------------------------------------------
SYMMETRIES = [(1, 0, 0, 1), (-1, 0, 0, 1), (1, 0, 0, -1), (-1, 0, 0, -1), (0, 1, 1, 0), (0, 1, -1, 0), (0, -1, 1, 0), (0, -1, -1, 0)]


def digits(t):
    return len(t.replace("-", "").replace(".", "").lstrip("0"))


def long(points):
    """some coordinate cannot be given as a float"""
    return any(digits(c) > 15 and Decimal(repr(float(c))) != Decimal(c) for p in points for c in p)


def chamfered(rng, corners, w):
    """a larger polygon with some of its corners rounded, so that corners are close to each other"""
    f = rng.choice([20, 200, 2000])
    c = hull_cw([(x * f, y * f) for x, y in corners])
    out = []
    n = len(c)
    for i, p in enumerate(c):
        a, b = c[i - 1], c[(i + 1) % n]
        if rng.random() < .4:
            out.append(p)
            continue
        # points on both sides near the corner, and one between them
        k = rng.choice([F(1, f), F(2, f), F(5, f)])
        u = (p[0] + (a[0] - p[0]) * k, p[1] + (a[1] - p[1]) * k)
        v = (p[0] + (b[0] - p[0]) * k, p[1] + (b[1] - p[1]) * k)
        out += [u, v] if rng.random() < .5 else [u, ((u[0] + v[0] + 2 * p[0]) / 4, (u[1] + v[1] + 2 * p[1]) / 4), v]
    out = [(F(x), F(y)) for x, y in out]
    rng.shuffle(out)
    return out


def lengthened(rng, inp):
    """the input moved by so little that its coordinates get about 20 digits, too many for floats"""
    corners = [(F(a), F(b)) for a, b in corners_of(inp)]
    ext = max(max(c[i] for c in corners) - min(c[i] for c in corners) for i in (0, 1))
    e = Decimal(ext.numerator) / Decimal(ext.denominator)
    tiny = F(10) ** (e.adjusted() - 20)
    x = mapped(inp, (1, 0, 0, 1), F(1), (tiny * rng.randint(-99, 99), tiny * rng.randint(-99, 99)))
    x["typ"] = rng.choice(["str", "decimal"])
    x["ptyp"] = "decimal"
    return x


def mapped(inp, m, s, t, perm=None, rng=None):
    """the image of an input under (x, y) -> s * M (x, y) + t, its sites in the order of perm (perm[i]: new place of site i)"""
    f = lambda p: (text(s * (m[0] * F(p[0]) + m[1] * F(p[1])) + t[0]), text(s * (m[2] * F(p[0]) + m[3] * F(p[1])) + t[1]))
    sites = [f(p) for p in inp["sites"]]
    if perm is not None:
        out = [None] * len(sites)
        for i, j in enumerate(perm):
            out[j] = sites[i]
        sites = out
    corners = [f(p) for p in corners_of(inp)]
    r = dict(fam=inp.get("fam", ""), sites=sites, typ=inp.get("typ", "float"), ptyp=inp.get("ptyp", "float"))
    if "box" in inp and (rng is None or rng.random() < .7):
        xs, ys = sorted({F(c[0]) for c in corners}), sorted({F(c[1]) for c in corners})
        r["box"] = [text(xs[0]), text(xs[1]), text(ys[0]), text(ys[1])]
    else:
        if rng is not None:
            rng.shuffle(corners)
        r["poly"] = corners
    if long(sites):
        r["typ"] = "str" if rng is None else rng.choice(["str", "decimal"])
    if long(corners):
        r["ptyp"] = "decimal"
    return r


if __name__ == "__main__":
    import collections, time
    rng = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
    t = time.time()
    m = mixed(rng, 500)
    print(time.time() - t, collections.Counter(x["fam"] for x in m), collections.Counter(x["dom"] for x in m))
    t = time.time()
    g = accept(grids(rng, grid_subsets(3, 3, range(1, 10))), 10 ** 9, rng)
    print(time.time() - t, len(g), collections.Counter(x["dom"] for x in g))
    t = time.time()
    print([len(x["sites"]) for x in large(rng, [30, 60, 100, 150])], time.time() - t)
