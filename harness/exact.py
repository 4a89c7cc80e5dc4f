"""Exact rational geometry used only to choose inputs (the domain of the properties), never to judge results."""
from fractions import Fraction as F


def fr(v):
    return F(str(v))


def frpts(pts):
    return [(fr(x), fr(y)) for x, y in pts]


def orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def hull_cw(pts):
    """Corners of the convex hull in clockwise order, starting with the leftmost lowest one."""
    pts = sorted(set(pts))
    if len(pts) < 3:
        return pts
    lo, up = [], []
    for p in pts:
        while len(lo) > 1 and orient(lo[-2], lo[-1], p) <= 0:
            lo.pop()
        lo.append(p)
    for p in reversed(pts):
        while len(up) > 1 and orient(up[-2], up[-1], p) <= 0:
            up.pop()
        up.append(p)
    ccw = lo[:-1] + up[:-1]
    return [ccw[0]] + ccw[:0:-1]


def outline_cw(pts):
    """the points clockwise if all of them lie on the border of their convex hull, corners or not, otherwise only the corners"""
    cw = hull_cw(pts)
    out = []
    for k, a in enumerate(cw):
        b = cw[(k + 1) % len(cw)]
        on = [p for p in set(pts) if p != b and orient(a, b, p) == 0]
        out += sorted(on, key=lambda p: (p[0] - a[0]) ** 2 + (p[1] - a[1]) ** 2)
    return out if len(set(out)) == len(out) == len(set(pts)) and len(cw) > 2 else cw


def inside_closed(poly_cw, p):
    n = len(poly_cw)
    return all(orient(poly_cw[i], poly_cw[(i + 1) % n], p) <= 0 for i in range(n))


def clip(poly, a, b, c):
    """part of the polygon with a x + b y <= c"""
    out = []
    n = len(poly)
    vals = [a * x + b * y - c for x, y in poly]
    for k in range(n):
        p, q, fp, fq = poly[k], poly[(k + 1) % n], vals[k], vals[(k + 1) % n]
        if fp <= 0:
            out.append(p)
        if (fp < 0 < fq) or (fq < 0 < fp):
            t = fp / (fp - fq)
            out.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])))
    return out


def cell(i, sites, poly):
    xi, yi = sites[i]
    order = sorted((j for j in range(len(sites)) if j != i),
                   key=lambda j: (sites[j][0] - xi) ** 2 + (sites[j][1] - yi) ** 2)
    for j in order:
        xj, yj = sites[j]
        # once no corner is farther than half the distance, nothing further away can cut
        if poly and max((x - xi) ** 2 + (y - yi) ** 2 for x, y in poly) * 4 < (xj - xi) ** 2 + (yj - yi) ** 2:
            break
        poly = clip(poly, 2 * (xj - xi), 2 * (yj - yi), xj * xj + yj * yj - xi * xi - yi * yi)
    return poly


def border_state(sites, poly_cw, eps=F(1, 10 ** 6)):
    """'vertex' if a Voronoi vertex lies exactly on the border, 'corner' if a Voronoi edge passes exactly through a
    corner, 'near' if a vertex is within eps of the border or an edge within eps of a corner without meeting it, else ''.  Exact for exact incidences; eps only widens the excluded class."""
    if len(sites) < 2:
        return ''
    ext = max(max(p[0] for p in poly_cw) - min(p[0] for p in poly_cw), max(p[1] for p in poly_cw) - min(p[1] for p in poly_cw))
    e2 = (eps * ext) ** 2
    n = len(poly_cw)
    res = ''
    cells = [cell(i, sites, list(poly_cw)) for i in range(len(sites))]
    # a larger polygon shows vertices just outside of the border
    cx = sum(p[0] for p in poly_cw) / n
    cy = sum(p[1] for p in poly_cw) / n
    big = [(cx + (p[0] - cx) * F(1001, 1000), cy + (p[1] - cy) * F(1001, 1000)) for p in poly_cw]
    corners = set(poly_cw)
    for i, s in enumerate(sites):
        bc = cell(i, sites, big)
        for v in bc:
            d = (v[0] - s[0]) ** 2 + (v[1] - s[1]) ** 2
            # distance of v to the border lines of the polygon
            near = any(orient(poly_cw[k], poly_cw[(k + 1) % n], v) ** 2 <= e2 * ((poly_cw[k][0] - poly_cw[(k + 1) % n][0]) ** 2 +
                       (poly_cw[k][1] - poly_cw[(k + 1) % n][1]) ** 2) for k in range(n))
            if near:
                tied = sum(1 for q in sites if (v[0] - q[0]) ** 2 + (v[1] - q[1]) ** 2 == d)
                if tied >= 3:
                    if not (any(orient(poly_cw[k], poly_cw[(k + 1) % n], v) == 0 for k in range(n)) and inside_closed(poly_cw, v)):
                        return 'near'
                    res = 'vertex'
        for v in cells[i]:
            if v in corners:
                d = (v[0] - s[0]) ** 2 + (v[1] - s[1]) ** 2
                if sum(1 for q in sites if (v[0] - q[0]) ** 2 + (v[1] - q[1]) ** 2 == d) >= 2:
                    res = res or 'corner'
            else:
                for c in poly_cw:
                    if (v[0] - c[0]) ** 2 + (v[1] - c[1]) ** 2 <= e2:
                        return 'near'
    return res
