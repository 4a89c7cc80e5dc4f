"""Job kinds: how an input is executed and what is projected from the real objects."""
import os
from decimal import Decimal
import numpy as np
from common import limbs, units, enc

from foronoi import Voronoi, Polygon, BoundingBox
from foronoi.observers.observer import Observer
from foronoi.observers.message import Message

KINDS = {}


def kind(f):
    KINDS[f.__name__] = f
    return f


# ---- inputs ----------------------------------------------------------------------------------------------------
def number(text, typ):
    if typ in ("int", "nparray") and "." not in text and "E" not in text.upper():
        return int(text)
    if typ in ("float", "int", "list", "array", "tuples", "nparray"):
        return float(text)
    if typ == "decimal":
        return Decimal(text)
    if typ == "np":
        return np.int64(text) if "." not in text and "E" not in text.upper() else np.float64(text)
    if typ in ("np32", "array32"):
        f = np.float32(text)
        if typ == "array32" or Decimal(str(f)) == Decimal(text) and sum(map(ord, text)) % 4:
            return f
        if "." in text or "E" in text.upper():
            return np.float64(text)
        return next(t(int(text)) for t in (np.uint8, np.int16, np.int32, np.int64) if np.iinfo(t).min <= int(text) <= np.iinfo(t).max)
    if typ == "mixed":
        return Decimal(text) if sum(map(ord, text)) % 2 else float(text)
    return text


def sites_of(job):
    typ = job.get("typ", "float")
    if typ == "array32" and any(Decimal(str(np.float32(c))) != Decimal(c) for p in job["sites"] for c in p):
        typ = "np32"
    pts = [(number(x, typ), number(y, typ)) for x, y in job["sites"]]
    if typ == "list":
        return [list(p) for p in pts]
    if typ == "tuples":
        return tuple(pts)
    if typ == "array":
        return np.array(pts, dtype=float)
    if typ == "nparray":
        return np.array(pts)
    if typ == "array32":
        return np.array(pts, dtype=np.float32)
    return pts


def polygon_of(job):
    b = job.get("box")
    t = job.get("ptyp", "float")
    if b:
        return BoundingBox(*[number(v, t) for v in b])
    return Polygon([(number(x, t), number(y, t)) for x, y in job["poly"]])


def diagram_of(job):
    return Voronoi(polygon_of(job), remove_zero_length_edges=job.get("rz", True))


class Index:
    """site objects -> index (from 1) of the input site with the same coordinates"""

    def __init__(self, job):
        self.by = {}
        for i, (x, y) in enumerate(job["sites"]):
            self.by[(Decimal(x), Decimal(y))] = i + 1

    def __call__(self, p):
        if p is None:
            return 0
        try:
            return self.by.get((p.xd, p.yd), -1)
        except Exception:
            return -1


def point(p, k):
    """[x, y] or [] if the point has no position"""
    try:
        if p.xd is None or p.yd is None or not p.xd.is_finite() or not p.yd.is_finite():
            return []
        return [enc(p.xd, k), enc(p.yd, k)]
    except AttributeError:
        return []


def find(lst, x):
    for i, y in enumerate(lst):
        if y is x:
            return i + 1
    return 0


# ---- the finished diagram --------------------------------------------------------------------------------------
def project(v, job, seen=None):
    """the finished diagram as index structure (seen: numbers of positions, shared by diagrams that are compared)"""
    k = job["k"]
    seen = {} if seen is None else seen
    idx = Index(job)
    edges = list(v.edges)
    vertices = list(v.vertices)
    half = []
    for e in edges:
        half.append(e)
        half.append(e.twin)
    hid = {}
    for i, h in enumerate(half):
        hid.setdefault(id(h), i + 1)
    vid = {}
    for i, x in enumerate(vertices):
        vid.setdefault(id(x), i + 1)
    H = []
    for h in half:
        if h is None:
            H.append(dict(o=-1, t=0, n=0, p=0, s=-1, g=0))
            continue
        H.append(dict(o=vid.get(id(h.origin), 0), t=hid.get(id(h.twin), 0) if h.twin is not None else 0,
                      n=hid.get(id(h.next), -1) if h.next is not None else 0, p=hid.get(id(h.prev), -1) if h.prev is not None else 0,
                      s=idx(h.incident_point), g=vid.get(id(h.target), 0)))
    V = [dict(p=point(x, k), ce=[hid.get(id(e), 0) for e in x.connected_edges], xy=[repr(c + 0.0) for c in x.xy] if point(x, k) else []) for x in vertices]
    # coinciding coordinates get the same number
    for x in V:
        x["c"] = seen.setdefault(tuple(x.pop("xy")), len(seen) + 1)
    cells = []
    order = {}
    for j, s in enumerate(v.sites):
        order.setdefault(idx(s), j + 1)
    byidx = {}
    for s in v.sites:
        byidx.setdefault(idx(s), s)
    for i in range(1, len(job["sites"]) + 1):
        s = byidx.get(i)
        if s is None:
            cells.append(dict(b=[], v=[], vv=[], a=[0], f=0, name=-1, pos=0, ok=0, ar=[0]))
            continue
        b = s.borders()
        vs = s.vertices()
        a = s.area()
        d = job.get("digits", 3)
        ar = s.area(digits=d)
        fin = a == a and abs(a) != float("inf")
        cells.append(dict(b=[hid.get(id(h), 0) for h in b], v=[point(x, k) for x in vs], vv=[vid.get(id(x), 0) for x in vs],
                          a=limbs(units(float(a), 2 * k)) if fin else [0], ok=1 if fin else 0,
                          f=hid.get(id(s.first_edge), 0), name=s.name if isinstance(s.name, int) else -1, pos=order[i],
                          ar=limbs(units(float(ar), 2 * k)) if fin else [0]))
    acc = sum(1 for x in vertices + list(v.sites) if x.xd is not None and not (x.x == float(x.xd) and x.y == float(x.yd) and tuple(x.xy) == (x.x, x.y)
                                                                              and type(x.x) is float and type(x.y) is float))
    return dict(E=len(edges), H=H, V=V, cells=cells, nsites=len(v.sites), acc=acc)


def canon(v, inp):
    """the finished diagram, exactly, but without the order of its (unordered) vertices"""
    idx = Index(inp)
    at = lambda p: None if p is None or p.xd is None else [str(p.xd.normalize()), str(p.yd.normalize())]

    def key(h):
        return None if h is None else [idx(h.incident_point), idx(h.twin.incident_point) if h.twin is not None else None, at(h.origin), at(h.target)]
    half = [h for e in v.edges for h in (e, e.twin)]
    return dict(half=sorted(([key(h), key(h.next), key(h.prev), key(h.twin)] for h in half), key=repr),
                edges=[sorted([key(e), key(e.twin)], key=repr) for e in v.edges],
                vertices=sorted(([at(x), sorted((key(h) for h in x.connected_edges), key=repr)] for x in v.vertices), key=repr),
                sites=[[idx(s), at(s), s.name, key(s.first_edge), [key(h) for h in s.borders()], repr(s.area())] for s in v.sites])


class Looker(Observer):
    """an observer which reads everything there is, at every message; reading must not change the diagram"""

    def update(self, subject, message, **kwargs):
        if message == Message.DEBUG or not hasattr(subject, "vertices"):
            return
        for e in list(subject.edges):
            for h in (e, e.twin):
                if h is not None:
                    h.target, h.incident_point, h.next, h.prev, h.origin
        for x in list(subject.vertices):
            x.x, x.y, x.xy, x.connected_edges
        done = message == Message.VORONOI_FINISHED
        for s in list(subject.sites or []):
            s.x, s.y, s.xy
            if done:
                s.borders(), s.vertices(), s.area()


def looked(v, job):
    """in a part of the runs (determined by the sites) somebody looks at the diagram while it is being built"""
    if len(job["sites"]) <= 24 and sum(len(x) + len(y) for x, y in job["sites"]) % 4 == 1:
        v.attach_observer(Looker())
    return v


@kind
def final(job):
    v = looked(diagram_of(job), job)
    pts = sites_of(job)
    v.create_diagram(pts)
    return project(v, job)


@kind
def circle(job):
    """a diagram in a bounding circle of contrib, which is not supported yet (known_findings.json)"""
    import warnings
    from foronoi import Voronoi
    from foronoi.contrib import BoundingCircle
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        v = Voronoi(BoundingCircle(*[float(c) for c in job["circle"]]))
    v.create_diagram([(float(x), float(y)) for x, y in job["sites"]])
    return dict(edges=len(v.edges))


@kind
def pair(job):
    seen = {}
    out = {}
    for name, rz in (("off", False), ("on", True)):
        j = dict(job, rz=rz)
        v = looked(diagram_of(j), j)
        v.create_diagram(sites_of(j))
        out[name] = project(v, j, seen)
    return out


# ---- the sweep -------------------------------------------------------------------------------------------------
def leaves_of(root):
    out, stack = [], [root]
    while stack:
        n = stack.pop()
        if n is None:
            continue
        if n.left is None and n.right is None:
            out.append(n)
        else:
            stack.append(n.right)
            stack.append(n.left)
    return out


class Recorder(Observer):
    def __init__(self, job, idx):
        self.job, self.idx, self.k = job, idx, job["k"]
        self.want = set(job["want"])
        self.steps = []
        self.edge_ids = {}
        self.edge_objs = []
        self.vert_ids = {}
        self.last = {}
        self.fin = None

    def update(self, subject, message, **kwargs):
        if message == Message.STEP_FINISHED:
            self.steps.append(self.step(subject))
        elif message == Message.SWEEP_FINISHED:
            self.fin = self.finish(subject)

    # -- helpers
    def vertex_id(self, x):
        return self.vert_ids.get(id(x), 0)

    def see(self, subject):
        """number new vertices and edges in order of appearance"""
        newv = [x for x in subject.vertices if id(x) not in self.vert_ids]
        for x in newv:
            self.vert_ids[id(x)] = len(self.vert_ids) + 1
            self.edge_objs.append(x)  # keep alive
        newe = []
        for e in subject.edges:
            if id(e) not in self.edge_ids and (e.twin is None or id(e.twin) not in self.edge_ids):
                newe.append(e)
                n = len(self.edge_ids) // 2 + 1
                self.edge_ids[id(e)] = 2 * n - 1
                self.edge_ids[id(e.twin)] = 2 * n
                self.edge_objs.append(e)
        return newv, newe

    def origin(self, h):
        o = h.origin
        if hasattr(o, "breakpoint"):
            return dict(v=0, bp=[self.idx(o.breakpoint[0]), self.idx(o.breakpoint[1])])
        return dict(v=self.vertex_id(o) or -1, bp=[])

    def edge(self, e):
        return dict(s=[self.idx(e.incident_point), self.idx(e.twin.incident_point)], o=[self.origin(e), self.origin(e.twin)],
                    tw=1 if e.twin.twin is e else 0)

    def link(self, x):
        """the half-edges around vertex x"""
        out = []
        for h in x.connected_edges:
            t = h.twin
            n = t.next
            out.append(dict(h=self.edge_ids.get(id(h), 0), s=self.idx(h.incident_point), ts=self.idx(t.incident_point),
                            n=self.edge_ids.get(id(n), 0) if n is not None else 0, pv=1 if n is not None and n.prev is t else 0,
                            o=1 if h.origin is x else 0))
        return out

    def tree(self, root):
        nodes, objs = [], []

        def walk(n, parent):
            i = len(nodes) + 1
            if i > 4 * len(self.job["sites"]) + 10:
                raise RuntimeError("status tree has too many nodes")
            rec = dict(l=0, r=0, h=n.height, a=0, b=0, pa=1 if n.parent is parent else 0, pd=0, su=0, leaf=0)
            nodes.append(rec)
            objs.append(n)
            if n.left is None and n.right is None:
                rec["leaf"] = 1
                rec["a"] = rec["b"] = self.idx(n.data.origin)
            else:
                rec["a"], rec["b"] = self.idx(n.data.breakpoint[0]), self.idx(n.data.breakpoint[1])
            if n.left is not None:
                rec["l"] = walk(n.left, n)
            if n.right is not None:
                rec["r"] = walk(n.right, n)
            return i
        walk(root, None)
        num = {id(o): i + 1 for i, o in enumerate(objs)}
        for o, rec in zip(objs, nodes):
            if rec["leaf"]:
                p, s = o.predecessor, o.successor
                rec["pd"] = num.get(id(p), -1) if p is not None else 0
                rec["su"] = num.get(id(s), -1) if s is not None else 0
        return nodes

    def step(self, subject):
        k, ev = self.k, subject.event
        circle = bool(getattr(ev, "circle_event", False))
        if "lite" in self.want:
            return dict(k="c" if circle else "s", s=0 if circle else self.idx(ev.point), beach=[], line=[0], tri=[])
        leaves = [n for n in leaves_of(subject.status_tree)]
        r = dict(k="c" if circle else "s", line=enc(Decimal(subject.sweep_line), k), y=enc(ev.yd, k),
                 beach=[self.idx(n.data.origin) for n in leaves])
        if circle:
            r.update(s=0, name=0, tri=[self.idx(p) for p in ev.point_triple], c=[enc(ev.center.xd, k), enc(ev.center.yd, k)],
                     rad=enc(ev.radius, k))
        else:
            r.update(s=self.idx(ev.point), name=ev.point.name if isinstance(ev.point.name, int) else -1, tri=[], c=[], rad=[0])
        if "pend" in self.want:
            r["pend"] = [[self.idx(p) for p in e.point_triple] for e in list(subject.event_queue.queue)
                         if getattr(e, "circle_event", False) and e.is_valid]
        if "edges" in self.want or "verts" in self.want:
            newv, newe = self.see(subject)
            r["nv"] = len(newv)
            r["vc"] = point(newv[0], k) if len(newv) == 1 else []
        if "edges" in self.want:
            cur = {}
            for e in subject.edges:
                cur[self.edge_ids[id(e)]] = self.edge(e)
            r["ne"] = len(newe)
            r["nall"] = [len(subject.vertices), len(subject.edges)]
            r["ed"] = [dict(i=(i + 1) // 2, e=e) for i, e in cur.items() if self.last.get(i) != e]
            r["ln"] = self.link(newv[0]) if len(newv) == 1 else []
            self.last = cur
        if "tree" in self.want:
            r["tree"] = self.tree(subject.status_tree)
        return r

    def finish(self, subject):
        r = dict(nsteps=len(self.steps), left=sum(1 for e in list(subject.event_queue.queue) if getattr(e, "is_valid", True)))
        if "edges" in self.want:
            self.see(subject)
            byid = {n: o for o in subject.vertices for n in [self.vertex_id(o)]}
            r["ln"] = [self.link(byid[n]) if n in byid else [] for n in range(1, len(self.vert_ids) + 1)]
        return r


@kind
def sweep(job):
    idx = Index(job)
    v = diagram_of(job)
    rec = Recorder(job, idx)
    v.attach_observer(rec)
    v.create_diagram(sites_of(job))
    names = [-1] * len(job["sites"])
    for s in v.sites:
        i = idx(s)
        if i > 0:
            names[i - 1] = s.name if isinstance(s.name, int) else -1
    return dict(steps=rec.steps, fin=rec.fin or dict(nsteps=-1, ln=[], left=-1), names=names, nV=len(v.vertices), nE=len(v.edges))


# ---- subjects and observers ------------------------------------------------------------------------------------
class Note:
    """a message"""

    def __init__(self, n):
        self.n = n


class Scripted(Observer):
    """observer with one of the behaviours of Subject.tla"""

    def __init__(self, num, beh, world):
        self.num, self.beh, self.world, self.fired = num, beh, world, False

    def update(self, subject, message, **kwargs):
        w = self.world
        if kwargs != dict(payload=w.payload, more=w.more) or kwargs["payload"] is not w.payload:
            w.problems.append("arguments %r" % (kwargs,))
        w.log.append([self.num, w.number(subject), message.n])
        if self.fired or self.beh == "plain":
            return
        attached = lambda o: any(x is o for x in subject.get_observers())
        if self.beh == "drop" and attached(self):
            self.fired = True
            subject.detach_observer(self)
        elif self.beh == "again":
            self.fired = True
            subject.attach_observer(self)
        elif self.beh == "pull":
            self.fired = True
            subject.attach_observer(w.other(self))
        elif self.beh == "push":
            self.fired = True
            if attached(w.other(self)):
                subject.detach_observer(w.other(self))
        elif self.beh == "echo":
            self.fired = True
            subject.notify_observers(Note(message.n + 1), payload=w.payload, more=w.more)
        elif self.beh == "drop":
            self.fired = True


class World:
    def __init__(self, nsub, beh):
        from foronoi.observers.subject import Subject
        self.payload, self.more = object(), [1]
        self.problems, self.log = [], []
        self.subjects = [Subject() for _ in range(nsub)]
        self.observers = [Scripted(i + 1, b, self) for i, b in enumerate(beh)]

    def number(self, s):
        return find(self.subjects, s)

    def other(self, o):
        return self.observers[o.num % len(self.observers)]

    def do(self, op, s, x):
        """-> updates caused, observers of each subject"""
        self.log = []
        sub = self.subjects[s - 1]
        r = sub
        if op == "attach":
            r = sub.attach_observer(self.observers[x - 1])
        elif op == "detach":
            r = sub.detach_observer(self.observers[x - 1])
        elif op == "inherit":
            sub.inherit_observers_from(self.subjects[x - 1])
        else:
            r = sub.notify_observers(Note(x), payload=self.payload, more=self.more)
        if r is not sub:
            self.problems.append("%s returned %r" % (op, r))
        return self.log, [[o.num for o in t.get_observers()] for t in self.subjects]


@kind
def subject(job):
    """replays histories of MCSubject; returns where the real classes do something else"""
    bad = []
    for h in job["hists"]:
        w = World(job["nsub"], h["beh"])
        for i, st in enumerate(h["hist"]):
            try:
                log, lists = w.do(st["op"], st["s"], st["x"])
            except Exception as e:
                bad.append(dict(clause="exception", step=i, beh=h["beh"], ops=[[t["op"], t["s"], t["x"]] for t in h["hist"][:i + 1]], got=repr(e)))
                break
            c = "updates" if log != st["log"] else "observers" if lists != st["lists"] else "arguments" if w.problems else None
            if c:
                bad.append(dict(clause=c, step=i, beh=h["beh"], ops=[[t["op"], t["s"], t["x"]] for t in h["hist"][:i + 1]],
                                got=dict(log=log, lists=lists, problems=w.problems), expected=dict(log=st["log"], lists=st["lists"])))
                break
        if len(bad) >= 20:
            break
    return dict(bad=bad)


# ---- trees -----------------------------------------------------------------------------------------------------
def tree_nodes(root, limit=4000):
    """the nodes in preorder with the numbers of their children; a node reachable twice is cut off by the limit"""
    recs, objs = [], []
    stack = [(root, None, None, None)]
    while stack:
        n, parent, up, side = stack.pop()
        if len(recs) > limit:
            raise RuntimeError("tree has too many nodes")
        i = len(recs) + 1
        recs.append(dict(k=n.data, l=0, r=0, h=n.height, pa=1 if n.parent is parent else 0))
        objs.append(n)
        if up is not None:
            recs[up - 1][side] = i
        if n.right is not None:
            stack.append((n.right, n, i, "r"))
        if n.left is not None:
            stack.append((n.left, n, i, "l"))
    return recs, objs


def tree_record(root, queries):
    from foronoi.tree.tree import Tree
    from foronoi.tree.node import Node
    if root is None:
        return dict(n=[], q=queries, f=[0 if Tree.find(None, k) is None else -1 for k in queries],
                    fv=[0 if Tree.find_value(None, Node(k)) is None else -1 for k in queries], lv=[], mn=0, mx=0)
    recs, objs = tree_nodes(root)
    num = {id(o): i + 1 for i, o in enumerate(objs)}
    no = lambda o: 0 if o is None else num.get(id(o), -1)
    return dict(n=recs, q=queries, f=[no(Tree.find(root, k)) for k in queries], fv=[no(Tree.find_value(root, Node(k))) for k in queries],
                lv=[no(o) for o in Tree.get_leaves(root)], mn=no(root.minimum()), mx=no(root.maximum()))


class Pool:
    """different recordings, numbered from 1"""

    def __init__(self):
        self.items, self.by = [], {}

    def add(self, rec):
        import json
        t = json.dumps(rec, sort_keys=True)
        if t not in self.by:
            self.items.append(rec)
            self.by[t] = len(self.items)
        return self.by[t]


@kind
def treehist(job):
    """replays histories of MCTree and records the tree after every step that has not been seen with the same prefix"""
    from foronoi.tree.tree import Tree
    from foronoi.tree.node import Node
    pool, runs, seen = Pool(), [], set()
    queries = list(range(0, job["K"] + 2))
    for ops in job["hists"]:
        root, obs = None, []
        try:
            for i, (op, k) in enumerate(ops):
                root = Tree.insert(root, Node(k)) if op == 1 else Tree.delete(root, k)
                prefix = str(ops[:i + 1])
                if prefix in seen:
                    obs.append(0)
                else:
                    if len(ops) < 12:
                        seen.add(prefix)
                    obs.append(pool.add(tree_record(root, queries)))
            runs.append(dict(ops=ops, obs=obs))
        except Exception as e:
            import worker
            if worker.where(e) is None and not isinstance(e, (RecursionError, RuntimeError)):
                raise
            return dict(trees=pool.items, runs=runs, broken=dict(ops=ops[:i + 1], what=repr(e)[:300], where=worker.where(e)))
    return dict(trees=pool.items, runs=runs)


def build_tree(t, cls):
    if not t:
        return None
    n = cls(t[1])
    l, r = build_tree(t[0], cls), build_tree(t[2], cls)
    if l is not None:
        n.left = l
    if r is not None:
        n.right = r
    return n


def undress(n, heights=False, parent=None, problems=None):
    if n is None:
        return []
    if problems is not None and n.parent is not parent:
        problems.append("parent of %r" % (n.data,))
    return [undress(n.left, heights, n, problems), n.data, undress(n.right, heights, n, problems)] + ([n.height] if heights else [])


@kind
def fulltree(job):
    """replays what FullTree prescribes for every tree"""
    from foronoi.tree.tree import Tree
    from foronoi.tree.node import Node

    class Keyed(Node):
        """compares by label where the key is misleading"""

        def get_key(self, **kwargs):
            return self.data[0]

    bad, pool, runs = [], Pool(), []

    def all_nodes(root):
        out, stack = {}, [root]
        while stack:
            n = stack.pop()
            if n is not None:
                out[n.data] = n
                stack += [n.left, n.right]
        return out

    def expect(clause, what, got, want):
        if got != want:
            bad.append(dict(clause=clause, ops=what, got=got, expected=want))

    def checked(clause, what, f):
        try:
            f()
        except Exception as e:
            import worker
            if worker.where(e) is None and not isinstance(e, RecursionError):
                raise
            bad.append(dict(clause="exception", ops=what, got=repr(e)[:200]))

    for h in job["hists"]:
        t = h["tree"]
        what = [t]

        def queries():
            root = build_tree(t, Node)
            ns = all_nodes(root)
            p = []
            expect("height", what, undress(root, True, None, p), h["dressed"])
            expect("parent", what, p, [])
            expect("leaves", what, [n.data for n in Tree.get_leaves(root)], h["leaves"])
            expect("search", what, [Tree.find_leaf_node(root, k).data for k in range(1, len(h["search"]) + 1)], h["search"])
            L = [ns[k] for k in h["leaves"]]
            expect("successor", what, [n.successor.data if n.successor is not None else 0 for n in L], h["leaves"][1:] + [0])
            expect("predecessor", what, [n.predecessor.data if n.predecessor is not None else 0 for n in L], [0] + h["leaves"][:-1])
            for k, span in h["spans"]:
                expect("minmax", what + [k], [ns[k].minimum().data, ns[k].maximum().data], [span[0], span[-1]])
                expect("leaf", what + [k], ns[k].is_leaf(), len(span) == 1)
                par = ns[k].parent
                expect("side", what + [k], [ns[k].is_left_child(), ns[k].is_right_child()],
                       [par is not None and par.left is ns[k], par is not None and par.right is ns[k]])
                expect("find", what + [k], Tree.find(root, k) is ns[k], True)
                expect("find", what + [k + 1], Tree.find(root, k + 1) is None, True)
        checked("queries", what, queries)

        def misled():
            # rounding can put the keys on the way to a node in the wrong order: it has to be found all the same
            for m in (1, 5, 40, 71, 96):
                root = build_tree(t, Keyed)
                ns = all_nodes(root)
                for n in ns.values():
                    n.data = (n.data * m % 97, "k%d" % n.data)
                same = lambda x, y: x[1] == y[1]
                for k, n in ns.items():
                    expect("findvalue", what + [k, m], Tree.find_value(root, Keyed(n.data), same) is n, True)
                    expect("findvalue", what + [k, m], Tree.find_value(root, Keyed((n.data[0], "none")), same) is None, True)
        checked("findvalue", what, misled)

        def rotations(name, cases):
            for k, sub, whole in cases:
                def one():
                    root = build_tree(t, Node)
                    _ = root.height
                    z = all_nodes(root)[k]
                    top = z is root
                    above = z.parent
                    y = getattr(Tree, name)(z)
                    p = []
                    expect(name, what + [k], undress(y, True, above, p), sub)
                    expect(name, what + [k], undress(y if top else root, False, None, p), whole)
                    expect("parent", what + [name, k], p, [])
                checked(name, what + [k], one)
        rotations("rotate_left", h["rotl"])
        rotations("rotate_right", h["rotr"])
        for k, g, dressed, order in h["repl"]:
            def one():
                root = build_tree(t, Node)
                _ = root.height
                leaf = all_nodes(root)[k]
                sub = build_tree(g, Node)
                new = leaf.replace_leaf(sub, root)
                p = []
                expect("replace", what + [k, g], undress(new, True, None, p), dressed)
                expect("parent", what + ["replace", k, g], p, [])
                if h["balanced"]:
                    new = Tree.balance_and_propagate(sub)
                    runs.append(dict(ops=[], obs=[pool.add(tree_record(new, order[:1]))], keys=order))
            checked("replace", what + [k, g], one)
        for k, dressed, order in h["cut"]:
            def one():
                root = build_tree(t, Node)
                _ = root.height
                leaf = all_nodes(root)[k]
                par = leaf.parent
                sib = par.right if par.left is leaf else par.left
                new = par.replace_leaf(sib, root)
                p = []
                expect("replace", what + [k, "cut"], undress(new, True, None, p), dressed)
                expect("parent", what + ["cut", k], p, [])
                if h["balanced"]:
                    new = Tree.balance_and_propagate(sib)
                    runs.append(dict(ops=[], obs=[pool.add(tree_record(new, order[:1]))], keys=order))
            checked("replace", what + [k], one)
        if len(bad) > 20:
            break
    return dict(bad=bad, trees=pool.items, runs=runs)


# ---- messages of a diagram -------------------------------------------------------------------------------------
class Listener(Observer):
    def __init__(self, num, session, script):
        self.num, self.session, self.script, self.count = num, session, script, 0

    def update(self, subject, message, **kwargs):
        self.session.receive(self, subject, message, kwargs)
        self.count += 1
        for n, op, o in self.script:
            if n == self.count:
                other = self.session.observers[o - 1]
                if op == "attach":
                    subject.attach_observer(other)
                elif any(x is other for x in subject.get_observers()):
                    subject.detach_observer(other)


class Session:
    def __init__(self, job):
        self.job = job
        polys = [polygon_of(p) for p in job["polys"]]
        self.diagrams = [Voronoi(polys[d["poly"] - 1], remove_zero_length_edges=d["rz"]) for d in job["diagrams"]]
        self.observers = [Listener(i + 1, self, s) for i, s in enumerate(job["scripts"])]
        self.log, self.snaps, self.op = [], [], 0

    def run(self):
        for i, o in enumerate(self.job["ops"]):
            self.op = i + 1
            v = self.diagrams[o["d"] - 1]
            if o["op"] == "attach":
                v.attach_observer(self.observers[o["o"] - 1])
            elif o["op"] == "detach":
                if any(x is self.observers[o["o"] - 1] for x in v.get_observers()):
                    v.detach_observer(self.observers[o["o"] - 1])
            else:
                j = self.job["inputs"][o["input"] - 1]
                self.current, self.idx, self.events, self.keep = j, Index(j), {}, []
                v.create_diagram(sites_of(j))
        return dict(log=self.log, snaps=self.snaps)

    def receive(self, observer, subject, message, kwargs):
        d = find(self.diagrams, subject)
        k = dict(DEBUG="DEBUG", STEP_FINISHED="STEP", SWEEP_FINISHED="SWEEP", VORONOI_FINISHED="VORONOI").get(getattr(message, "name", ""), "?")
        text = 1
        if k == "DEBUG":
            text = 1 if isinstance(kwargs.get("payload"), str) and kwargs["payload"].strip() else 0
        s = 0
        if observer.num <= len(self.diagrams) and k in ("STEP", "SWEEP", "VORONOI") and d:
            self.snaps.append(self.snapshot(subject, k))
            s = len(self.snaps)
        self.log.append(dict(o=observer.num, d=d, k=k, a=text, s=s, i=self.op))

    def snapshot(self, v, k):
        ev = v.event
        leaves = [n.data.origin for n in leaves_of(v.status_tree)]
        r = dict(kind="-", site=0, ev=0, line=0, nv=len(v.vertices), left=0, n=len(self.current["sites"]), fin=0)
        r["in"] = 0
        if k == "STEP":
            r["line"] = 1 if v.sweep_line == ev.yd else 0
            r["ev"] = self.events.setdefault(id(ev), len(self.events) + 1)
            self.keep.append(ev)
            if getattr(ev, "circle_event", False):
                r["kind"] = "c"
                r["in"] = 1 if any(x.xd == ev.center.xd and x.yd == ev.center.yd for x in v.vertices) and \
                    all(n.data is not ev.arc_triple[1] for n in leaves_of(v.status_tree)) else 0
            else:
                r["kind"], r["site"] = "s", max(0, self.idx(ev.point))
                r["in"] = 1 if any(o is ev.point for o in leaves) and ev.point in v.sites else 0
        elif k == "SWEEP":
            r["left"] = sum(1 for e in list(v.event_queue.queue) if getattr(e, "is_valid", True))
        else:
            half = [h for e in v.edges for h in (e, e.twin)]
            r["fin"] = 1 if half and all(point(h.origin, 0) and h.next is not None or h.incident_point is None for h in half) else 0
        return r


@kind
def observe(job):
    return Session(job).run()


# ---- provided observers ----------------------------------------------------------------------------------------
def plain_tree(root):
    """labels and children of the status tree in preorder"""
    out = []

    def walk(n):
        i = len(out)
        out.append(None)
        if n.left is None and n.right is None:
            rec = dict(label=str(n.data.origin.name), l=0, r=0)
        else:
            rec = dict(label="%s,%s" % tuple(p.name for p in n.data.breakpoint), l=0, r=0)
        out[i] = rec
        if n.left is not None:
            rec["l"] = walk(n.left)
        if n.right is not None:
            rec["r"] = walk(n.right)
        return i + 1
    walk(root)
    return out


def dot_record(dot):
    import re
    ids, labels, edges = {}, [], []
    for line in dot.body:
        line = line.strip()
        m = re.match(r'^("[^"]+"|[^\s\["]+) -> ("[^"]+"|[^\s\["]+)', line)
        if m:
            edges.append([m.group(1).strip('"'), m.group(2).strip('"')])
            continue
        m = re.match(r'^("[^"]+"|[^\s\["]+) \[label=("[^"]*"|[^\]]*)\]', line)
        if m:
            ids.setdefault(m.group(1).strip('"'), len(labels) + 1)
            labels.append(m.group(2).strip('"'))
    return dict(labels=labels, edges=[[ids.get(a, 0), ids.get(b, 0)] for a, b in edges])


def lines_record(text):
    rows = [(len(t) - len(t.lstrip(" ")), t.strip()) for t in text.split("\n") if t.strip()]
    ranks = {v: i for i, v in enumerate(sorted({a for a, _ in rows}))}
    return [[ranks[a], b] for a, b in rows]


def num(v):
    f = float(v)
    return repr(f + 0.0)


def artists(ax):
    """everything drawn on the axes, order of drawing aside"""
    import matplotlib.colors as mc
    from matplotlib import patches, text
    out = []
    for l in ax.lines:
        out.append(["line", mc.to_hex(l.get_color()), l.get_linestyle(), [num(v) for v in l.get_xdata()], [num(v) for v in l.get_ydata()]])
    for c in ax.collections:
        out.append(["scatter", sorted(mc.to_hex(f) for f in c.get_facecolors()), [[num(v) for v in p] for p in c.get_offsets()], [num(v) for v in c.get_sizes()]])
    for q in ax.patches + [a for a in ax.artists if isinstance(a, patches.Patch)]:
        r = ["patch", type(q).__name__, mc.to_hex(q.get_edgecolor()), bool(q.get_fill())]
        if isinstance(q, patches.Circle):
            r += [[num(v) for v in q.center], num(float(q.width) / 2)]
        elif hasattr(q, "get_xy"):
            xy = q.get_xy()
            r += [[[num(v) for v in p] for p in xy] if hasattr(xy[0], "__len__") else [num(v) for v in xy]]
        out.append(r)
    for t in ax.texts:
        r = ["text", t.get_text(), [num(v) for v in t.get_position()]]
        if isinstance(t, text.Annotation):
            r += [[num(v) for v in t.xy], t.arrowprops is not None]
        out.append(r)
    return sorted(out, key=repr)


def figure_signature(fig):
    ax = fig.axes[0]
    return dict(size=[num(v) for v in fig.get_size_inches()], lim=[num(v) for v in (*ax.get_xlim(), *ax.get_ylim())], n=len(fig.axes), artists=artists(ax))


def digest(x):
    import hashlib, json
    return hashlib.sha256(json.dumps(x, sort_keys=True).encode()).hexdigest()[:24]


ALL_FLAGS = ["polygon", "edges", "vertices", "sites", "outgoing_edges", "border_to_site", "edge_labels", "site_labels", "triangles", "arcs",
             "sweep_line", "events", "arc_labels", "beach_line"]
MESSAGES = dict(DEBUG="DEBUG", STEP_FINISHED="STEP", SWEEP_FINISHED="SWEEP", VORONOI_FINISHED="VORONOI")


class Catcher:
    def __init__(self):
        self.buf = ""

    def write(self, s):
        self.buf += s

    def flush(self):
        pass


@kind
def options(job):
    """the observers of a world produced by MCOptions watch some diagrams being created"""
    import copy, sys
    import matplotlib.pyplot as plt
    from foronoi import VoronoiObserver, TreeObserver, DebugObserver
    from foronoi.visualization import Visualizer, Presets
    plain = []
    for inp in job["inputs"]:
        v = diagram_of(inp)
        v.create_diagram(sites_of(inp))
        plain.append(digest(canon(v, inp)))
    stream, log, watched, objs, current = [], [], [], [], [None]
    plt.close("all")

    def entry(o, **kw):
        obs = objs[o - 1]
        e = dict(o=o, n=getattr(obs, "n_messages", 0), m=[MESSAGES.get(getattr(m, "name", ""), "?") for m in getattr(obs, "messages", [])],
                 at=len(stream), ok=[], tree=[], dot=dict(labels=[], edges=[]), lines=[])
        e.update(kw)
        log.append(e)
        return e

    def figure_check(o, spec, observer, figure):
        bad = [] if observer is objs[o - 1] else ["observer"]
        kind = stream[-1] if stream else "?"
        if kind in spec["draw"]:
            got = figure_signature(figure)
            vis = Visualizer(current[0], canvas_offset=spec["offset"], figsize=tuple(spec["size"]))
            ref = figure_signature(vis.plot_all(**{f: f in spec["draw"][kind] for f in ALL_FLAGS}, scale=spec["scale"]).get_canvas())
            bad += ["figure" if x == "artists" else "figure_" + x for x in got if got[x] != ref[x]]
        return bad

    def tree_entry(o, **kw):
        entry(o, tree=plain_tree(current[0].status_tree), **kw)

    def given_options(spec, kw, defaults):
        """options may be left out if they have their default value"""
        return {x: kw[x] for x in kw if not (spec["omit"] and (x in defaults and kw[x] == defaults[x] or kw[x] is None))}

    def make(o, spec):
        t = spec["type"]
        own = {f: True for f in spec["on"]}
        own.update({f: False for f in spec["off"]})
        if spec["scale"] != 1:
            own["scale"] = spec["scale"]
        settings = own if own or spec["empty"] else None
        given.append((settings, copy.deepcopy(settings)))
        if t == "voronoi":
            cb = None if spec["default"] else lambda observer, fig: entry(o, ok=figure_check(o, spec, observer, fig))
            kw = dict(visualize_steps=spec["steps"], visualize_before_clipping=spec["clip"], visualize_result=spec["result"], callback=cb, settings=settings)
            if spec["size"] != [8, 8]:
                kw["figsize"] = tuple(spec["size"])
            if spec["offset"] != 1:
                kw["canvas_offset"] = spec["offset"]
            return VoronoiObserver(**given_options(spec, kw, dict(visualize_steps=True, visualize_before_clipping=False, visualize_result=True)))
        if t == "tree":
            if spec["text"]:
                cb = None if spec["default"] else lambda text: tree_entry(o, lines=lines_record(text))
            else:
                cb = lambda observer, dot: tree_entry(o, dot=dot_record(dot), ok=[] if observer is objs[o - 1] else ["observer"])
            kw = dict(visualize_steps=spec["steps"], visualize_result=spec["result"], text_based=spec["text"], callback=cb)
            return TreeObserver(**given_options(spec, kw, dict(visualize_steps=True, visualize_result=True, text_based=False)))
        return DebugObserver(callback=None if spec["default"] else lambda text: entry(o, ok=[] if text == payload[0] else ["payload"]))

    payload = [None]
    given = []
    presets = copy.deepcopy({k: getattr(Presets, k) for k in ("construction", "clipping", "final")})
    printing = [i + 1 for i, s in enumerate(job["obs"]) if s["default"] and (s["type"] == "debug" or s["text"])]
    catcher, shown = Catcher(), []

    def printed():
        """what the (only) printing observer has printed since the last message"""
        text, catcher.buf = catcher.buf, ""
        if text and printing:
            o = printing[0]
            spec = job["obs"][o - 1]
            if spec["type"] == "debug":
                entry(o, ok=[] if text == "%s\n" % (payload[0],) else ["payload"])
            else:
                e = entry(o, tree=plain_tree(current[0].status_tree), lines=lines_record(text))
                e["n"], e["m"] = e["n"] - 1, e["m"][:-1]

    def show(*a, **kw):
        for i, s in enumerate(job["obs"]):
            if s["type"] == "voronoi" and s["default"]:
                entry(i + 1, ok=figure_check(i + 1, s, objs[i], plt.gcf()))

    class First(Observer):
        def update(self, subject, message, **kwargs):
            printed()
            stream.append(MESSAGES.get(getattr(message, "name", ""), "?"))
            current[0] = subject
            payload[0] = kwargs.get("payload")

    objs += [make(i + 1, s) for i, s in enumerate(job["obs"])]
    old, oldshow = sys.stdout, plt.show
    sys.stdout = catcher
    plt.show = show
    try:
        first = First()
        polys = {}
        v = None
        for inp in job["inputs"]:
            if v is None or not job["same"]:
                poly = polys.setdefault(0, polygon_of(inp)) if job["shared"] else polygon_of(inp)
                v = Voronoi(poly, remove_zero_length_edges=inp.get("rz", True))
                v.attach_observer(first)
                for x in objs:
                    v.attach_observer(x)
            v.create_diagram(sites_of(inp))
            printed()
            watched.append(digest(canon(v, inp)))
    finally:
        sys.stdout, plt.show = old, oldshow
        plt.close("all")
    if printing:
        # what is printed during a message is only noticed at the next one
        log.sort(key=lambda e: (e["at"], e["o"]))
    clean = all(a == b for a, b in given) and presets == {k: getattr(Presets, k) for k in presets}
    fin = [dict(n=getattr(x, "n_messages", 0), m=[MESSAGES.get(getattr(m, "name", ""), "?") for m in getattr(x, "messages", [])]) for x in objs]
    return dict(stream=stream, log=log, fin=fin, same=1 if plain == watched else 0, clean=1 if clean else 0)


# ---- related inputs --------------------------------------------------------------------------------------------
def exact_text(v):
    return str(Decimal(str(v)).normalize() + 0)


def frozen(pts):
    """the input object: its elements, their types and values"""
    return repr([type(pts).__name__, [[type(p).__name__, [(type(c).__name__, str(c)) for c in p]] for p in pts]])


def cells_only(v, job):
    k, idx = job["k"], Index(job)
    by = {}
    for s in v.sites:
        by.setdefault(idx(s), s)
    cells = []
    for i in range(1, len(job["sites"]) + 1):
        s = by.get(i)
        hs = s.borders() if s is not None else []
        vs = s.vertices() if s is not None else []
        cells.append(dict(v=[point(x, k) for x in vs], nb=[idx(h.twin.incident_point) if h.twin is not None else -1 for h in hs]))
    return cells


def watched_run(job):
    v = diagram_of(job)
    pts = sites_of(job)
    before = frozen(pts)
    v.create_diagram(pts)
    return dict(cells=cells_only(v, job), given=[[exact_text(x), exact_text(y)] for x, y in pts],
                listed=[[exact_text(s.xd), exact_text(s.yd)] for s in v.sites], before=before, after=frozen(pts))


@kind
def relate(job):
    return dict(base=watched_run(job["base"]), others=[watched_run(o) for o in job["others"]])


# ---- polygons --------------------------------------------------------------------------------------------------
def polygon_record(p, k, queries):
    from foronoi.graph import Coordinate
    return dict(points=[point(c, k) for c in p.points], coords=[[enc(x, k), enc(y, k)] for x, y in p.get_coordinates()],
                bounds=[enc(b, k) for b in (p.min_x, p.max_x, p.min_y, p.max_y)],
                answers=[1 if p.inside(Coordinate(Decimal(x), Decimal(y))) else 0 for x, y in queries])


@kind
def polygon(job):
    """a polygon specified in different ways"""
    return dict(variants=[polygon_record(polygon_of(o), job["k"], job["queries"]) for o in job["others"]])


@kind
def polytable(job):
    """replays what MCPolygon prescribes for each polygon, with its corners in many orders"""
    import itertools, random
    from fractions import Fraction
    from foronoi.graph import Coordinate
    rng = random.Random(job["seed"])
    bad, runs = [], 0
    for h in job["hists"]:
        cyc = [tuple(c) for c in h["cycle"]]
        n = len(cyc)
        orders = list(itertools.permutations(range(n))) if n <= 4 else [rng.sample(range(n), n) for _ in range(job["orders"])]
        for step, ox, oy in job["pos"]:
            step, ox, oy = Decimal(step), Decimal(ox), Decimal(oy)
            at = lambda z: (ox + step * z[0], oy + step * z[1])
            want = [at(c) for c in cyc]
            for o in orders:
                runs += 1
                given = [at(cyc[i]) for i in o]
                t = rng.choice(["float", "decimal", "str"])
                p = Polygon([(number(str(x), t), number(str(y), t)) for x, y in given])
                got = [(c.xd, c.yd) for c in p.points]
                what = None
                if set(got) != set(want) or len(got) != n:
                    what = ("cycle", [[str(c) for c in g] for g in got])
                else:
                    i = want.index(got[0])
                    if got != want[i:] + want[:i]:
                        what = ("cycle", [[str(c) for c in g] for g in got])
                b = h["bounds"]
                if (p.min_x, p.max_x, p.min_y, p.max_y) != (ox + step * b[0], ox + step * b[1], oy + step * b[2], oy + step * b[3]):
                    what = what or ("bounds", [str(c) for c in (p.min_x, p.max_x, p.min_y, p.max_y)])
                if not what:
                    for x, y, w in h["table"]:
                        if w != 2 and p.inside(Coordinate(*at((x, y)))) != (w == 1):
                            what = ("inside", [str(c) for c in at((x, y))] + [w])
                            break
                if what:
                    bad.append(dict(clause=what[0], ops=[[str(c) for c in g] for g in given], got=what[1]))
        if len(bad) > 20:
            break
    return dict(bad=bad, n=runs)


# ---- sessions --------------------------------------------------------------------------------------------------
def isolated(f):
    """the value of f(), computed in a child of this (unused) process"""
    import json, signal
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            import worker
            try:
                out = f()
            except BaseException as e:
                at = worker.where(e)
                out = dict(fault="exception" if at else "projection", where=at or repr(e))
            with os.fdopen(w, "w") as fh:
                fh.write(json.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r) as fh:
            text = fh.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    os.waitpid(pid, 0)
    return json.loads(text) if text else dict(fault="exception", where="the process died")


class Boom(Exception):
    pass


class Trigger(Observer):
    """counts messages and does something at one of them"""

    def __init__(self, n=None, action=None):
        self.n, self.action, self.kinds = n, action, []

    def update(self, subject, message, **kwargs):
        self.kinds.append(getattr(message, "name", "?"))
        if len(self.kinds) == self.n:
            self.action()


class Kept:
    def __init__(self, v):
        self.edges, self.vertices, self.sites = v.edges, v.vertices, v.sites


def moment(kinds, w, rnd):
    sweep = kinds.index("SWEEP_FINISHED") + 1
    if w == 1:
        return 1
    if w == 2:
        return rnd.randint(min(2, sweep), sweep)
    if w == 3 and len(kinds) - sweep > 1:
        return rnd.randint(sweep + 1, len(kinds) - 1)
    return sweep if w == 3 else len(kinds)


@kind
def session(job):
    """a program of MCSession on real objects, with what everything looks like after each step, and fresh results to compare with"""
    import random
    world = job["world"]
    rnd = random.Random(job["seed"])
    inputs = job["inputs"]  # polygon -> its inputs

    def fresh(p, i, rz):
        inp = dict(inputs[p - 1][i - 1], rz=rz)
        v = diagram_of(inp)
        t = Trigger()
        v.attach_observer(t)
        v.create_diagram(sites_of(inp))
        u = diagram_of(inp)
        u.create_diagram(sites_of(inp))
        return dict(n=digest(canon(v, inp)), plain=digest(canon(u, inp)), kinds=t.kinds)
    used = {(world["poly"][o[a] - 1], o[b], world["rz"][o[a] - 1]) for o in job["ops"] for a, b in (("d", "i"), ("e", "j")) if o[a] and o[b]}
    ref = {}
    for key in sorted(used):
        ref[key] = isolated(lambda: fresh(*key))
        if "fault" in ref[key]:
            return ref[key]

    def play():
        import matplotlib.pyplot as plt
        from foronoi.visualization import Visualizer
        polys = [polygon_of(x[0]) for x in inputs]
        D = [None] * len(world["poly"])
        valid, kept, log, now = {}, [], [], {}

        def diagram(d):
            if D[d - 1] is None:
                D[d - 1] = Voronoi(polys[world["poly"][d - 1] - 1], remove_zero_length_edges=bool(world["rz"][d - 1]))
            return D[d - 1]

        def entry(k, d, i=0):
            log.append(dict(k=k, d=d, i=i, snap=[digest(canon(D[x - 1], valid[x])) if x in valid else "" for x in range(1, len(D) + 1)],
                            kept=[digest(canon(a, b)) for a, b in kept]))

        def create(d, i, w=0, action=None):
            v = diagram(d)
            inp = inputs[world["poly"][d - 1] - 1][i - 1]
            valid.pop(d, None)
            entry("begin", d, i)
            t = None
            if w:
                kinds = ref[(world["poly"][d - 1], i, world["rz"][d - 1])]["kinds"]
                t = Trigger(moment(kinds, w, rnd), action)
                v.attach_observer(t)
            try:
                v.create_diagram(sites_of(inp))
            except Boom:
                v.detach_observer(t)
                entry("abort", d)
                return
            if t is not None:
                v.detach_observer(t)
            valid[d] = inp
            kept.append((Kept(v), inp))
            entry("end", d)

        def boom():
            raise Boom()
        for o in job["ops"]:
            d = o["d"]
            if o["op"] == "create":
                create(d, o["i"])
            elif o["op"] == "nest":
                create(d, o["i"], o["w"], lambda: create(o["e"], o["j"]))
            elif o["op"] == "break":
                create(d, o["i"], o["w"], boom)
            elif o["op"] == "fail":
                valid.pop(d, None)
                entry("begin", d)
                try:
                    diagram(d).create_diagram([("1", "2"), ("three", None)])
                except Exception:
                    pass
                entry("abort", d)
            else:
                v = diagram(d)
                for s in v.sites:
                    s.borders(), s.vertices(), s.area(), s.area(2), v.bounding_poly.inside(s)
                v.bounding_poly.get_coordinates()
                Visualizer(v).plot_all(edge_labels=True, triangles=True)
                plt.close("all")
                entry("read", d)
        return dict(log=log)
    r = isolated(play)
    if "fault" in r:
        return r
    number = {"": 0}
    num_of = lambda t: number.setdefault(t, len(number))
    r["fresh"] = [dict(key=list(k), n=num_of(x["plain"])) for k, x in ref.items()]
    r["silent"] = [list(k) for k, x in ref.items() if x["plain"] != x["n"]]
    for e in r["log"]:
        e["snap"] = [num_of(t) for t in e["snap"]]
        e["kept"] = [num_of(t) for t in e["kept"]]
    return r


# ---- drawings --------------------------------------------------------------------------------------------------
def public_state(v, idx):
    """everything a user can see of a diagram, also while it is being created"""
    def at(p):
        if p is None:
            return None
        if hasattr(p, "breakpoint"):
            return ["b", idx(p.breakpoint[0]), idx(p.breakpoint[1])]
        return [str(p.xd), str(p.yd)]

    def half(h):
        return None if h is None else [idx(h.incident_point), at(h.origin), idx(h.twin.incident_point), at(h.twin.origin)]

    def walk(n):
        if n is None:
            return None
        d = n.data
        return [idx(d.origin) if hasattr(d, "origin") else at(d), walk(n.left), walk(n.right)]
    q = [[type(e).__name__, str(e.xd), str(e.yd), bool(getattr(e, "is_valid", True))] for e in list(v.event_queue.queue)]
    return dict(sites=[[at(s), s.name, half(s.first_edge)] for s in v.sites], edges=[[half(h), half(h.next), half(h.prev), half(h.twin.next), half(h.twin.prev)] for h in v.edges],
                vertices=sorted(([at(x), [half(h) for h in x.connected_edges]] for x in v.vertices), key=repr), tree=walk(v.status_tree), queue=sorted(q, key=repr),
                line=str(v.sweep_line), event=repr(v.event) if v.event is not None else None, arcs=sorted(idx(a.origin) for a in v.arcs),
                poly=[at(p) for p in v.bounding_poly.points], bounds=[str(x) for x in (v.bounding_poly.min_x, v.bounding_poly.max_x, v.bounding_poly.min_y, v.bounding_poly.max_y)],
                observers=len(v.get_observers()))


def numbers(v, k):
    """a drawn coordinate; [] if it is not finite"""
    import math
    v = float(v)
    return enc(v, k) if math.isfinite(v) else []


def drawn(new, k):
    """artists as records for CanvasTrace"""
    import matplotlib.colors as mc
    from matplotlib import patches, text, lines, collections
    out = []

    def rec(tag, pts, s="", r=None, c=""):
        out.append(dict(tag=tag, p=[[numbers(x, k), numbers(y, k)] for x, y in pts], s=s, r=[0] if r is None else numbers(r, k), c=c))
    for a in new:
        if isinstance(a, lines.Line2D):
            x, y = [float(t) for t in a.get_xdata()], [float(t) for t in a.get_ydata()]
            c = mc.to_hex(a.get_color())
            if a.get_transform() != a.axes.transData and len(x) == 2 and x[0] == x[1]:
                rec("upright", [(x[0], 0)], c=c)
            elif len(x) == 2:
                rec("line", list(zip(x, y)), c=c)
            else:
                pick = sorted({0, len(x) - 1} | {len(x) * i // 11 for i in range(11)})
                rec("curve", [(x[i], y[i]) for i in pick], c=c)
        elif isinstance(a, collections.LineCollection):
            cs = a.get_colors()
            for i, seg in enumerate(a.get_segments()):
                rec("line", list(seg), c=mc.to_hex(cs[i % len(cs)]))
        elif isinstance(a, collections.PathCollection):
            for p in a.get_offsets():
                rec("mark", [p])
        elif isinstance(a, patches.Circle):
            rec("circle", [a.center], r=float(a.width) / 2, c=mc.to_hex(a.get_edgecolor()))
        elif isinstance(a, patches.Polygon):
            rec("poly", list(a.get_xy()))
        elif isinstance(a, text.Annotation) and a.arrowprops is not None:
            rec("arrow", [a.get_position(), a.xy])
        elif isinstance(a, text.Text):
            p = a.xy if isinstance(a, text.Annotation) else a.get_position()
            r = [numbers(p[0], k), numbers(p[1], k)]
            if r[0] or not a.get_text().strip():
                rec("text", [p], s=a.get_text())
        else:
            rec(type(a).__name__, [])
    return [g for g in out if not (g["tag"] == "text" and not g["s"])]


class Painter(Observer):
    """looks at a diagram with a visualizer at some of its steps"""

    def __init__(self, job, idx):
        self.job, self.idx, self.step, self.seen, self.views = job, idx, 0, set(), []

    def update(self, subject, message, **kwargs):
        if message == Message.STEP_FINISHED:
            self.step += 1
            ev = subject.event
            if not getattr(ev, "circle_event", False):
                self.seen.add(self.idx(ev.point))
            if str(self.step) in self.job["plans"]:
                self.look(subject, self.job["plans"][str(self.step)])
        elif message == Message.SWEEP_FINISHED and "sweep" in self.job["plans"]:
            self.look(subject, self.job["plans"]["sweep"])
        elif message == Message.VORONOI_FINISHED and "end" in self.job["plans"]:
            self.look(subject, self.job["plans"]["end"])

    def snapshot(self, v, offset):
        k, idx = self.job["k"], self.idx
        half, num = [], {}
        for e in v.edges:
            for h in (e, e.twin):
                if id(h) not in num:
                    half.append(h)
                    num[id(h)] = len(half)
        for x in v.vertices:
            for h in x.connected_edges:
                for g in (h, h.twin):
                    if id(g) not in num:
                        half.append(g)
                        num[id(g)] = len(half)
        vertices = list(v.vertices)
        byidx = {idx(s): s for s in v.sites}
        sites = [byidx.get(i + 1) for i in range(len(self.job["sites"]))]
        H = []
        for h in half:
            o = h.origin
            b = hasattr(o, "breakpoint")
            H.append(dict(k=2 if b else 1, p=[] if b else point(o, k), a=idx(o.breakpoint[0]) if b else 0, b=idx(o.breakpoint[1]) if b else 0,
                          s=idx(h.incident_point), t=num[id(h.twin)], f=1 if h.incident_point is not None and h.incident_point.first_edge is h else 0))
        ev = v.event
        here = {idx(n.data.origin) for n in leaves_of(v.status_tree)}
        D = dict(beach=[1 if i + 1 in here else 0 for i in range(len(sites))], sites=[[enc(x, k), enc(y, k)] for x, y in self.job["sites"]],
                 names=["" if s is None or s.name is None else str(s.name) for s in sites], seen=[1 if i + 1 in self.seen else 0 for i in range(len(sites))],
                 poly=[[limbs(x), limbs(y)] for x, y in self.job["cw"]], offset=enc(Decimal(offset), k), vertices=[point(x, k) for x in vertices],
                 conn=[[num[id(h)] for h in x.connected_edges] for x in vertices], half=H, edges=[num[id(e)] for e in v.edges],
                 l=enc(Decimal(v.sweep_line), k), level=self.level(sites, v.sweep_line), ev=[idx(p) for p in ev.point_triple] if getattr(ev, "circle_event", False) else [])
        return D, vertices, sites

    def level(self, sites, l):
        """Whether the sweep line (a Decimal, encoded as a rounded number) is exactly as high as a site."""
        return 1 if any(s is not None and s.yd == l for s in sites) else 0

    def look(self, v, plan):
        import random
        from foronoi.visualization import Visualizer
        rnd, k = random.Random(plan["seed"]), self.job["k"]
        offset = Decimal(plan["offset"])
        size = tuple(plan["size"])
        before = digest(public_state(v, self.idx))
        vis = Visualizer(v, canvas_offset=number(plan["offset"], plan["otyp"]), figsize=size)
        D, vertices, sites = self.snapshot(v, offset)
        edges = list(v.edges)
        low = min(s.yd for i, s in enumerate(sites) if i + 1 in self.seen)
        cmds, known = [], set(map(id, vis.canvas.get_children()))
        keep = []
        for c in plan["cmds"]:
            o = dict(k=c["k"], all=1 if c["sel"] == "all" else 0, sel=[], l=[], level=0, labels=c["labels"], scale=[0], tri=c["tri"], arcs=c["arcs"], flags=[])
            args = {}
            pools = dict(vertices=("vertices", vertices), sites=("points", sites), edges=("edges", edges), border=("edges", edges), outgoing=("vertices", vertices))
            if c["sel"] != "all" and c["k"] in pools:
                name, pool = pools[c["k"]]
                o["sel"] = sorted(rnd.sample(range(1, len(pool) + 1), rnd.randint(1, len(pool)))) if c["sel"] == "some" and pool else []
                args[name] = [pool[i - 1] for i in o["sel"]]
            if c["sel"] != "all" and c["k"] == "arcs":
                arcs = sorted(v.arcs, key=lambda a: self.idx(a.origin))
                pick = rnd.sample(arcs, rnd.randint(1, len(arcs))) if c["sel"] == "some" and arcs else []
                o["sel"] = sorted(self.idx(a.origin) for a in pick)
                args["arcs"] = pick
            if c["l"] != "own":
                l = min(low, v.sweep_line) - Decimal(self.job["ext"]) * Decimal(rnd.choice(["0", "0.25", "1", "3"]))
                if c["l"] == "zero" and min(low, v.sweep_line) > 0:
                    l = Decimal(0)
                o["l"], o["level"] = enc(l, k), self.level(sites, l)
                args["sweep_line"] = rnd.choice([l, l, 0]) if l == 0 else l
            if c["k"] in ("sites", "edges", "arcs"):
                args["show_labels"] = bool(c["labels"])
            if c["k"] == "arcs":
                args["plot_arcs"] = bool(c["arcs"])
            if c["k"] == "event":
                args["triangles"] = bool(c["tri"])
            if c["k"] == "outgoing":
                args["scale"] = number(plan["scale"], plan["otyp"])
                o["scale"] = enc(Decimal(plan["scale"]), k)
            if c["k"] == "all":
                args = {f: True for f in c["on"]}
                args.update({f: False for f in c["off"]})
                args["scale"] = number(plan["scale"], plan["otyp"])
                o["scale"] = enc(Decimal(plan["scale"]), k)
                o["flags"] = sorted(({"edges", "vertices", "sites"} - set(c["off"])) | set(c["on"]))
            f = dict(sweep="plot_sweep_line", polygon="plot_polygon", vertices="plot_vertices", sites="plot_sites", edges="plot_edges", border="plot_border_to_site",
                     outgoing="plot_outgoing_edges", event="plot_event", arcs="plot_arcs", all="plot_all")[c["k"]]
            r = getattr(vis, f)(**args)
            now = vis.canvas.get_children()
            new = [a for a in now if id(a) not in known]
            keep += now
            gone = len(known - set(map(id, now)))
            known = set(map(id, now))
            cmds.append(dict(o=o, got=drawn(new, k), removed=1 if gone else 0, chain=1 if r is vis else 0, clean=1 if digest(public_state(v, self.idx)) == before else 0))
        fig = vis.get_canvas() if plan["finish"] == "get" else None
        if fig is None:
            vis.show(block=False)
            fig = vis.canvas.figure
        ax = vis.canvas
        (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
        lim = [numbers(t, k) for t in (x0, x1, y0, y1)]
        if [float(t) for t in fig.get_size_inches()] != [float(t) for t in size]:
            lim = [[]] * 4
        import matplotlib.pyplot as plt
        plt.close("all")
        self.views.append(dict(D=D, cmds=cmds, lim=lim))


@kind
def canvas(job):
    v = diagram_of(job)
    v.create_diagram(sites_of(job))
    plain = digest(canon(v, job))
    v = diagram_of(job)
    p = Painter(job, Index(job))
    v.attach_observer(p)
    v.create_diagram(sites_of(job))
    return dict(views=p.views, same=1 if digest(canon(v, job)) == plain else 0)


def digits28(w):
    """has this difference of decimals at most 28 significant digits?"""
    if w == 0:
        return True
    d, e = w.denominator, 0
    while d % 10 == 0:
        d //= 10
    n = abs(w.numerator)
    while d % 2 == 0:
        d, n = d // 2, n * 5
    while d % 5 == 0:
        d, n = d // 5, n * 2
    while n % 10 == 0:
        n //= 10
    return d == 1 and len(str(n)) <= 28


# ---- coordinates -----------------------------------------------------------------------------------------------
@kind
def coordinates(job):
    """histories of MCCoordinate on the real classes"""
    import random
    from fractions import Fraction
    from foronoi.graph import Coordinate, Point, Vertex
    rnd = random.Random(job["seed"])
    bad = []
    types = ["int", "float", "decimal", "str", "np"]

    def value():
        t = rnd.choice(types)
        d = rnd.choice([1, 2, 5, 9, 15])
        n = rnd.randint(-10 ** d, 10 ** d)
        e = rnd.choice([0, 0, -1, -3, -9, -15]) if t not in ("int",) else 0
        if t in ("decimal", "str") and rnd.random() < .4:
            n, e = rnd.randint(-10 ** 24, 10 ** 24), rnd.choice([0, -12, -24])
        if t == "float" and rnd.random() < .3:
            v = rnd.choice([rnd.random(), rnd.uniform(-1e6, 1e6), rnd.random() * 1e-9, rnd.random() * 1e18])
            return v, Fraction(Decimal(repr(v))), t
        text = str(Decimal(n).scaleb(e))
        v = number(text, t)
        if isinstance(v, (float, np.floating)):
            return v, Fraction(Decimal(repr(float(v)))), t
        return v, Fraction(Decimal(text)), t

    for h in job["hists"]:
        values = {}
        objs, cls = {}, {}

        def val(n):
            if n not in values:
                values[n] = value()
            return values[n]

        def exact(t):
            """value of a term, and how far the decimals (28 digits) may be from it"""
            if t[0] == "v":
                return val(t[1])[1], Fraction(0)
            (a, s), (b, r) = exact(t[1]), exact(t[2])
            w = a - b
            return w, s + r + (Fraction(0) if digits28(w) else abs(w) / 10 ** 27)
        for step, o in enumerate(h):
            k = o["o"]
            if o["op"] == "make":
                cls[k] = rnd.choice([Coordinate, Point, Vertex])
                objs[k] = cls[k](val(o["a"])[0], val(o["b"])[0])
            elif o["op"] == "sub":
                objs[k] = objs[o["a"]] - objs[o["b"]]
            else:
                setattr(objs[k], o["op"], val(o["a"])[0])
            for i, c in o["obj"].items() if isinstance(o["obj"], dict) else enumerate(o["obj"], 1):
                i = int(i)
                if not c:
                    continue
                x = objs[i]
                w = [exact(c[0]), exact(c[1])]
                try:
                    if any(abs(Fraction(g) - t) > s for g, (t, s) in zip((x.xd, x.yd), w)):
                        bad.append(dict(clause="exact", ops=h[:step + 1], got=[str(x.xd), str(x.yd)], want=[str(t) for t, _ in w]))
                    elif not (isinstance(x.xd, Decimal) and isinstance(x.yd, Decimal)):
                        bad.append(dict(clause="type", ops=h[:step + 1], got=repr(type(x.xd))))
                    elif not (x.x == float(x.xd) and x.y == float(x.yd) and x.xy == (x.x, x.y) and type(x.x) is float and type(x.y) is float):
                        bad.append(dict(clause="float", ops=h[:step + 1], got=repr(x.xy), want=[str(x.xd), str(x.yd)]))
                except (TypeError, AttributeError) as e:
                    bad.append(dict(clause="access", ops=h[:step + 1], got=repr(e)))
        if len(bad) > 10:
            break
    return dict(bad=bad)


# ---- breakpoints and arcs --------------------------------------------------------------------------------------
@kind
def curves(job):
    from foronoi.graph import Point
    from foronoi.nodes import Breakpoint, Arc
    k = job["k"]
    a, b = [Point(number(x, job["typ"]), number(y, job["typ"]), name=i) for i, (x, y) in enumerate(job["pair"])]
    ab, ba = Breakpoint(breakpoint=(a, b)), Breakpoint(breakpoint=(b, a))
    arcs = [Arc(origin=a), Arc(origin=b)]
    lines = []
    for r in job["lines"]:
        l = Decimal(r["l"])
        kw = {} if r["top"] is None else dict(max_y=Decimal(r["top"]))

        def found(bp):
            c = bp.get_intersection(l, **kw)
            return [enc(c.xd, k), enc(c.yd, k) if c.yd.is_finite() else []]
        curve = []
        for n, arc in enumerate(arcs):
            xs = np.array([float(x) for x in r["xs"]])
            sl = float(l) if r["float"] else l
            y = arc.get_plot(xs, sl)
            if y is None:
                curve.append([])
                continue
            pts = [[numbers(p, k), numbers(q, k)] for p, q in zip(xs, y)]
            one = arc.get_plot(float(xs[0]), sl)
            pts.append([numbers(xs[0], k), numbers(one, k)])
            curve.append(pts)
        lines.append(dict(l=enc(l, k), ab=found(ab), ba=found(ba), top=[] if r["top"] is None else enc(Decimal(r["top"]), k), arcs=curve))
    kept = [str(p.xd) + "," + str(p.yd) for p in (a, b)]
    return dict(lines=lines, does=[1 if ab.does_intersect() else 0, 1 if ba.does_intersect() else 0], kept=kept)
