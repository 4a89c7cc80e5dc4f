"""corpus/huge.json: inputs with more than a thousand parts of one kind. Deciding whether they are in the domain takes minutes, so they are kept."""
import json, os, random, sys
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(D, "harness"))
import gen

rng = random.Random("huge")


def grid(rng, w, h):
    s = [(x, y) for x in range(1, w + 1) for y in range(1, h + 1)]
    rng.shuffle(s)
    return gen.make("fullgrid", s, gen.box_poly(gen.F(0), gen.F(w + 1), gen.F(0), gen.F(2 * h + 3, 2)), gen.positions(rng))


out = []
for f, n in [(gen.wheel, (1100,)), (gen.collinear, (1100,)), (grid, (33, 34)), (gen.lattice, (1100, 10000)), (gen.collinear, (1050,)), (grid, (2, 520))]:
    out += gen.accept(gen.endless(lambda: f(rng, *n)), 1, rng)
    print(f.__name__, out[-1]["dom"], flush=True)
json.dump(out, open(os.path.join(D, "corpus", "huge.json"), "w"))
