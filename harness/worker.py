"""Executes jobs with the real code from the repository and prints one projection per job ('@' + JSON).

Only the documented, public surface is used: Voronoi, Polygon, BoundingBox, observers, and the attributes described in the documentation
(sites, edges, vertices, status_tree, event_queue, event, sweep_line). The projection never repairs anything: whatever cannot be
projected is reported as it is, and judged by the specification."""
import json, os, resource, signal, sys, traceback
import warnings
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.dirname(os.path.abspath(__file__)) + os.sep
REPO = os.environ.get("FORONOI_REPO", "/repo")
sys.path.insert(0, REPO)
from decimal import Decimal
from common import limbs, units, enc  # noqa

MEM = 3 << 30
TIME = 8.0


class Hang(BaseException):
    pass


def on_alarm(*_):
    raise Hang()


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for fr in reversed(tb):
        if fr.filename.startswith(HERE):
            return None  # raised by a callback of the harness
        if fr.filename.startswith(REPO):
            return "%s:%s %s: %s" % (os.path.relpath(fr.filename, REPO), fr.name, type(e).__name__, str(e)[:120])
    return None


def main():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    except Exception:
        pass
    signal.signal(signal.SIGALRM, on_alarm)
    import foronoi
    here = os.path.dirname(os.path.abspath(foronoi.__file__))
    if os.path.realpath(here) != os.path.realpath(os.path.join(REPO, "foronoi")):
        sys.stderr.write("foronoi imported from %s" % here)
        sys.exit(3)
    import kinds  # registers the job kinds
    with open(sys.argv[1]) as f:
        jobs = json.load(f)
    for job in jobs:
        signal.setitimer(signal.ITIMER_REAL, job.get("time", TIME))
        try:
            try:
                r = kinds.KINDS[job["kind"]](job)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Hang:
            r = dict(fault="hang", where="no result within %s s" % job.get("time", TIME))
        except MemoryError:
            r = dict(fault="memory", where="out of memory")
        except RecursionError as e:
            r = dict(fault="exception", where="RecursionError " + str(where(e)))
        except Exception as e:
            w = where(e)
            if w is None:
                # not raised inside the code under test: an assumption of the projection does not hold
                r = dict(fault="projection", where="%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]))
            else:
                r = dict(fault="exception", where=w)
        r["id"] = job["id"]
        sys.stdout.write("@" + json.dumps(r, separators=(",", ":")) + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    main()
