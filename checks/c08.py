"""C08: incomplete files are reported, never read as complete."""

from .calcs import *  # noqa: F403
from .calcs import REAL_IO, STUB_IO

ID = "C08"
RUNS = {"quick": 1600, "thorough": 30000}
RULE = ("each evaluation takes one generated calculation file and reads it, with seeded readers and delivery "
        "schedules, cut off at up to 12 seeded points (line ends, token ends, any byte; optionally followed by the "
        "zero bytes a lost write leaves), or while the simulated calculation still appends lines between the "
        "reader's storage calls; non-trivial: at least one incomplete view was read; distinct: different event log")
REAL = REAL_IO + ["ramannoodle.dynamics", "ramannoodle.dataset.torch"]
STUBS = STUB_IO + ["the ab-initio code (a generator that prints files in its format from a known crystal)"]
NUMERIC = b"0123456789.+-eE"


def gen(rng, tier):
    f = gen_file(rng, big=rng.random() < 0.02)
    moving = rng.random() < 0.5
    while moving and f.get("md", 0) < 2:
        f = gen_file(rng)
    if "md" in f:
        f["md"] = min(f["md"], 12)
    ops = []
    for _ in range(rng.randint(2, 12)):
        op = {"reader": rng.random(), "delivery": delivery(rng, 0.4), "ts": moving and rng.random() < 0.6}
        roll = rng.random()
        at = round(rng.random() ** rng.choice([1, 0.3]), 6)
        if roll < 0.75:
            op["cut"] = [rng.choice(["line", "line", "line", "line-1", "token", "byte", "md", "md", "section"]), at]
            op["tail"] = rng.choice([0, 0, 0, 0, 1, 100, 4096])
        else:
            op["grow"] = {"start": at, "lines": rng.choice([1, 1, 3, 20, 200]), "seed": rng.randrange(1 << 30),
                          "p": rng.choice([1.0, 0.5, 0.1])}
            if rng.random() < 0.8:
                op["delivery"]["read"] = ["random", rng.choice([64, 300, 2000])]
                op["delivery"].setdefault("seed", 5)
        ops.append(op)
    return {"file": f, "ops": ops, "pathkind": rng.choice(SPELL)}


def shrink(sc):
    for g in shrink_file(sc["file"]):
        yield {**sc, "file": g}


MARKS = [b"POSITION   ", b"Direct config", b"cm-1", b"Eigenvectors", b"position of ions", b"DIELECTRIC",
         b"direct lattice", b"POTCAR", b"ions per type", b"structure", b"dielectric_dft", b"X         Y",
         b"Write flags", b"<set>", b"eigenv", b"Direct", b"modeling", b"time-step"]


def place(data, facts, how, at):
    """Byte position of a cut."""
    if how == "byte":
        return int(at * len(data))
    if how == "md" and not facts.get("line_ends"):
        how = "section"
    lines = data.splitlines(keepends=True)
    if how == "md":
        ends = facts["line_ends"]
        k = min(int(at * len(ends)), len(ends) - 1)
        n = ends[k] + int(at * 7919) % 5 - 2
        return sum(map(len, lines[:max(0, n)]))
    if how == "section":
        hits = [i for i, line in enumerate(lines) if any(m in line for m in MARKS)]
        if not hits:
            return int(at * len(data))
        n = hits[min(int(at * len(hits)), len(hits) - 1)] + int(at * 7919) % 8
        return sum(map(len, lines[:n]))
    k = int(at * len(lines))
    p = sum(map(len, lines[:k]))
    if how == "line":
        return p
    if how == "line-1":
        return max(0, p - 1)
    p = int(at * len(data))
    while p < len(data) and data[p:p + 1].strip():
        p += 1
    return p


def view(ctx, facts, out, cmp, possible, what, whole, at_least, at_most, trajectory, complete):
    """Judges what a reader made of an incomplete view of a file."""
    if not out.ok:
        ctx.require(isinstance(out.exc, InvalidFileException), "wrong-error", f"{what} {out.describe()}")
        ctx.require(not (whole and possible), "unreadable", f"{what} {out.describe()} although it is complete")
        ctx.probe("reported")
        return
    ctx.require(possible, "invented", f"{what} returned data the file does not hold")
    problem = cmp(out.value)
    if problem is None:
        ctx.probe("same-as-complete")
        return
    if trajectory is not None:
        got = np.asarray(trajectory(out.value))
        want = facts["positions_ts"]
        if got.ndim == 3 and got.shape[1:] == want.shape[1:] and len(got) <= len(want) and len(got) > 0 \
                and same_mod1(got, want[:len(got)], 1e-11):
            ctx.require(at_least <= len(got) <= at_most, "lost-configurations",
                        f"{what} returned {len(got)} configurations, the file holds {at_least}")
            ctx.probe("leading-configurations")
            return
    ctx.fail("partial-data", f"{what} returned data that is not in the complete file: {problem}")


def run(ctx, sc):
    f = sc["file"]
    data, facts = build(f)
    lines = data.splitlines(keepends=True)
    offsets = np.concatenate([[0], np.cumsum([len(x) for x in lines])])
    ends = [int(offsets[n]) for n in facts.get("line_ends", [])]
    name = f"calc/{f['fmt'].upper()}"
    ctx.put(name, data)
    path = spell(ctx, name, sc["pathkind"])
    every = readers(f["fmt"], facts)
    xml = f["fmt"] == "vasprun.xml"
    for k, op in enumerate(sc["ops"]):
        some = [x for x in every if not op["ts"] or "traj" in x[0] or "_ts" in x[0]] or every
        label, fn, cmp, possible = some[int(op["reader"] * len(some))]
        trajectory = None
        if "positions_ts" in label:
            trajectory = lambda v: v
        elif "trajectory" in label:
            trajectory = lambda v: v.positions_ts
        what = f"op {k}: {f['fmt']} {label}"
        if "cut" in op:
            if op["ts"] and op["cut"][0] == "section":
                op["cut"][0] = "md"
            p = min(len(data), place(data, facts, *op["cut"]))
            content = data[:p] + b"\0" * op["tail"]
            torn = (not op["tail"] and not xml and 0 < p < len(data)
                    and data[p - 1] in NUMERIC and data[p] in NUMERIC)
            ctx.put(name, content)
            ctx.arm([], capped(op["delivery"], len(content)))
            out = ctx.call(what, fn, path)
            ctx.disarm()
            clean(ctx, what)
            what = f"{what} of a file cut after byte {p} of {len(data)}" + (
                f" and {op['tail']} zero bytes" if op["tail"] else "")
            ctx.require(not ctx.mutations and ctx.get(name) == content, "modified", f"{what} changed the file")
            ctx.nontrivial = True
            if torn:
                ctx.probe("torn-number")
                fine = out.ok or isinstance(out.exc, (InvalidFileException, SymmetryException))
                ctx.require(fine, "wrong-error", f"{what} {out.describe()}")
                continue
            n = sum(e <= p for e in ends)
            if f["fmt"] == "xdatcar" and trajectory and out.ok:
                after = content[ends[n - 1] if n else 0:]
                at_end = n < len(ends) and p == ends[n] - 1     # only the line's end is missing
                ctx.require(not after.strip() or at_end, "dropped",
                            f"{what} returned although {len(after.split())} words of another configuration follow")
            view(ctx, facts, out, cmp, possible, what, p == len(data) and not op["tail"],
                 n, n + 1, trajectory, n)
            continue
        # the calculation appends whole lines while the reader reads
        g = op["grow"]
        have = int(g["start"] * len(lines))
        ctx.put(name, b"".join(lines[:have]))
        r = rng_of("grow", g["seed"])
        state = {"have": have}

        def on_step(kind, rel):
            if kind == "read" and rel == name and state["have"] < len(lines) and r.uniform() < g["p"]:
                more = state["have"] + int(r.integers(1, g["lines"] + 1))
                with open(ctx.path(name), "ab") as fh:
                    fh.write(b"".join(lines[state["have"]:more]))
                state["have"] = min(len(lines), more)
                ctx.probe("appended")

        ctx.on_step = on_step
        ctx.arm([], capped(op["delivery"], len(data)))
        out = ctx.call(what, fn, path)
        ctx.disarm()
        ctx.on_step = None
        clean(ctx, what)
        what = f"{what} of a file that grew from {have} to {state['have']} of {len(lines)} lines meanwhile"
        n = sum(e <= offsets[have] for e in ends)
        m = sum(e <= offsets[state["have"]] for e in ends)
        ctx.nontrivial = True
        view(ctx, facts, out, cmp, possible, what, have == len(lines), n, m + 1, trajectory, n)
        ctx.put(name, data)
        out = ctx.call("complete " + what, fn, path)
        view(ctx, facts, out, cmp, possible, f"{what}; reading the complete file", True, len(ends), len(ends),
             trajectory, len(ends))
