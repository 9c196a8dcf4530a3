"""C06: every reader returns what the calculation printed, from every format."""

from .calcs import *  # noqa: F403
from .calcs import REAL_IO, STUB_IO

ID = "C06"
RUNS = {"quick": 1800, "thorough": 30000}
RULE = ("each evaluation is one history of reads, in seeded order and with a seeded delivery schedule, "
        "of 1-4 generated calculation files (all formats and styles, some rewritten by later calculations), each "
        "result compared with the numbers printed; non-trivial: a file was read; distinct: different event log")
REAL = REAL_IO + ["ramannoodle.dynamics", "ramannoodle.dataset.torch"]
STUBS = STUB_IO + ["the ab-initio code (a generator that prints files in its format from a known crystal)"]


def gen(rng, tier):
    fs = [gen_file(rng, big=rng.random() < 0.06) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    if rng.random() < 0.4:      # files of the same calculation
        for f in fs[1:]:
            f["crystal"], f["seed"] = fs[0]["crystal"], fs[0]["seed"]
    return {"events": fs, "order": rng.randrange(1 << 30), "delivery": delivery(rng, 0.6),
            "pathkind": rng.choice(SPELL), "repeat": rng.choice([1, 1, 2]),
            # the same files written again by later calculations
            "later": [rng.choice(["same", "same", "other"]) for _ in range(rng.choice([0, 0, 0, 1, 1, 2]))]}


def shrink(sc):
    for i, f in enumerate(sc["events"]):
        for g in shrink_file(f):
            yield {**sc, "events": sc["events"][:i] + [g] + sc["events"][i + 1:]}
    if sc["repeat"] > 1:
        yield {**sc, "repeat": 1}
    for i in range(len(sc["later"])):
        yield {**sc, "later": sc["later"][:i] + sc["later"][i + 1:]}


def run(ctx, sc):
    generation(ctx, sc, sc["events"], 0)
    for g, kind in enumerate(sc["later"]):
        r = rng_of("later", sc["order"], g)
        events = []
        for f in sc["events"]:
            f = {**f, "seed": int(r.integers(1 << 30))}
            if kind == "other" and "n" in f["crystal"] and f["crystal"]["n"] < 40:
                f["crystal"] = {**f["crystal"], "seed": int(r.integers(1 << 30))}
            events.append(f)
        ctx.probe("rewritten")
        generation(ctx, sc, events, g + 1)


def generation(ctx, sc, events, g):
    jobs = []
    for k, f in enumerate(events):
        data, facts = build(f)
        name = f"calc{k}/{f['fmt'].upper()}"
        ctx.put(name, data)
        path = spell(ctx, name, sc["pathkind"])
        for reader in readers(f["fmt"], facts):
            jobs += [(k, f["fmt"], path, len(data), reader)] * sc["repeat"]
    before = ctx.tree()
    r = rng_of("order", sc["order"], g)
    for j in r.permutation(len(jobs)):
        k, fmt, path, size, (label, fn, cmp, possible) = jobs[j]
        ctx.arm([], capped(sc["delivery"], size))
        out = ctx.call(f"{fmt} {label}", fn, path)
        ctx.disarm()
        what = f"file {k} ({fmt}){f', rewritten {g} times' if g else ''}: {label}"
        clean(ctx, what)
        if not possible:
            ctx.require(not out.ok, "invented", f"{what} returned data the file does not hold")
            ctx.require(isinstance(out.exc, InvalidFileException), "wrong-error", f"{what} {out.describe()}")
            ctx.probe("absent")
            continue
        ctx.require(out.ok, "unreadable", f"{what} {out.describe()}")
        problem = cmp(out.value)
        ctx.require(problem is None, "wrong-data", f"{what}: {problem}")
        ctx.probe("reads")
        ctx.nontrivial = True
    ctx.require(not ctx.mutations, "modified", f"reading changed storage: {ctx.mutations[:3]}")
    ctx.require(ctx.tree() == before, "modified", "reading changed files")
