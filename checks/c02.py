"""C02: failed writes raise, returned writes are durable, nothing else is touched."""

from .common import *  # noqa: F403

ID = "C02"
RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("each evaluation is one history of 1-4 writes to different files with storage faults at "
        "seeded points (errno at open / byte position / transfer / close, short and interrupted "
        "transfers, kill at a storage call, inside a transfer or right after the return), checked "
        "after every call and after restart, followed by retries; non-trivial: a fault or a kill "
        "happened; distinct: different event log")
REAL = REAL_IO
STUBS = STUB_IO + ["process death (_exit at a simulated point; the disk keeps what was transferred)"]


def gen(rng, tier):
    ops = []
    for k in range(rng.choice([1, 1, 2, 3, 4])):
        w = gen_write(rng, max_atoms=rng.choice([12, 60, 300]), max_size=2500)
        faults = []
        if rng.random() < 0.85:
            faults.append(gen_write_fault(rng))
            if rng.random() < 0.15:
                faults.append(gen_write_fault(rng))
        ops.append({"write": w, "name": f"{rng.choice(NAMES)}{k}", "spell": rng.choice(SPELL),
                    "existing": rng.choice([None, None, 10, 50000]), "faults": faults,
                    "link": rng.random() < 0.15,
                    "delivery": delivery(rng, 0.5), "kill_after": rng.random() < 0.12})
    return {"ops": ops}


def shrink(sc):
    for i, op in enumerate(sc["ops"]):
        def alt(**kw):
            return {**sc, "ops": sc["ops"][:i] + [{**op, **kw}] + sc["ops"][i + 1:]}
        for w in shrink_write(op["write"]):
            yield alt(write=w)
        for k in range(len(op["faults"])):
            yield alt(faults=op["faults"][:k] + op["faults"][k + 1:])
        if op["delivery"]:
            yield alt(delivery={})
        if op["kill_after"]:
            yield alt(kill_after=False)
        if op["existing"] is not None:
            yield alt(existing=None)
        if op["link"]:
            yield alt(link=False)


def initial(sc):
    """What is on the disk before the first write."""
    disk = {}
    for op in sc["ops"]:
        disk.update(neighbours(op["name"]))
        if op["existing"] is not None:
            disk[op["name"]] = (b"old content\n" * 5000)[:op["existing"]]
            if op["link"]:
                disk[op["name"] + LINK] = SPECIAL
    return disk


LINK, SPECIAL = ".link", b"<special>"      # `SPECIAL`: what ctx.tree() shows for a link


def named(op):
    """The name a write is asked to use: the file's own or that of a symbolic link to it."""
    return op["name"] + LINK if op["link"] and op["existing"] is not None else op["name"]


def run(ctx, sc):
    done = {}
    before = initial(sc)
    for name, data in before.items():
        if data == SPECIAL:
            os.symlink(os.path.basename(name)[:-len(LINK)], ctx.path(name))
        else:
            ctx.put(name, data)
    for k, op in enumerate(sc["ops"]):
        w = Write(op["write"])
        path = spell(ctx, named(op), op["spell"])
        overwrite = op["existing"] is not None
        ctx.notes = {"at": k, "done": sorted(done)}
        ctx.arm([resolve_fault(f, w.size) for f in op["faults"]], capped(op["delivery"], w.size))
        out = w.call(ctx, path, overwrite)
        what = f"write {k}"
        errors = fired_errors(ctx)
        if op["kill_after"] and out.ok:
            ctx.probe("kill-after-return")
            ctx.notes = {"at": k, "done": sorted(done), "returned": True}
            ctx.crash()
        ctx.disarm()
        clean(ctx, what)
        if errors:
            ctx.nontrivial = True
            ctx.require(not out.ok, "silent", f"{what} returned although the storage failed with {errors}")
            ctx.require(any(is_os_error(out.exc, e) for e in errors), "wrong-error",
                        f"{what}: storage failed with {errors}, but the call {out.describe()}")
        else:
            ctx.require(out.ok, "spurious", f"{what} {out.describe()} although nothing failed")
            w.check(ctx, ctx.get(op["name"]), what)
            done[op["name"]] = ctx.get(op["name"])
        check_tree(ctx, before, done, op["name"], what)
        if errors:
            again = w.call(ctx, path, True)
            ctx.require(again.ok, "retry", f"{what}: repeated with overwrite: {again.describe()}")
            w.check(ctx, ctx.get(op["name"]), what + " repeated", "retry")
            clean(ctx, what)
            done[op["name"]] = ctx.get(op["name"])
            ctx.probe("retries")
            check_tree(ctx, before, done, op["name"], what)


def check_tree(ctx, before, done, target, what):
    now = files(ctx.tree())
    for name in sorted(set(before) | set(now) | set(done)):
        if name == target:
            continue
        expected = done.get(name, before.get(name))
        ctx.require(now.get(name) == expected, "other-file",
                    f"{what} changed {name}: {'missing' if name not in now else 'new' if expected is None else 'altered'}")
    if target in done:
        ctx.require(now.get(target) == done[target], "other-file", f"{what}: {target} changed afterwards")


def after_crash(ctx, sc, notes):
    ctx.nontrivial = True
    k = notes["at"]
    now = files(ctx.tree())
    expected = initial(sc)
    for i, op in enumerate(sc["ops"]):
        if i < k or (i == k and notes.get("returned")):
            Write(op["write"]).check(ctx, now.get(op["name"]),
                                     f"write {i}, which returned before the kill", "durability")
            expected[op["name"]] = now.get(op["name"])
    target = sc["ops"][k]["name"]
    for name in sorted(expected):
        if name != target:
            ctx.require(now.get(name) == expected[name], "other-file",
                        f"write {k}, killed, changed {name}")
    op = sc["ops"][k]
    w = Write(op["write"])
    before = dict(now)
    again = w.call(ctx, spell(ctx, named(op), op["spell"]), True)
    ctx.require(again.ok, "retry", f"write {k} repeated after the restart: {again.describe()}")
    w.check(ctx, ctx.get(op["name"]), f"write {k} repeated after the restart", "retry")
    clean(ctx, "repeat")
    ctx.probe("retries-after-restart")
    after = files(ctx.tree())
    for name in before:
        if name != op["name"]:
            ctx.require(after.get(name) == before[name], "other-file", f"repeat changed {name}")
