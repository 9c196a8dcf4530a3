"""C03: without overwrite an existing path is never altered; one winner per path."""

import os
import stat

from .common import *  # noqa: F403
from ramannoodle.structure import write_ast_displaced_structures, write_displaced_structures

ID = "C03"
RUNS = {"quick": 2600, "thorough": 50000}
RULE = ("each evaluation is one path (existing in one of twelve forms, or absent) that 1-4 simulated "
        "threads and possibly another process, which appears at a seeded storage call, try to "
        "create without overwriting, under a seeded schedule of every line and storage call; "
        "non-trivial: the path existed or at least two creators raced; distinct: different event log")
REAL = REAL_IO
STUBS = STUB_IO + ["thread scheduling (one thread runs at a time, switches at seeded yield points)",
                   "the other process (creates its file exclusively at a seeded storage call)"]
FORMS = ["file", "empty", "directory", "fulldir", "symlink", "dangling", "symlink-directory", "loop", "hardlink", "readonly",
         "fifo", "socket"]


def gen(rng, tier):
    mode = rng.choice(["existing", "external", "race", "race", "race-existing", "batch"])
    n = {"existing": 1, "external": rng.choice([1, 1, 2]), "race": rng.randint(2, 4),
         "race-existing": rng.randint(2, 3), "batch": rng.choice([1, 2])}[mode]
    sc = {"mode": mode, "name": rng.choice(NAMES), "delivery": delivery(rng, 0.5),
          "threads": [], "lines": rng.random() < 0.6,
          "form": rng.choice(FORMS) if mode in ("existing", "race-existing") else None,
          "external": None, "faults": []}
    if mode == "batch":
        sc["m"] = rng.randint(1, 6)
        sc["taken"] = sorted(rng.sample(range(sc["m"]), rng.randint(1, sc["m"])))
        sc["spec"] = structure_spec(rng, max_atoms=12, special=0.0)
    for _ in range(n):
        w = gen_write(rng, max_atoms=30, max_size=500)
        sc["threads"].append({"write": w, "spell": rng.choice(SPELL),
                              "default": rng.random() < 0.4})
    if mode in ("external", "batch") and (mode == "external" or rng.random() < 0.4):
        sc["external"] = {"at": rng.randint(0, 6), "how": rng.choice(["file", "file", "symlink"])}
    if mode == "race" and rng.random() < 0.25:
        sc["faults"] = [gen_write_fault(rng, crash=False)]
        sc["faults"][0]["thread"] = rng.randrange(n)
    sc["plan"] = {"mode": "random", "p": rng.choice([0.02, 0.1, 0.3, 0.6]), "seed": rng.randrange(1 << 30)}
    if rng.random() < 0.25:     # switch around lines that store something
        sc["plan"].update(p=0.005, hot=0.5)
    return sc


def shrink(sc):
    for i, t in enumerate(sc["threads"]):
        for w in shrink_write(t["write"]):
            yield {**sc, "threads": sc["threads"][:i] + [{**t, "write": w}] + sc["threads"][i + 1:]}
    if sc["lines"]:
        yield {**sc, "lines": False}


def make(ctx, name, form):
    """An existing path in one of several forms."""
    full = ctx.path(name)
    os.makedirs(os.path.dirname(full), exist_ok=True)
    if form == "file":
        ctx.put(name, "precious\n" * 3000)
    elif form == "empty":
        ctx.put(name, "")
    elif form == "directory":
        os.mkdir(full)
    elif form == "fulldir":
        ctx.put(name + "/inside", "precious")
    elif form == "symlink":
        ctx.put("elsewhere", "precious")
        os.symlink(ctx.path("elsewhere"), full)
    elif form == "dangling":
        os.symlink(ctx.path("nowhere"), full)
    elif form == "symlink-directory":
        ctx.put("folder/inside", "precious")
        os.symlink(ctx.path("folder"), full)
    elif form == "loop":
        os.symlink(full, full)
    elif form == "hardlink":
        ctx.put("elsewhere", "precious")
        os.link(ctx.path("elsewhere"), full)
    elif form == "readonly":
        ctx.put(name, "precious")
        os.chmod(full, 0o444)
    elif form == "fifo":
        os.mkfifo(full)
        return os.open(full, os.O_RDWR | os.O_NONBLOCK)     # somebody listens
    elif form == "socket":
        import socket
        where = os.getcwd()
        os.chdir(os.path.dirname(full))     # names of sockets are short
        s = socket.socket(socket.AF_UNIX)
        s.bind(os.path.basename(full))
        s.close()
        os.chdir(where)
    return None


def snapshot(ctx):
    """Names, kinds, content and link targets of everything on the disk."""
    out = {}
    for base, dirs, names in os.walk(ctx.root):
        for n in dirs + names:
            p = os.path.join(base, n)
            rel = os.path.relpath(p, ctx.root)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                out[rel] = ("link", os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                out[rel] = ("dir", None)
            elif stat.S_ISREG(st.st_mode):
                with open(p, "rb") as f:
                    out[rel] = ("file", f.read())
            else:
                out[rel] = (f"special {stat.S_IFMT(st.st_mode):o}", None)
            if out[rel][0] != "dir":
                out[rel] += ((st.st_ino, st.st_mode, st.st_nlink, st.st_mtime_ns),)
    return out


def run(ctx, sc):
    if sc["mode"] == "batch":
        return run_batch(ctx, sc)
    name = sc["name"]
    ctx.put("other", "neighbour")
    writes = [Write(t["write"]) for t in sc["threads"]]
    paths = [spell(ctx, name, t["spell"]) for t in sc["threads"]]
    pipe = make(ctx, name, sc["form"]) if sc["form"] else None
    before = snapshot(ctx)
    outside = {"won": None}
    if sc["external"]:
        calls = {"n": 0}

        def appear(op, rel):
            if calls["n"] == sc["external"]["at"]:
                outside["won"] = external(ctx, name, sc["external"]["how"])
            calls["n"] += 1
        ctx.on_step = appear
    ctx.arm([resolve_fault(f, writes[f["thread"]].size) for f in sc["faults"]], sc["delivery"])
    outs = [None] * len(writes)

    def body(i):
        def go():
            outs[i] = writes[i].call(ctx, paths[i], None if sc["threads"][i]["default"] else False)
        return go

    ctx.threads(sc["plan"], [(f"w{i}", body(i)) for i in range(len(writes))], lines=sc["lines"])
    ctx.on_step = None
    errors = fired_errors(ctx)
    ctx.disarm()
    clean(ctx, "race")
    winners = [i for i, o in enumerate(outs) if o.ok]
    existed = bool(sc["form"]) or outside["won"]
    ctx.nontrivial = existed or len(writes) > 1
    ctx.probe("already-existed" if existed else "created-by-one")
    for i, o in enumerate(outs):
        if not o.ok:
            fault = any(is_os_error(o.exc, e) for e in errors)
            ctx.require(isinstance(o.exc, FileExistsError) or fault, "wrong-error",
                        f"caller {i} of {len(outs)} {o.describe()} (expected FileExistsError)")
    now = snapshot(ctx)
    for rel in before:
        ctx.require(now.get(rel) == before[rel], "altered", f"{rel} ({sc['form']}) was altered: now {str(now.get(rel))[:80]}")
    if existed:
        ctx.require(not winners, "overwritten", f"{len(winners)} caller(s) returned although the path existed "
                                                f"({sc['form'] or 'created meanwhile by another process'})")
        if outside["won"]:
            ctx.require(now.get(name, ())[:2] == outside["won"], "altered",
                        f"file created meanwhile by another process was altered: {str(now.get(name))[:80]}")
        if pipe is not None:
            try:
                got = os.read(pipe, 64)
            except BlockingIOError:
                got = b""
            os.close(pipe)
            ctx.require(not got, "altered", f"{got!r} was sent through the pipe at the path")
    elif not errors:
        ctx.require(len(winners) == 1, "winners", f"{len(winners)} of {len(outs)} callers returned")
    ctx.require(len(winners) <= 1, "winners", f"{len(winners)} of {len(outs)} callers returned")
    if winners:
        data = now.get(name, (None, None))[1]
        writes[winners[0]].check(ctx, data, f"file of the winner, caller {winners[0]}")
    extra = {r for r in now if now[r][0] != "dir"} - set(before) - {name}
    ctx.require(not extra, "stray-file", f"unexpected files: {sorted(extra)}")
    return None


def external(ctx, name, how):
    """Another process creates the path exclusively; None if it came too late."""
    full = ctx.path(name)
    try:
        if how == "symlink":
            os.symlink(ctx.path("not-yet-there"), full)
            ctx.probe("external-created")
            return ("link", ctx.path("not-yet-there"))
        fd = os.open(full, os.O_CREAT | os.O_EXCL | os.O_WRONLY, 0o644)
    except FileExistsError:
        ctx.probe("external-too-late")
        return None
    os.write(fd, b"made by another process\n" * 400)
    os.close(fd)
    ctx.probe("external-created")
    return ("file", b"made by another process\n" * 400)


def run_batch(ctx, sc):
    """Displaced-structure batches whose paths partly exist."""
    L, Z, X = structure({**sc["spec"], "special": 0.0, "lattice": "ortho"})
    refs = ReferenceStructure(Z, L, X)
    r = rng_of("batch", sc["spec"]["seed"])
    names = [f"d/{k}.vasp" for k in range(sc["m"])]
    paths = [spell(ctx, n, "path") for n in names]
    for k in sc["taken"]:
        ctx.put(names[k], f"precious {k}\n" * 50)
    before = snapshot(ctx)
    amplitudes = r.uniform(-0.2, 0.2, size=sc["m"])
    direction = r.normal(size=(len(Z), 3))
    created = {}
    if sc["external"]:
        free = [n for k, n in enumerate(names) if k not in sc["taken"]]
        calls = {"n": 0}

        def appear(op, rel):
            if calls["n"] == sc["external"]["at"] and free:
                got = external(ctx, free[-1], sc["external"]["how"])
                if got:
                    created[free[-1]] = got
            calls["n"] += 1
        ctx.on_step = appear
    ctx.arm([], sc["delivery"])
    outs = []

    def body(i):
        def go():
            kw = {} if sc["threads"][i]["default"] else {"overwrite": False}
            if i == 0:
                outs.append(ctx.call("batch", write_displaced_structures, refs, direction,
                                     amplitudes, paths, "poscar", **kw))
            else:
                outs.append(ctx.call("batch", write_ast_displaced_structures, refs, 0, direction[0],
                                     amplitudes, paths, "poscar", **kw))
        return go

    ctx.threads(sc["plan"], [(f"b{i}", body(i)) for i in range(len(sc["threads"]))], lines=sc["lines"])
    ctx.on_step = None
    ctx.disarm()
    ctx.nontrivial = True
    clean(ctx, "batch")
    for o in outs:
        ctx.require(not o.ok, "overwritten", "batch over existing files returned")
        ctx.require(isinstance(o.exc, FileExistsError), "wrong-error", f"batch {o.describe()}")
    now = snapshot(ctx)
    for rel in before:
        ctx.require(now.get(rel) == before[rel], "altered", f"{rel} was altered by a batch without overwrite")
    for rel, what in created.items():
        ctx.require(now.get(rel, ())[:2] == what, "altered", f"{rel}, created meanwhile, was altered")
    extra = set(now) - set(before) - set(names)
    ctx.require(not extra, "stray-file", f"unexpected files: {sorted(extra)}")
