"""C11: predictions depend only on the degrees of freedom and the mask."""

from .models import *  # noqa: F403
from .models import REAL_MODEL, STUB_IO

ID = "C11"
RUNS = {"quick": 1500, "thorough": 30000}
RULE = ("each evaluation builds one crystal's model twice, in different seeded orders, through different entry points "
        "(arrays, OUTCAR, vasprun.xml, pymatgen), with seeded storage deliveries and failed attempts, predictions and maskings in "
        "between, and compares both with each other and with the crystal's true response; non-trivial: a degree of "
        "freedom was added; distinct: different event log")
REAL = REAL_MODEL
STUBS = STUB_IO + ["the ab-initio code (files printed from a known symmetry-adapted linear or polynomial response)"]


def gen(rng, tier):
    crystal = gen_model_crystal(rng)
    basis = "n" in crystal and 3 <= crystal["n"] <= 4 and rng.random() < 0.5
    sc = {"crystal": crystal, "seed": rng.randrange(1 << 30),
          "kind": "interp" if basis else rng.choice(["art", "art", "interp"]),
          "mode": "basis" if basis else "atoms", "portion": 1.0 if rng.random() < 0.7 else round(rng.random(), 3),
          "tilted": rng.random() < 0.4, "curved": rng.random() < 0.4, "order": rng.choice([1, 1, 2, 3]), "variants": []}
    fixed = rng.randrange(1 << 30)
    for _ in range(2):
        sc["variants"].append({
            "seed": rng.randrange(1 << 30), "atoms": fixed if sc["portion"] < 1 else rng.randrange(1 << 30),
            "entry": rng.choice(["mixed", "array", "outcar", "vasprun.xml", "pymatgen"]),
            "noise": rng.choice([0, 0.3, 0.8]), "norm": rng.choice([1.0, 0.1, 37.0, 9.5, 1e-3]),
            "delivery": delivery(rng, 0.3)})
    sc["masks"] = [rng.randrange(1 << 30) for _ in range(2)]
    return sc


def shrink(sc):
    c = sc["crystal"]
    if "n" in c and c["n"] > 1:
        yield {**sc, "crystal": {**c, "n": c["n"] - 1}}
    for k, v in enumerate(sc["variants"]):
        for key, simple in (("noise", 0), ("norm", 1.0), ("entry", "array"), ("delivery", {})):
            if v[key] != simple:
                vs = list(sc["variants"])
                vs[k] = {**v, key: simple}
                yield {**sc, "variants": vs}
    if sc["masks"]:
        yield {**sc, "masks": sc["masks"][:-1]}
    if sc["tilted"]:
        yield {**sc, "tilted": False}


class Truth:
    """True polarizability of a scenario, also with some directions masked."""

    def __init__(self, world, sc):
        self.world, self.sc = world, sc
        self.poly = self.S = None
        if sc["mode"] == "atoms" and sc["kind"] == "interp" and sc["order"] == 2:
            self.S = world.second_order()
        # atomic Raman tensors are slopes: what is even in the amplitude only shifts all predictions
        self.curve = world.second_order() if sc["kind"] == "art" and sc.get("curved") else None
        if sc["mode"] == "basis":
            r = rng_of("basis", sc["seed"])
            m = 3 * world.c.n
            self.Q, _ = np.linalg.qr(r.normal(size=(m, m)))
            self.Q = self.Q.T.reshape(m, world.c.n, 3)
            coeff = r.normal(size=(m, 3, 3, 3))             # degree, tensor
            self.poly = (coeff + coeff.transpose(0, 1, 3, 2)) / 2
            self.poly[:, sc["order"]:] = 0

    def part(self, b, u):
        """Contribution of direction b (n, 3) to structures displaced by u."""
        q = np.einsum("ai,...ai->...", b, u)
        if self.poly is None:
            first = np.einsum("...,jk->...jk", q, np.einsum("ai,aijk->jk", b, self.world.T))
            if self.S is None:
                return first
            return first + np.einsum("...,jk->...jk", q ** 2, np.einsum("ai,aj,aijkl->kl", b, b, self.S))
        dots = np.einsum("kai,ai->k", self.Q, b)
        k = int(np.argmax(np.abs(dots)))
        s = q * np.sign(dots[k])
        return sum(np.einsum("...,jk->...jk", s ** (d + 1), self.poly[k, d]) for d in range(3))

    def alpha(self, u):
        if self.poly is None:
            out = self.world.alpha(u)
            if self.curve is not None:
                out = out + np.einsum("...ai,...aj,aijkl->...kl", u, u, self.curve)
            if self.S is not None:      # of single atoms only
                out = out + np.einsum("...ai,...aj,aijkl->...kl", u, u, self.S)
            return out
        return self.world.a0 + sum(self.part(b, u) for b in self.Q)


def noise(ctx, world, model, kind, r, X, what):
    """Something that must leave no trace."""
    pick = int(r.integers(7))
    J = len(model.cart_basis_vectors)
    if pick == 0:
        ctx.call("predict", model.calc_polarizabilities, X)
    elif pick == 1 and J:
        masked = ctx.call("masked", model.get_masked_model, [int(r.integers(J))])
        if masked.ok:
            ctx.call("predict masked", masked.value.calc_polarizabilities, X)
            masked.value.unmask()
    elif pick == 2:
        ctx.call("predict wrong shape", model.calc_polarizabilities, X[:, :1, :2])
    elif pick == 3 and J:
        m = np.zeros(J, dtype=bool)
        m[::2] = True
        model.mask = m
        model.unmask()
    elif pick == 4 and J:       # a direction that is there already
        b = model.cart_basis_vectors[int(r.integers(J))]
        amps = [0.05, -0.05]
        share = float(r.choice([1.0, 1.0, 0.3, 0.03, 0.004]))       # or partly
        if share < 1:
            if kind == "art":  # a direction read from a file carries the file's rounding on the other atoms
                b = b * (np.arange(len(b)) == np.abs(b).max(axis=1).argmax())[:, None]
            other = r.normal(size=b.shape) * (np.abs(b).max(axis=1) > 0)[:, None] if kind == "art" else r.normal(size=b.shape)
            other -= b * (other * b).sum() / (b * b).sum()
            b = share * b / np.linalg.norm(b) + np.sqrt(1 - share ** 2) * other / np.linalg.norm(other)
        out = add(ctx, world, model, kind, "array", b, amps, [world.a0] * 2, "again")
        ctx.require(not out.ok, "accepted", f"{what}: a direction that is already covered was accepted")
        ctx.probe("rejected-attempts")
    elif pick == 5:
        fn = model.add_art_from_files if kind == "art" else model.add_dof_from_files
        args = (["missing"], "outcar") if kind == "art" else (["missing"], "outcar", 1)
        out = ctx.call("missing file", fn, *args)
        ctx.require(not out.ok, "accepted", f"{what}: adding a missing file succeeded")
        ctx.probe("rejected-attempts")
    else:
        unit = np.zeros((world.c.n, 3))
        unit[int(r.integers(world.c.n)), 0] = 1.0
        out = add(ctx, world, model, kind, "array", unit, [0.05, 0.05], [world.a0] * 2, "twice")
        ctx.require(not out.ok, "accepted", f"{what}: duplicate amplitudes were accepted")
        ctx.probe("rejected-attempts")


def parents(world, sc, v):
    """Parent directions in the order this variant adds them."""
    c = world.c
    if sc["mode"] == "basis":
        units = list(Truth(world, sc).Q)
    else:
        units = []
        # other representatives may be other directions, which matters unless the response is linear
        ra = rng_of("representatives", (v if sc["order"] == 1 else sc["variants"][0])["atoms"])
        for o in sorted(set(world.orbit)):
            members = [a for a in range(c.n) if world.orbit[a] == o]
            a = members[int(ra.integers(len(members)))]
            for d in frame(world, a, sc["seed"], sc["tilted"]):
                u = np.zeros((c.n, 3))
                u[a] = d
                units.append(u)
    keep = rng_of("portion", sc["seed"]).uniform(size=len(units)) < sc["portion"]
    if sc["portion"] >= 1:
        keep[:] = True
    units = [u for u, k in zip(units, keep) if k]
    r = rng_of("sequence", v["seed"])
    return [units[i] for i in r.permutation(len(units))]


def build_model(ctx, world, truth, sc, v, index):
    what = f"model {index}"
    kind = sc["kind"]
    model = new_model(ctx, world, kind)
    r = rng_of("variant", v["seed"])
    X, _ = world.batch(v["seed"], 2)
    worst = 1e-8
    for k, unit in enumerate(parents(world, sc, v)):
        while r.uniform() < v["noise"]:
            noise(ctx, world, model, kind, r, X, what)
        entry = v["entry"] if v["entry"] != "mixed" else ENTRIES[int(r.integers(len(ENTRIES)))]
        size = float(r.uniform(0.03, 0.1))
        if entry in ("array", "pymatgen") and r.uniform() < 0.15:       # no rounding in a file
            size *= 0.05
        if sc["mode"] == "basis":
            count = sc["order"] + int(r.integers(0, 2))
            options = [[float(x) for x in r.permutation([-0.12, -0.09, -0.06, 0.05, 0.08, 0.11])[:count]]]
            order = sc["order"]
        else:
            options = [[size, -size], [size]] if r.uniform() < 0.5 or truth.curve is not None else [[-size, size], [-size]]
            order = 1
            if truth.S is not None:     # a parabola needs three points
                options, order = [[size, -size], [size]], 2
        basis = model.cart_basis_vectors
        covered = max([abs(float((b * unit).sum())) for b in basis], default=0.0)
        out = None
        for amps in options:
            amps = [amps[i] for i in r.permutation(len(amps))]
            pols = truth.alpha(np.array([a * unit for a in amps]))
            ctx.arm([], v["delivery"])
            out = add(ctx, world, model, kind, entry, unit, amps, pols, f"{index}-{k}-{len(amps)}", order,
                      norm=v["norm"] * (1 if entry == "array" else 1))
            ctx.disarm()
            if out.ok:
                break
            ctx.require(isinstance(out.exc, InvalidDOFException), "wrong-error",
                        f"{what}: adding direction {k} from {entry} {out.describe()}")
        if covered > 1e-3:
            ctx.require(not out.ok, "accepted",
                        f"{what}: direction {k} ({entry}) is not orthogonal to earlier ones but was accepted")
            ctx.probe("covered-by-symmetry")
        else:
            ctx.require(out.ok, "rejected", f"{what}: direction {k} ({entry}, amplitudes {options}) {out.describe()}")
            worst = max(worst, PRECISE[entry])
            ctx.nontrivial = True
            ctx.probe(f"added:{entry}")
    return model, worst


def predict(ctx, model, X, what):
    out = ctx.call("predict", model.calc_polarizabilities, X)
    ctx.require(out.ok, "prediction", f"{what}: prediction {out.describe()}")
    ctx.require(np.shape(out.value) == (len(X), 3, 3), "prediction", f"{what}: shape {np.shape(out.value)}")
    return out.value


def run(ctx, sc):
    world = World(sc["crystal"], sc["seed"])
    if len(world.ops) > 1:
        sc = {**sc, "mode": "atoms"}
    truth = Truth(world, sc)
    X, u = world.batch(sc["seed"], 5, 0.09 if sc["mode"] == "basis" else 0.15)
    models = [build_model(ctx, world, truth, sc, v, i) for i, v in enumerate(sc["variants"])]
    full = sc["portion"] >= 1
    scale = max(1.0, float(np.abs(world.T).max()))
    preds = []
    for i, (model, tol) in enumerate(models):
        what = f"model {i} ({sc['kind']}, {sc['crystal']})"
        got = predict(ctx, model, X, what)
        home = np.zeros((3, 3))
        if truth.curve is not None:
            home = predict(ctx, model, world.c.X[None], what)[0] - world.a0
            got = got - home
        preds.append(got)
        want = world.alpha(u) if truth.curve is not None else truth.alpha(u)
        basis = model.cart_basis_vectors
        if full:
            ctx.require(len(basis) == 3 * world.c.n, "incomplete",
                        f"{what}: {len(basis)} of {3 * world.c.n} degrees of freedom after adding all motions")
        if not full or truth.S is not None:
            want = world.a0 + sum((truth.part(b, u) for b in basis), np.zeros((len(X), 3, 3)))
        ctx.require(np.allclose(got, want, atol=tol * scale, rtol=0), "wrong-prediction",
                    f"{what}: predictions differ from the true response by {np.abs(got - want).max():.3g} "
                    f"(tolerance {tol * scale:.1g})")
        some = np.array([world.c.X, X[0], np.where(np.arange(world.c.n)[:, None] == 0, X[1], world.c.X), X[1], X[1]])
        many = predict(ctx, model, some, what)
        one = np.concatenate([predict(ctx, model, x[None], what) for x in some])
        ctx.require(np.allclose(one, many, atol=1e-10, rtol=0), "batch", f"{what}: single predictions differ from the batch's by "
                    f"{np.abs(one - many).max():.3g}")
        ctx.require(np.allclose(many[1] - home, got[0], atol=1e-10, rtol=0), "batch", f"{what}: predictions depend on the batch")
        for seed in sc["masks"]:
            r = rng_of("mask", seed)
            chosen = sorted(int(j) for j in np.flatnonzero(r.uniform(size=len(basis)) < r.uniform()))
            masked = ctx.call("masked", model.get_masked_model, chosen)
            ctx.require(masked.ok, "masking", f"{what}: get_masked_model {masked.describe()}")
            part = world.a0 + sum((truth.part(b, u) for j, b in enumerate(basis) if j not in chosen), np.zeros((len(X), 3, 3)))
            got_m = predict(ctx, masked.value, X, what)
            if truth.curve is not None:
                got_m = got_m - predict(ctx, masked.value, world.c.X[None], what)[0] + world.a0
            ctx.require(np.allclose(got_m, part, atol=tol * scale, rtol=0), "masking",
                        f"{what}: with {chosen} masked, predictions are off by {np.abs(got_m - part).max():.3g}")
            masked.value.unmask()
            got_u = predict(ctx, masked.value, X, what) - home
            ctx.require(np.allclose(got_u, got, atol=1e-12, rtol=0), "masking", f"{what}: unmasking does not restore predictions")
            if sc["kind"] == "art":
                r2 = rng_of("symbols", seed)
                atom = int(r2.integers(world.c.n))
                ask = world.c.symbols()[atom] if r2.uniform() < 0.5 else atom
                idx = ctx.call("dof indexes", model.get_dof_indexes, ask)
                atoms = [a for a in range(world.c.n) if a == ask or world.c.symbols()[a] == ask]
                want_idx = sorted({j for j, b in enumerate(basis) if any(np.abs(b[a]).max() > 1e-4 for a in atoms)})
                ctx.require(idx.ok and sorted(idx.value) == want_idx, "dof-indexes", f"{what}: get_dof_indexes({ask!r}) "
                            f"{idx.value if idx.ok else idx.describe()} instead of {want_idx}")
    tol = max(models[0][1], models[1][1]) * 2 * scale
    ctx.require(np.allclose(preds[0], preds[1], atol=tol, rtol=0), "order-dependent",
                f"the same degrees of freedom give predictions that differ by {np.abs(preds[0] - preds[1]).max():.3g}")
    ctx.require(not ctx.mutations, "modified", "adding degrees of freedom changed storage")
