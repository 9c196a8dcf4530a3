"""C15: neural-network predictions do not depend on batch or history."""

import copy
import sys

from .gnn import *  # noqa: F403
from .gnn import REAL_GNN
from .models import REAL_MODEL, STUB_IO

from ramannoodle.dynamics import Phonons, Trajectory

ID = "C15"
RUNS = {"quick": 500, "thorough": 30000}
RULE = ("each evaluation is the life of one network: predictions of seeded batches (1 to 401 structures, any order and memory "
        "layout, some structures without a prediction), predictions that fail at a seeded layer or progress report, rejected "
        "requests, training, interrupted epochs, new weights, copies; every prediction is compared structure by structure "
        "with the forward pass of a pristine network holding the same weights; non-trivial: a batch of more than one "
        "structure or a failure; distinct: different event log")
REAL = REAL_MODEL[1:] + REAL_GNN
STUBS = ["memory allocator and user (failures and interruptions injected before seeded layer computations)",
         "terminal (progress reports, fails at seeded writes)"]
SIZES = [1, 1, 2, 2, 3, 4, 5, 7, 8, 16, 33, 99, 100, 101, 102, 150, 199, 200, 201, 250, 301, 401]
LAYOUTS = ["plain", "plain", "reversed", "fortran", "strided", "readonly", "images"]


def gen(rng, tier):
    def size():
        return rng.choice(SIZES[:10]) if rng.random() < 0.75 else rng.choice(SIZES)

    def op():
        roll = rng.random()
        o = {"seed": rng.randrange(1 << 30)}
        if roll < 0.45:
            o.update(do="predict", size=size(), layout=rng.choice(LAYOUTS), odd=rng.choice([0, 0, 0, 0.1, 0.4]),
                     grad=rng.choice(["", "", "no_grad", "inference"]))
        elif roll < 0.6:
            o.update(do="fail", size=size(), at=rng.choice([rng.randint(0, 40), rng.randint(0, 150)]),
                     exc=rng.choice(sorted(MISHAPS)), grad=rng.choice(["", "no_grad", "inference"]))
        elif roll < 0.65:
            o.update(do="terminal", size=size(), at=rng.randint(0, 4))
        elif roll < 0.72:
            o.update(do="bad", kind=rng.choice(["flat", "atoms", "none", "text", "columns", "list", "huge"]), size=rng.choice([1, 2, 3]))
        elif roll < 0.8:
            o.update(do="train", sizes=[rng.randint(1, 6) for _ in range(rng.randint(1, 3))])
        elif roll < 0.87:
            o.update(do="epoch", batch=rng.randint(1, 5), at=rng.choice([None, rng.randint(0, 80)]), exc=rng.choice(sorted(MISHAPS)))
        elif roll < 0.92:
            o.update(do="forward", size=size() if rng.random() < 0.6 else rng.randint(101, 260), train=rng.random() < 0.4,
                     own=rng.random() < 0.5)
        elif roll < 0.94:
            o.update(do="mode", train=rng.random() < 0.7)
        elif roll < 0.96:
            o.update(do="spectrum", size=rng.choice([3, 8, 120]))
        else:
            o.update(do=rng.choice(["copy", "load", "reset"]))
        return o

    return {"gnn": gen_gnn(rng), "dtype": rng.choice(["float64", "float64", "float32"]), "seed": rng.randrange(1 << 30),
            "pool": rng.randint(2, 10), "size": rng.choice([0.02, 0.1, 0.3]), "ops": [op() for _ in range(rng.randint(2, 7))]}


def shrink(sc):
    for i, o in enumerate(sc["ops"]):
        for k, v in (("size", 1), ("size", 2), ("odd", 0), ("grad", ""), ("layout", "plain"), ("at", 0)):
            if k in o and o[k] != v and not (k == "size" and o[k] <= v):
                yield {**sc, "ops": sc["ops"][:i] + [{**o, k: v}] + sc["ops"][i + 1:]}


class Terminal:
    """A stream whose k-th write fails."""

    def __init__(self, ctx, at):
        self.ctx, self.at, self.seen, self.encoding = ctx, at, 0, "utf-8"

    def write(self, text):
        self.seen += 1
        if self.seen == self.at + 1:
            note_fault(self.ctx, "EPIPE", "terminal")
            raise BrokenPipeError(32, "Broken pipe")
        return len(text)

    def flush(self):
        pass


def layout(X, how):
    if how == "reversed":
        return np.ascontiguousarray(X[::-1])[::-1]
    if how == "fortran":
        return np.asfortranarray(X)
    if how == "strided":
        wide = np.zeros((2 * len(X),) + X.shape[1:])
        wide[::2] = X
        return wide[::2]
    if how == "readonly":
        X.flags.writeable = False
    return X


class Life:
    def __init__(self, ctx, sc):
        self.ctx, self.sc = ctx, sc
        self.c, self.model = make_gnn(sc["gnn"])
        self.pristine = make_gnn(sc["gnn"])[1]
        self.pool = displaced_batch(self.c, sc["seed"], sc["pool"], sc["size"])
        self.odd = self.pool[:2].copy()
        self.odd[0, -1] = self.odd[0, 0]           # two atoms in one place
        self.odd[1, 0] = np.nan
        self.odd = self.odd[:len(self.pool)]
        self.mean, self.std = scaling(sc["gnn"])
        self.known, self.truths = None, {}

    def inputs(self, index, X, own=False):
        """Arguments of the forward pass, with `own` lattices and species for every structure of the pool."""
        lattices, numbers, positions = inputs(self.c, X)
        if own:
            lattices, numbers = lattices.clone(), numbers.clone()
            for k, i in enumerate(index):
                r = rng_of("own", self.sc["seed"], int(i))
                lattices[k] = lattices[k] @ torch.tensor(np.eye(3) + r.uniform(-0.04, 0.04, size=(3, 3))).type(lattices.dtype)
                numbers[k] = numbers[k][torch.tensor(r.permutation(numbers.shape[1]))]
        return lattices, numbers, positions

    def truth(self, index, own=False):
        """What the network predicts for one structure of the pool (negative: an odd one)."""
        now = weights(self.model)
        if self.known is None or same_state(now, self.known):
            self.known, self.truths = now, {}
            self.pristine.load_state_dict({k: torch.tensor(v) for k, v in now.items()})
            self.pristine.eval()
        if (index, own) not in self.truths:
            X = self.pool[index] if index >= 0 else self.odd[-1 - index]
            with torch.no_grad():
                v = self.pristine.forward(*self.inputs([index], X[None], own)).numpy().astype(float)[0]
            self.truths[index, own] = to_tensors(v) * self.std + self.mean
        return self.truths[index, own]

    def batch(self, o):
        r = rng_of("pick", o["seed"])
        index = r.integers(len(self.pool), size=o["size"])
        odd = r.uniform(size=o["size"]) < o.get("odd", 0)
        index = np.where(odd, -1 - r.integers(len(self.odd), size=o["size"]), index)
        X = np.array([self.pool[i] if i >= 0 else self.odd[-1 - i] for i in index])
        how = o.get("layout", "plain")
        if how == "images":             # the same atoms seen in other cells
            X[index >= 0] += r.integers(-1, 2, size=X.shape)[index >= 0]
        return index, layout(X, how)

    def call(self, label, o, X, fault=None):
        before = weights(self.model)
        was = np.array(X)
        context = {"no_grad": torch.no_grad, "inference": torch.inference_mode}.get(o.get("grad"), torch.enable_grad)
        with context():
            out = attempt(self.ctx, label, self.model.calc_polarizabilities, X)
        d = same_state(before, weights(self.model))
        self.ctx.require(d is None, "changed", f"{label} changed the network: {d}")
        self.ctx.require(np.array_equal(was, X, equal_nan=True), "changed", f"{label} changed the positions given to it")
        return out

    def verify(self, label, out, index, own=False):
        ctx = self.ctx
        ctx.require(out.ok, "refused", f"{label} {out.describe()}")
        got = out.value
        ctx.require(isinstance(got, np.ndarray) and got.shape == (len(index), 3, 3), "shape", f"{label} returned {np.shape(got)}")
        want = np.array([self.truth(int(i), own) for i in index]).reshape(len(index), 3, 3)
        tol = 1e-9 if self.sc["dtype"] == "float64" else 2e-4
        fine = np.isfinite(want)
        scale = max(1.0, float(np.abs(want[fine]).max(initial=0.0)))
        bad = np.flatnonzero([not np.allclose(g, w, rtol=tol, atol=tol * scale, equal_nan=True) for g, w in zip(got, want)])
        ctx.require(len(bad) == 0, "batch-or-history",
                    f"{label}: structures {bad[:5].tolist()} of {len(index)} differ from their prediction on a pristine network: "
                    f"{diff(got[bad], want[bad]) if len(bad) else ''}")
        if len(index) > 1:
            ctx.nontrivial = True
        if len(index) > 100:
            ctx.probe("batches-over-100")
        if not fine.all():
            ctx.probe("batches-with-odd-structures")

    def dataset(self, seed, count):
        r = rng_of("data", seed)
        X = displaced_batch(self.c, seed, count)
        pol = r.normal(size=(count, 3, 3))
        return PolarizabilityDataset(self.c.L, list(self.c.Z), X, pol + pol.transpose(0, 2, 1))

    def step(self, k, o):
        ctx, do = self.ctx, o["do"]
        label = f"{k} {do}"
        ctx.probe(do)
        if do == "predict":
            index, X = self.batch(o)
            self.verify(f"{label} {o['size']} {o['layout']}", self.call(label, o, X), index)
        elif do == "fail":
            index, X = self.batch(o)
            with Mishaps(ctx, o["at"], o["exc"]) as mishaps:
                out = self.call(label, o, X)
            if not mishaps.hit:
                return self.verify(label, out, index)
            ctx.require(not out.ok and type(out.exc) is MISHAPS[o["exc"]], "swallowed",
                        f"{label}: {o['exc']} during the prediction, but it {out.describe()}")
        elif do == "terminal":
            index, X = self.batch(o)
            was, sys.stderr = sys.stderr, Terminal(ctx, o["at"])
            try:
                out = self.call(label, o, X)
            finally:
                failed, sys.stderr = sys.stderr.seen > o["at"], was
            if out.ok or not failed:
                self.verify(label, out, index)
            else:
                ctx.require(isinstance(out.exc, OSError), "wrong-error", f"{label} {out.describe()}")
        elif do == "bad":
            _, X = self.batch(o)
            X = {"flat": X[0], "atoms": np.concatenate([X, X], axis=1), "none": None, "text": "positions",
                 "columns": X[:, :, :2], "list": X.tolist(), "huge": X[None]}[o["kind"]]
            before = weights(self.model)
            out = ctx.call(label, self.model.calc_polarizabilities, X)
            ctx.require(not out.ok, "accepted", f"{label}: positions of kind {o['kind']} are accepted")
            d = same_state(before, weights(self.model))
            ctx.require(d is None, "changed", f"{label} changed the network: {d}")
        elif do == "train":
            opt = torch.optim.SGD(self.model.parameters(), lr=1e-3)
            self.model.train()
            for s in o["sizes"]:
                X = displaced_batch(self.c, o["seed"] + s, s)
                out = ctx.call(label, self.model.forward, *inputs(self.c, X))
                ctx.require(out.ok, "refused", f"training forward pass {out.describe()}")
                out.value.sum().backward()
                opt.step()
                opt.zero_grad()
        elif do == "epoch":
            opt = torch.optim.Adam(self.model.parameters(), lr=1e-3)
            with Mishaps(ctx, o["at"], o["exc"]) as mishaps:
                out = attempt(ctx, label, train_single_epoch, self.model, self.dataset(o["seed"], 6), self.dataset(o["seed"] + 1, 3),
                              o["batch"], opt, torch.nn.MSELoss())
            ctx.require(out.ok or mishaps.hit, "refused", f"{label} {out.describe()}")
        elif do == "forward":
            self.model.train(o["train"])
            index, X = self.batch(o)
            out = ctx.call(label, self.model.forward, *self.inputs(index, X, o["own"]))
            ctx.require(out.ok, "refused", f"forward pass {out.describe()}")
            if not o["train"]:
                value = to_tensors(out.value.detach().numpy().astype(float))
                self.verify(label, Outcome(value=value * self.std + self.mean), index, o["own"])
        elif do == "mode":
            self.model.train(o["train"])
        elif do == "spectrum":
            r = rng_of("spectrum", o["seed"])
            if r.uniform() < 0.5:
                obj = Phonons(self.c.X.copy(), r.uniform(50, 900, size=3), r.normal(size=(3, self.c.n, 3)) * 0.1)
                out = ctx.call(label, obj.get_raman_spectrum, self.model)
            else:
                index, X = self.batch(o)
                out = ctx.call(label, Trajectory(X, 1.0).get_raman_spectrum, self.model)
                ctx.require(out.ok, "refused", f"{label} {out.describe()}")
                out = Outcome(value=out.value.polarizability_ts)
                self.verify(label, out, index)
            ctx.require(out.ok, "refused", f"{label} {out.describe()}")
        elif do == "copy":
            self.model = copy.deepcopy(self.model)
        elif do == "load":
            self.model.load_state_dict(make_gnn({**self.sc["gnn"], "seed": o["seed"]})[1].state_dict())
        else:
            torch.manual_seed(o["seed"] % 1000)
            out = ctx.call(label, self.model.reset_parameters)
            ctx.require(out.ok, "refused", f"reset_parameters {out.describe()}")


def run(ctx, sc):
    with dtype(sc["dtype"]):
        life = Life(ctx, sc)
        for k, o in enumerate(sc["ops"]):
            life.step(k, o)
        everything = {"seed": sc["seed"], "size": len(life.pool), "grad": ""}
        life.verify("final prediction", life.call("final", everything, life.pool.copy()), np.arange(len(life.pool)))
