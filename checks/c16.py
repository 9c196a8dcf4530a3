"""C16: a training epoch uses each sample once and nothing else."""

import copy

from .gnn import *  # noqa: F403
from .gnn import REAL_GNN

ID = "C16"
RUNS = {"quick": 400, "thorough": 30000}
RULE = ("each evaluation trains one network through a seeded history of epochs, interrupted epochs (a layer, the loss, the "
        "optimizer or the reading of a sample fails or is interrupted at a seeded moment), predictions and rejected requests; "
        "every complete epoch is watched (which samples, in which mode, with which parameters) and repeated by an independent "
        "loop on a pristine copy of network and optimizer; non-trivial: an epoch after a failure or prediction; distinct: "
        "different event log")
REAL = REAL_GNN + ["torch.optim, torch.utils.data"]
STUBS = ["memory allocator and user (failures and interruptions injected before seeded computations)",
         "loss function and datasets (wrappers that record and fail at seeded calls)"]

OPTIMIZERS = {"sgd": lambda p: torch.optim.SGD(p, lr=0.01), "momentum": lambda p: torch.optim.SGD(p, lr=0.01, momentum=0.9),
              "adam": lambda p: torch.optim.Adam(p, lr=0.003), "adamw": lambda p: torch.optim.AdamW(p, lr=0.003),
              "rmsprop": lambda p: torch.optim.RMSprop(p, lr=0.001), "decay": lambda p: torch.optim.SGD(p, lr=0.01, weight_decay=0.1)}
LOSSES = {"mse": torch.nn.MSELoss, "l1": torch.nn.L1Loss, "smooth": torch.nn.SmoothL1Loss, "huber": torch.nn.HuberLoss,
          "sum": lambda: torch.nn.MSELoss(reduction="sum")}
SITES = ["layer", "layer", "layer", "loss", "loss", "sample", "optimizer", "after-optimizer"]


def gen(rng, tier):
    def op():
        o = {"seed": rng.randrange(1 << 30)}
        roll = rng.random()
        if roll < 0.35:
            o.update(do="epoch")
        elif roll < 0.65:
            o.update(do="interrupted", site=rng.choice(SITES), at=rng.choice([0, 1, rng.randint(0, 6), rng.randint(0, 60)]),
                     exc=rng.choice(sorted(MISHAPS)))
        elif roll < 0.8:
            o.update(do="predict", size=rng.choice([1, 2, 3, 5, 101]), grad=rng.choice(["", "no_grad", "inference"]))
        elif roll < 0.86:
            o.update(do="rejected", how=rng.choice(["zero", "negative", "fraction", "none-set", "loss"]))
        elif roll < 0.92:
            o.update(do="gradients")
        else:
            o.update(do=rng.choice(["mode", "load", "random"]))
        if o["do"] in ("epoch", "interrupted", "rejected"):
            o.update(train=rng.randint(1, 9) if rng.random() < 0.95 else rng.choice([100, 130]),
                     validation=rng.randint(2, 6) if rng.random() < 0.93 else rng.choice([1, 99, 100, 101, 102, 205]),
                     batch=rng.choice([1, 2, 3, 4, 9, 20, 150]), fresh=rng.random() < 0.5, rescaled=rng.random() < 0.3,
                     loss=rng.choice(sorted(LOSSES)), same=rng.random() < 0.12)
        return o

    return {"gnn": gen_gnn(rng), "dtype": rng.choice(["float64", "float64", "float32"]), "optimizer": rng.choice(sorted(OPTIMIZERS)),
            "seed": rng.randrange(1 << 30), "ops": [op() for _ in range(rng.randint(1, 5))] + [{**op_epoch(rng)}]}


def op_epoch(rng):
    return {"do": "epoch", "seed": rng.randrange(1 << 30), "train": rng.randint(2, 7), "validation": rng.randint(2, 5),
            "batch": rng.randint(1, 4), "fresh": False, "rescaled": False, "loss": "mse"}


def shrink(sc):
    for i, o in enumerate(sc["ops"]):
        for k, low in (("train", 1), ("validation", 2), ("batch", 1), ("at", 0), ("size", 1)):
            for v in (low, o.get(k, 0) // 2, o.get(k, 0) - 1):
                if low <= v < o.get(k, 0):
                    yield {**sc, "ops": sc["ops"][:i] + [{**o, k: v}] + sc["ops"][i + 1:]}


class FailingSet(PolarizabilityDataset):
    """Reading the k-th sample fails."""
    strike = None

    def __getitem__(self, i):
        if self.strike is not None:
            self.strike()
        return super().__getitem__(i)


class Watch:
    """Records the passes through the network during an epoch."""

    def __init__(self, model):
        self.model, self.passes, self.original = model, [], model.forward

    def __enter__(self):
        def forward(lattice, atomic_numbers, positions):
            self.passes.append({"X": positions.detach().numpy().astype(float).copy(), "training": self.model.training,
                                "all-training": {m.training for m in self.model.modules()}, "weights": weights(self.model),
                                "L": lattice.detach().numpy().copy(), "Z": atomic_numbers.detach().numpy().copy()})
            return self.original(lattice, atomic_numbers, positions)
        self.model.forward = forward
        return self.passes

    def __exit__(self, *args):
        del self.model.forward


class Training:
    def __init__(self, ctx, sc):
        self.ctx, self.sc = ctx, sc
        self.c, self.model = make_gnn(sc["gnn"])
        self.pristine = make_gnn(sc["gnn"])[1]
        self.optimizer = self.new_optimizer(self.model)
        self.sets = None
        self.tol = {"rtol": 1e-6, "atol": 1e-8} if sc["dtype"] == "float64" else {"rtol": 5e-3, "atol": 2e-4}
        self.disturbed = False

    def new_optimizer(self, model):
        return OPTIMIZERS[self.sc["optimizer"]](model.parameters())

    def data(self, o):
        if self.sets is None or o["fresh"] or self.sets[0] != (o["train"], o["validation"], o["rescaled"]):
            r = rng_of("sets", o["seed"])
            made = []
            for k, n in enumerate((o["train"], o["validation"])):
                P = r.normal(size=(n, 3, 3))
                P = (P + P.transpose(0, 2, 1)) * 0.5 + np.eye(3)
                made.append(FailingSet(self.c.L, list(self.c.Z), displaced_batch(self.c, o["seed"] + k, n), P))
                if n == 1 or o["rescaled"]:
                    # large losses, where the size of a step does not depend on them
                    small = 1e-3 if o["seed"] % 2 and self.sc["optimizer"] in ("adam", "adamw", "rmsprop") else 1.0
                    made[-1].scale_polarizabilities(np.eye(3), np.ones((3, 3)) * (0.5 + k) * small)
            self.sets = [(o["train"], o["validation"], o["rescaled"]), *made]
        if o.get("same"):       # validated on the training set
            return [self.sets[1], self.sets[1]]
        return self.sets[1:]

    def contents(self, sets):
        return [[d.positions, d.polarizabilities, d.scaled_polarizabilities, list(d.atomic_numbers), len(d)] for d in sets]

    def run_epoch(self, label, o, sets, loss=None, batch=None):
        return attempt(self.ctx, label, train_single_epoch, self.model, sets[0], sets[1], o["batch"] if batch is None else batch,
                       self.optimizer, loss or LOSSES[o["loss"]]())

    # ---- a complete epoch
    def epoch(self, label, o):
        ctx, sc = self.ctx, self.sc
        train, val = sets = self.data(o)
        before = self.contents(sets)
        w0, opt0 = weights(self.model), copy.deepcopy(self.optimizer.state_dict())
        state = torch.get_rng_state()
        with Watch(self.model) as passes:
            out = self.run_epoch(label, o, sets)
        ctx.require(out.ok, "refused", f"{label} {out.describe()}")
        self.judge(label, o, sets, before, w0, opt0, passes, out.value)
        # the same epoch again, for a network that was never disturbed
        again = make_gnn(sc["gnn"])[1]
        again.load_state_dict({k: torch.tensor(v) for k, v in w0.items()})
        opt = self.new_optimizer(again)
        opt.load_state_dict(copy.deepcopy(opt0))
        torch.set_rng_state(state)
        torch.rand(self.sc["seed"] % 7)     # other draws of the application in between
        out2 = attempt(ctx, label + " again", train_single_epoch, again, train, val, o["batch"], opt, LOSSES[o["loss"]]())
        ctx.require(out2.ok, "refused", f"{label} again {out2.describe()}")
        d = self.apart(weights(self.model), weights(again)) or self.apart(list(out.value), list(out2.value))
        ctx.require(d is None, "history", f"{label} depends on what happened before: an undisturbed network trained alike differs: {d}")
        if self.disturbed:
            ctx.nontrivial = True
            ctx.probe("epochs-after-disturbance")
        if len(passes) and o["train"] > o["batch"]:
            ctx.probe("epochs-of-several-batches")

    def apart(self, a, b):
        """Difference beyond rounding or None."""
        pairs = [(k, a[k], b[k]) for k in a] if isinstance(a, dict) else [(f"result {k}", x, y) for k, (x, y) in enumerate(zip(a, b))]
        for k, x, y in pairs:
            x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
            if x.shape != y.shape or not np.allclose(x, y, equal_nan=True, **self.tol):
                return f"{k}: {diff(x, y)}"
        return None

    def judge(self, label, o, sets, before, w0, opt0, passes, result):
        ctx = self.ctx
        train, val = sets
        batch = o["batch"]
        d = same_state(before, self.contents(sets))
        ctx.require(d is None, "datasets", f"{label} changed a dataset: {d}")
        k = [p["training"] for p in passes].index(False) if not all(p["training"] for p in passes) else len(passes)
        first, second = passes[:k], passes[k:]
        ctx.require(all(p["all-training"] == {True} for p in first) and all(p["all-training"] == {False} for p in second), "mode",
                    f"{label}: parts of the network are in another mode, or training goes on after validation")
        index = []
        for part, d, name in ((first, train, "training"), (second, val, "validation")):
            seen = [self.which(d, x) for p in part for x in p["X"]]
            ctx.require(sorted(seen) == list(range(len(d))), "samples",
                        f"{label}: the {len(d)} {name} samples were passed to the network as {seen[:30]}")
            for p in part:
                ctx.require(all(same(x, self.c.L, 1e-5, 1e-5) for x in p["L"]) and (p["Z"] == np.array(self.c.Z)).all(), "samples",
                            f"{label}: other lattice or atoms in a {name} batch")
            index.append([[self.which(d, x) for x in p["X"]] for p in part])
        sizes = [len(b) for b in index[0]]
        want = [batch] * (len(train) // batch) + ([len(train) % batch] if len(train) % batch else [])
        ctx.require(sizes == want, "batches", f"{label}: batches of {sizes} instead of {want}")
        # independent repetition
        net = self.pristine
        net.load_state_dict({n: torch.tensor(v) for n, v in w0.items()})
        for p in net.parameters():
            p.grad = None
        opt = self.new_optimizer(net)
        opt.load_state_dict(copy.deepcopy(opt0))
        loss_fn = LOSSES[o["loss"]]()
        losses = []
        net.train()
        for b, p in zip(index[0], first):
            d = self.apart(p["weights"], weights(net))
            ctx.require(d is None, "training", f"{label}: parameters before batch {len(losses)} are not those the earlier batches give: {d}")
            target = torch.tensor(before[0][2][b]).type(torch.get_default_dtype())
            loss = loss_fn(net.forward(*inputs(self.c, before[0][0][b])), target)
            losses.append(float(loss))
            opt.zero_grad()
            loss.backward()
            opt.step()
        after = weights(net)
        d = self.apart(weights(self.model), after)
        ctx.require(d is None, "training", f"{label}: the parameters differ from those of an independent epoch: {d}")
        for p in second:
            d = same_state(weights(self.model), p["weights"])
            ctx.require(d is None, "validation", f"{label}: validation changed the network: {d}")
        net.eval()
        vlosses, variances = [], []
        with torch.no_grad():
            for b in index[1]:
                out = net.forward(*inputs(self.c, before[1][0][b]))
                vlosses.append(float(loss_fn(out, torch.tensor(before[1][2][b]).type(torch.get_default_dtype()))))
                x = out.numpy().astype(float)
                variances.append(((x - x.mean(0)) ** 2).sum(0) / (len(x) - 1) if len(x) > 1 else np.full(6, np.nan))
        ctx.require(len(result) == 3, "results", f"{label} returned {len(result)} results")
        for name, got, expected in (("training loss", result[0], np.mean(losses)), ("validation loss", result[1], np.mean(vlosses)),
                                    ("variances", result[2], np.mean(variances, axis=0))):
            if np.isnan(expected).any():        # a batch of one sample has no variance
                continue
            d = self.apart([got], [expected])
            ctx.require(d is None, "results", f"{label}: {name} {d}")

    def which(self, dataset, x):
        d = np.abs(dataset.positions - x).max((1, 2))
        i = int(np.argmin(d))
        return i if d[i] < 1e-6 else -1

    # ---- the rest of the history
    def interrupted(self, label, o):
        ctx = self.ctx
        sets = self.data(o)
        before = self.contents(sets)
        loss = LOSSES[o["loss"]]()
        site = o["site"]
        mishaps = Mishaps(ctx, o["at"], o["exc"])
        if site == "layer":
            with mishaps:
                out = self.run_epoch(label, o, sets)
        elif site == "loss":
            def failing(a, b):
                mishaps.strike("loss")
                return loss(a, b)
            out = self.run_epoch(label, o, sets, failing)
        elif site == "sample":
            for d in sets:
                d.strike = lambda: mishaps.strike("sample")
            out = self.run_epoch(label, o, sets)
            for d in sets:
                d.strike = None
        else:
            hook = self.optimizer.register_step_pre_hook if site == "optimizer" else self.optimizer.register_step_post_hook
            handle = hook(lambda *a: mishaps.strike(site))
            out = self.run_epoch(label, o, sets)
            handle.remove()
        if mishaps.hit:
            ctx.require(not out.ok and type(out.exc) is MISHAPS[o["exc"]], "swallowed", f"{label}: {o['exc']} at {site}, but it {out.describe()}")
            self.disturbed = True
            ctx.probe("interrupted@" + site)
        else:
            ctx.require(out.ok, "refused", f"{label} {out.describe()}")
        d = same_state(before, self.contents(sets))
        ctx.require(d is None, "datasets", f"{label} changed a dataset: {d}")

    def rejected(self, label, o):
        ctx = self.ctx
        sets = self.data(o)
        before = weights(self.model)
        how = o["how"]
        if how == "none-set":
            out = attempt(ctx, label, train_single_epoch, self.model, None, sets[1], o["batch"], self.optimizer, LOSSES[o["loss"]]())
        elif how == "loss":
            out = attempt(ctx, label, train_single_epoch, self.model, *sets, o["batch"], self.optimizer, lambda a, b: None)
        else:
            out = self.run_epoch(label, o, sets, batch={"zero": 0, "negative": -2, "fraction": 1.5}[how])
        ctx.require(not out.ok, "accepted", f"{label} ({how}) is accepted")
        after = weights(self.model)
        for k in before:
            if "running" in k or "tracked" in k and how == "loss":
                continue        # one forward pass has been made
            ctx.require(np.array_equal(before[k], after[k]), "changed", f"{label} ({how}) changed {k}")
        self.disturbed = True

    def predict(self, label, o):
        context = {"no_grad": torch.no_grad, "inference": torch.inference_mode}.get(o["grad"], torch.enable_grad)
        with context():
            out = attempt(self.ctx, label, self.model.calc_polarizabilities, displaced_batch(self.c, o["seed"], o["size"]))
        self.ctx.require(out.ok, "refused", f"{label} {out.describe()}")
        self.disturbed = True

    def gradients(self, label, o):
        """The application computed gradients of its own."""
        self.model.train(o["seed"] % 2 == 0)
        out = attempt(self.ctx, label, self.model.forward, *inputs(self.c, displaced_batch(self.c, o["seed"], 3)))
        self.ctx.require(out.ok, "refused", f"{label} {out.describe()}")
        out.value.sum().backward()
        self.disturbed = True

    def mode(self, label, o):
        self.model.train(o["seed"] % 2 == 0)

    def load(self, label, o):
        self.model.load_state_dict(make_gnn({**self.sc["gnn"], "seed": o["seed"]})[1].state_dict())

    def random(self, label, o):
        torch.manual_seed(o["seed"])
        torch.rand(int(o["seed"] % 100))


def run(ctx, sc):
    with dtype(sc["dtype"]):
        t = Training(ctx, sc)
        for k, o in enumerate(sc["ops"]):
            ctx.probe(o["do"])
            getattr(t, o["do"])(f"{k} {o['do']}", o)
