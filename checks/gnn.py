"""Small graph neural networks, datasets and their independent truth."""

from __future__ import annotations

import torch

from .models import *  # noqa: F403

from ramannoodle.dataset.torch import PolarizabilityDataset
from ramannoodle.pmodel.torch import PotGNN, train_single_epoch  # noqa: F401

REAL_GNN = ["ramannoodle.pmodel.torch (PotGNN, BatchTriplets, train_single_epoch)", "ramannoodle.dataset.torch",
            "torch, torch_geometric, tqdm"]


def gen_gnn(rng):
    if rng.random() < 0.3:
        crystal = {"proto": rng.choice(["cscl", "hex", "p21", "p-1", "nacl-prim", "p1"])}
    else:
        crystal = {"n": rng.randint(2, 5), "kinds": rng.randint(1, 3), "mixed": rng.random() < 0.3,
                   "lattice": rng.choice(["cubic", "ortho", "hex", "mono", "tri", "fcc"]), "seed": rng.randrange(1 << 30)}
    if vasp.crystal(crystal).n < 2:
        crystal = {"proto": "cscl"}
    return {"crystal": crystal, "seed": rng.randrange(1 << 30), "node": rng.choice([2, 4]), "edge": rng.choice([3, 5]),
            "passes": rng.choice([1, 2]), "reach": round(rng.uniform(0.2, 1.0), 3)}


def distances(c):
    d = c.X[:, None] - c.X[None]
    d -= np.round(d)
    return np.sort(np.linalg.norm(d @ c.L, axis=-1)[np.triu_indices(c.n, 1)])


def make_gnn(spec):
    """A network with seeded weights and normalisation statistics."""
    c = vasp.crystal(spec["crystal"])
    d = distances(c)
    cutoff = float(d[0] + (d[-1] - d[0]) * spec["reach"]) + 0.3
    r = rng_of("gnn", spec["seed"])
    mean = r.normal(size=(3, 3))
    std = r.uniform(0.3, 2, size=(3, 3))
    torch.manual_seed(spec["seed"])
    model = PotGNN(ref(c), cutoff, spec["node"], spec["edge"], spec["passes"], 0.0, cutoff, (mean + mean.T) / 2,
                   (std + std.T) / 2)
    with torch.no_grad():
        for p in model.parameters():
            p.copy_(torch.randn_like(p) * 0.5)
        for m in model.modules():
            if isinstance(m, torch.nn.BatchNorm1d):
                m.running_mean.copy_(torch.randn_like(m.running_mean))
                m.running_var.copy_(torch.rand_like(m.running_var) + 0.5)
    return c, model


def displaced_batch(c, seed, count, size=0.1):
    r = rng_of("gnn-batch", seed)
    X = c.X + (r.uniform(-size, size, size=(count, c.n, 3)) @ c.inv)
    return X % 1.0


def weights(model):
    """All parameters and buffers."""
    return {k: v.detach().clone().numpy() for k, v in model.state_dict().items()}


MISHAPS = {"MemoryError": MemoryError, "RuntimeError": RuntimeError, "KeyboardInterrupt": KeyboardInterrupt, "OSError": OSError}


class Mishaps:
    """Fails the k-th computation of any layer while active (allocation failure, interruption)."""

    def __init__(self, ctx, at, exc):
        self.ctx, self.at, self.exc = ctx, at, exc
        self.seen, self.hit = 0, False

    def strike(self, site="layer"):
        self.seen += 1
        if self.at is not None and self.seen == self.at + 1:
            self.hit = True
            note_fault(self.ctx, self.exc, site)
            raise MISHAPS[self.exc]("injected")

    def __enter__(self):
        self.handle = torch.nn.modules.module.register_module_forward_pre_hook(lambda *a: self.strike())
        return self

    def __exit__(self, *args):
        self.handle.remove()


def note_fault(ctx, name, site):
    ctx.event("fault", name, site)
    ctx.probe(f"fault:{name}@{site}")
    ctx.fired.append(f"{name}@{site}")
    ctx.nontrivial = True


def attempt(ctx, label, fn, *args, **kw):
    """Like ctx.call, but interruptions are outcomes too."""
    try:
        return ctx.call(label, fn, *args, **kw)
    except KeyboardInterrupt as exc:
        ctx.event("result", label, "KeyboardInterrupt")
        return Outcome(exc=exc)


class dtype:
    """The default floating-point type of torch."""

    def __init__(self, name):
        self.name = name

    def __enter__(self):
        self.was = torch.get_default_dtype()
        torch.set_default_dtype(getattr(torch, self.name))

    def __exit__(self, *args):
        torch.set_default_dtype(self.was)


def to_tensors(v):
    """(..., 6) vectors xx, yy, zz, xy, xz, yz as symmetric matrices."""
    out = np.zeros(v.shape[:-1] + (3, 3))
    for k, (i, j) in enumerate([(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]):
        out[..., i, j] = out[..., j, i] = v[..., k]
    return out


def scaling(spec):
    """Mean and standard deviation given to make_gnn's network."""
    r = rng_of("gnn", spec["seed"])
    mean = r.normal(size=(3, 3))
    std = r.uniform(0.3, 2, size=(3, 3))
    return (mean + mean.T) / 2, (std + std.T) / 2


def inputs(c, X):
    """The arguments of the network's forward pass for positions (S, n, 3)."""
    t = torch.get_default_dtype()
    s = len(X)
    return (torch.tensor(c.L).type(t).expand(s, 3, 3), torch.tensor(np.array(c.Z), dtype=torch.int).expand(s, -1),
            torch.tensor(np.array(X)).type(t))
