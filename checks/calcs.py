"""Files of simulated calculations and every way the library can read them."""

from __future__ import annotations

from .common import *  # noqa: F403

WORDS = {"direct": ["Direct", "direct", "D", "direct configuration=     1"],
         "cart": ["Cartesian", "cartesian", "C", "cart"]}


def gen_crystal(rng, big=False, repeated=True):
    if rng.random() < 0.35:
        return {"proto": rng.choice(sorted(vasp.PROTOS))}
    n = rng.randint(1, 14)
    if big:
        n = rng.choice([40, 255, 256, 257, 260, 300, 420])
    return {"n": n, "kinds": rng.randint(1, 4), "mixed": repeated and rng.random() < 0.25,
            "lattice": rng.choice([x for x in LATTICES if x not in ("large", "small")]),
            "seed": rng.randrange(1 << 30)}


def gen_file(rng, fmt=None, big=False, crystal=None):
    """One output or input file of a calculation, as data."""
    fmt = fmt or rng.choice(["poscar", "xdatcar", "outcar", "outcar", "outcar", "vasprun.xml",
                             "vasprun.xml", "vasprun.xml"])
    c = crystal or gen_crystal(rng, big)
    f = {"fmt": fmt, "crystal": c, "seed": rng.randrange(1 << 30), "style": {}}
    n = c.get("n", 8)
    if fmt == "poscar":
        mode = rng.choice(["direct", "direct", "cart"])
        f["style"] = {"mode": mode, "word": rng.choice(WORDS[mode]),
                      "scale": rng.choice([1.0, 1.0, 2.5, 0.5291772, -120.0]),
                      "selective": rng.random() < 0.3,
                      "selword": rng.choice(["Selective dynamics", "Selective dynamics", "selective", "S", "s", "SEL",
                                             "sdyn"]),
                      "velocities": rng.random() < 0.2,
                      "trailing": rng.random() < 0.2,
                      "label": rng.choice(["generated", "", "Ti O", "Direct", "1.0", "α ✓"])}
    elif fmt == "xdatcar":
        f["md"] = rng.choice([1, 2, rng.randint(1, 8), rng.randint(1, max(2, 600 // n))])
        f["style"] = {"label": rng.choice(["generated", "", "unknown system"])}
    else:
        kind = rng.choice(["eps", "eps", "phonon", "md", "md", "all"])
        if n > 40 and kind in ("phonon", "all"):
            kind = "eps"
        f["pol"] = kind in ("eps", "all")
        f["phonons"] = kind in ("phonon", "all")
        f["md"] = rng.choice([1, 2, rng.randint(1, 10), rng.randint(1, max(2, 500 // n))]) if kind in ("md", "all") else 0
        f["ml"] = rng.random() < 0.5
        f["imaginary"] = rng.choice([0, 3, 3, 100])
        f["timestep"] = rng.choice([0.5, 1.0, 2.0, 1.25, 0.0833])
        f["style"] = {k: True for k in ("warning", "symmetry", "earlypos", "excluding", "primitive", "rpa",
                                        "evenlead", "blank", "repeat") if rng.random() < 0.4}
    return f


def shrink_file(f):
    c = f["crystal"]
    if "n" in c:
        for m in (1, 2, c["n"] // 2, c["n"] - 1):
            if 0 < m < c["n"]:
                yield {**f, "crystal": {**c, "n": m}}
        if c.get("mixed"):
            yield {**f, "crystal": {**c, "mixed": False}}
    md = f.get("md", 0)
    for m in (1, 2, md // 2, md - 1):
        if 0 < m < md:
            yield {**f, "md": m}
    if f["fmt"] in ("outcar", "vasprun.xml") and f["style"]:
        yield {**f, "style": {}}


def build(f):
    """bytes and facts of a file."""
    c = vasp.crystal(f["crystal"])
    r = rng_of("file", f["seed"])
    style = f["style"]
    if f["fmt"] == "poscar":
        text, facts = vasp.poscar(c, style=style, seed=f["seed"])
    elif f["fmt"] == "xdatcar":
        md = [x for x, _ in vasp.trajectory(c, f["md"], f["seed"])]
        text, facts = vasp.xdatcar(c, md, label=style["label"])
    else:
        X = (c.X + r.normal(size=c.X.shape) * 0.01) % 1.0
        pol = None
        if f["pol"]:
            pol = r.normal(size=(3, 3)) + np.eye(3) * r.uniform(1, 9)
        phonons = vasp.modes(c, f["seed"], f["imaginary"]) if f["phonons"] else None
        md = vasp.trajectory(c, f["md"], f["seed"], ml=f["ml"]) if f["md"] else None
        fn = vasp.outcar if f["fmt"] == "outcar" else vasp.vasprun
        text, facts = fn(c, X=X, pol=pol, phonons=phonons, md=md, style=style, seed=f["seed"],
                         timestep=f["timestep"])
    facts["fmt"] = f["fmt"]
    return text.encode(), facts


def bad_array(name, got, want, atol=1e-12, rtol=1e-12):
    return None if same(got, want, atol, rtol) else f"{name}: {diff(got, want)}"


def cmp_positions(facts):
    def go(v):
        want = facts["positions"]
        return None if same(v, want, atol=1e-12, rtol=1e-14) else f"positions: {diff(v, want)}"
    return go


def cmp_structure(facts):
    def go(v):
        if len(v) != 3:
            return "wrong number of results"
        if list(v[1]) != facts["numbers"]:
            return f"atomic numbers {list(v[1])[:12]} instead of {facts['numbers'][:12]}"
        return bad_array("lattice", v[0], facts["lattice"]) or cmp_positions(facts)(v[2])
    return go


def cmp_ref(facts):
    return lambda v: cmp_structure(facts)((v.lattice, v.atomic_numbers, v.positions))


def cmp_pos_pol(facts):
    return lambda v: cmp_positions(facts)(v[0]) or bad_array("polarizability", v[1], facts["pol"])


def cmp_structure_pol(facts):
    return lambda v: cmp_structure(facts)(v[:3]) or bad_array("polarizability", v[3], facts["pol"])


def cmp_phonons(facts):
    def go(v):
        return (cmp_positions(facts)(v.ref_positions)
                or bad_array("wavenumbers", v.wavenumbers, facts["wavenumbers"], 1e-9)
                or bad_array("displacements", v.displacements, facts["displacements"], 1e-11, 1e-9))
    return go


def cmp_trajectory(facts, timestep=None):
    def go(v):
        want = facts["positions_ts"]
        if abs(v.timestep - (facts.get("timestep") if timestep is None else timestep)) > 1e-12:
            return f"timestep {v.timestep}"
        if len(v) != len(want):
            return f"{len(v)} configurations instead of {len(want)}"
        return None if same_mod1(v.positions_ts, want, 1e-11) else f"configurations: {diff(v.positions_ts, want)}"
    return go


def cmp_ts(facts):
    def go(v):
        want = facts["positions_ts"]
        return None if same(v, want, atol=1e-12, rtol=1e-14) else f"configurations: {diff(v, want)}"
    return go


def cmp_dataset(facts, count=1):
    def go(v):
        if v.num_samples != count or len(v) != count:
            return f"{v.num_samples} samples instead of {count}"
        if list(v.atomic_numbers) != facts["numbers"]:
            return "atomic numbers differ"
        for k in range(count):
            if not same_mod1(v.positions[k], facts["positions"], 3e-7):
                return f"positions: {diff(v.positions[k], facts['positions'])}"
            if not same(v.polarizabilities[k], facts["pol"], 1e-12, 1e-12):
                return f"polarizability: {diff(v.polarizabilities[k], facts['pol'])}"
        return bad_array("lattice", v[0][0].numpy(), facts["lattice"], 1e-5, 1e-6)
    return go


MOD = {"poscar": vio.poscar, "xdatcar": vio.xdatcar, "outcar": vio.outcar, "vasprun.xml": vio.vasprun}


def readers(fmt, facts):
    """(label, call, compare, possible): every reader; `possible` is False where the file
    does not hold what the reader needs."""
    out = []

    def add(label, fn, cmp, possible=True):
        out.append((label, fn, cmp, possible))

    if fmt in ("poscar", "xdatcar"):
        P = vio.poscar
        add("poscar.read_positions", P.read_positions, cmp_positions(facts))
        add("poscar.read_structure", P.read_structure, cmp_structure(facts))
        add("poscar.read_ref_structure", P.read_ref_structure, cmp_ref(facts))
        add("generic.read_positions", lambda p: generic.read_positions(p, fmt), cmp_positions(facts))
        add("generic.read_ref_structure", lambda p: generic.read_ref_structure(p, fmt), cmp_ref(facts))
        if fmt == "xdatcar":
            add("xdatcar.read_positions_ts", vio.xdatcar.read_positions_ts, cmp_ts(facts))
            add("xdatcar.read_trajectory", lambda p: vio.xdatcar.read_trajectory(p, 0.75),
                cmp_trajectory(facts, 0.75))
        return out
    M = MOD[fmt]
    pol, pho, md = "pol" in facts, "wavenumbers" in facts, "positions_ts" in facts
    add("read_positions", M.read_positions, cmp_positions(facts))
    add("generic.read_positions", lambda p: generic.read_positions(p, fmt), cmp_positions(facts))
    add("read_ref_structure", M.read_ref_structure, cmp_ref(facts))
    add("generic.read_ref_structure", lambda p: generic.read_ref_structure(p, fmt), cmp_ref(facts))
    add("read_positions_and_polarizability", M.read_positions_and_polarizability, cmp_pos_pol(facts), pol)
    add("generic.read_positions_and_polarizability",
        lambda p: generic.read_positions_and_polarizability(p, fmt), cmp_pos_pol(facts), pol)
    add("read_structure_and_polarizability", M.read_structure_and_polarizability, cmp_structure_pol(facts), pol)
    add("generic.read_structure_and_polarizability",
        lambda p: generic.read_structure_and_polarizability(p, fmt), cmp_structure_pol(facts), pol)
    add("read_phonons", M.read_phonons, cmp_phonons(facts), pho)
    add("generic.read_phonons", lambda p: generic.read_phonons(p, fmt), cmp_phonons(facts), pho)
    if md or fmt == "vasprun.xml" or not pol:
        add("read_trajectory", M.read_trajectory, cmp_trajectory(facts), md)
        add("generic.read_trajectory", lambda p: generic.read_trajectory(p, fmt), cmp_trajectory(facts), md)
    add("read_polarizability_dataset", lambda p: M.read_polarizability_dataset([p, p]),
        cmp_dataset(facts, 2), pol)
    add("generic.read_polarizability_dataset", lambda p: generic.read_polarizability_dataset(p, fmt),
        cmp_dataset(facts, 1), pol)
    return out
