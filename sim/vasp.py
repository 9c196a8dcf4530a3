"""The simulated calculation: crystals, their true linear response, and the files a
calculation leaves behind.  Every writer returns the text and the numbers it printed."""

from __future__ import annotations

import numpy as np

from .elements import COMMON, NUMBER, SYMBOL, WEIGHTS
from .world import coordinates, lattice, rng_of, species

_A = 4.0
_H = np.array([[3, 0, 0], [-1.5, 3 * np.sqrt(3) / 2, 0], [0, 0, 5]])
PROTOS = {
    "cscl": (np.eye(3) * _A, [55, 17], [[0, 0, 0], [.5, .5, .5]]),
    "cscl-shifted": (np.eye(3) * _A, [55, 17], [[.1, .2, .3], [.6, .7, .8]]),
    "perovskite": (np.eye(3) * _A, [38, 22, 8, 8, 8],
                   [[0, 0, 0], [.5, .5, .5], [.5, .5, 0], [.5, 0, .5], [0, .5, .5]]),
    "nacl-prim": ([[0, _A, _A], [_A, 0, _A], [_A, _A, 0]], [11, 17], [[0, 0, 0], [.5, .5, .5]]),
    "wurtzite": (_H, [30, 30, 8, 8],
                 [[1/3, 2/3, 0], [2/3, 1/3, .5], [1/3, 2/3, .38], [2/3, 1/3, .88]]),
    "hex": (_H, [30], [[0, 0, 0]]),
    "fcc": ([[0, _A, _A], [_A, 0, _A], [_A, _A, 0]], [29], [[0, 0, 0]]),
    "bcc": ([[-_A, _A, _A], [_A, -_A, _A], [_A, _A, -_A]], [26], [[.2, .2, .2]]),
    "bct": ([[-2., 2., 3.], [2., -2., 3.], [2., 2., -3.]], [26], [[0, 0, 0]]),
    "hcp": (_H, [12, 12], [[1/3, 2/3, .25], [2/3, 1/3, .75]]),
    "diamond-prim": ([[0, _A, _A], [_A, 0, _A], [_A, _A, 0]], [6, 6], [[0, 0, 0], [.25, .25, .25]]),
    "rhombohedral": ([[3, 1, 1], [1, 3, 1], [1, 1, 3]], [51, 51], [[.23, .23, .23], [.77, .77, .77]]),
    "cm-prim": ([[2, 2.5, 0], [2, -2.5, 0], [1, 0, 6]], [8, 7], [[.1, .1, .3], [.5, .5, .2]]),
    "p2-supercell": ([[4, 0, 0], [0, 5, 0], [2, 0, 12]], [8] * 4 + [7] * 4,
                     [[.1, .2, .15], [.9, .2, .35], [.1, .2, .65], [.9, .2, .85],
                      [.4, .1, .1], [.6, .1, .4], [.4, .1, .6], [.6, .1, .9]]),
    "rutile": (np.diag([4.6, 4.6, 2.95]), [22, 22, 8, 8, 8, 8],
               [[0, 0, 0], [.5, .5, .5], [.3, .3, 0], [.7, .7, 0], [.2, .8, .5], [.8, .2, .5]]),
    "screw41": (np.diag([4., 4., 7.]), [8] * 4,
                [[.1, .22, 0], [.78, .1, .25], [.9, .78, .5], [.22, .9, .75]]),
    "p21": ([[4, 0, 0], [0, 5, 0], [1, 0, 6]], [8, 8], [[.1, .2, .3], [.9, .7, .7]]),
    "ortho4": (np.diag([4., 5., 6.]), [8] * 4,
               [[.1, .2, .3], [.6, .3, .2], [.9, .7, .7], [.4, .8, .8]]),
    "p-1": ([[4, 0, 0], [.5, 5, 0], [1, .7, 6]], [8, 8], [[.1, .2, .3], [.9, .8, .7]]),
    "p-1-shifted": ([[4, 0, 0], [.5, 5, 0], [1, .7, 6]], [8, 8], [[.25, .3, .3], [.05, .9, .7]]),
    "p1": ([[4, 0, 0], [.5, 5, 0], [1, .7, 6]], [8, 9], [[.1, .2, .3], [.4, .6, .1]]),
    "p2m": ([[4, 0, 0], [0, 5, 0], [1.3, 0, 6]], [8] * 4,
            [[.1, .2, .3], [.9, .2, .7], [.1, .8, .3], [.9, .8, .7]]),
    "zincblende": (np.eye(3) * _A, [30] * 4 + [16] * 4,
                   [[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0], [.25, .25, .25],
                    [.25, .75, .75], [.75, .25, .75], [.75, .75, .25]]),
    "zincblende-prim": ([[0, _A, _A], [_A, 0, _A], [_A, _A, 0]], [30, 16],
                        [[0, 0, 0], [.25, .25, .25]]),
    "p4mm": (np.diag([4., 4., 4.3]), [38, 22, 8, 8, 8],
             [[0, 0, 0], [.5, .5, .53], [.5, .5, .02], [.5, 0, .48], [0, .5, .48]]),
    "cm": ([[4, 0, 0], [0, 5, 0], [1, 0, 6]], [8, 8, 7, 7],
           [[.1, .2, .3], [.1, .8, .3], [.4, .1, .2], [.4, .9, .2]]),
    "p2": ([[4, 0, 0], [0, 5, 0], [1, 0, 6]], [8, 8, 7, 7],
           [[.1, .2, .3], [.9, .2, .7], [.4, .1, .2], [.6, .1, .8]]),
    "p222": (np.diag([4., 5., 6.]), [8] * 4,
             [[.1, .2, .3], [.9, .8, .3], [.1, .8, .7], [.9, .2, .7]]),
    "r3": ([[3, 1, 1], [1, 3, 1], [1, 1, 3]], [8, 8, 8, 5],
           [[.1, .2, .3], [.3, .1, .2], [.2, .3, .1], [0, 0, 0]]),
    "p3": (_H, [8, 8, 8, 5], [[.1, .3, 0], [.7, .8, 0], [.2, .9, 0], [0, 0, .1]]),
}


class Crystal:
    def __init__(self, L, Z, X, name=""):
        self.L = np.array(L, dtype=float)
        self.Z = [int(z) for z in Z]
        self.X = np.array(X, dtype=float) % 1.0
        self.name = name

    @property
    def n(self):
        return len(self.Z)

    @property
    def inv(self):
        return np.linalg.inv(self.L)

    def symbols(self):
        return [SYMBOL[z] for z in self.Z]

    def blocks(self):
        """(symbol, count) of consecutive equal atoms."""
        out = []
        for s in self.symbols():
            if out and out[-1][0] == s:
                out[-1][1] += 1
            else:
                out.append([s, 1])
        return out

    def mass(self):
        return np.array([WEIGHTS[s] for s in self.symbols()])

    def displaced(self, cart):
        """Fractional positions in [0, 1) after a Cartesian displacement."""
        return (self.X + np.asarray(cart) @ self.inv) % 1.0

    def cart_of(self, X):
        """Minimum-image Cartesian displacement of positions from the reference."""
        d = np.asarray(X) - self.X
        return (d - np.round(d)) @ self.L


def proto(name):
    L, Z, X = PROTOS[name]
    return Crystal(L, Z, X, name)


def random_crystal(spec):
    """spec: {"n","kinds","lattice","seed"}; atoms kept apart; grouped species unless
    "mixed" asks for repeated blocks."""
    r = rng_of("crystal", spec["seed"])
    L = lattice(spec["lattice"], r)
    pool = [NUMBER[s] for s in COMMON]
    Z = species(r, spec["n"], spec.get("kinds", 2), pool)
    if spec.get("mixed"):
        Z = [Z[i] for i in r.permutation(len(Z))]
    X = coordinates(r, (spec["n"], 3), 0.0)
    return Crystal(L, Z, X, "random")


def supercell(c, times):
    """The same crystal in a larger cell: pure translations become symmetry operations."""
    times = np.array(times)
    shifts = np.array(list(np.ndindex(*times)))
    X = ((c.X[:, None] + shifts[None]) / times).reshape(-1, 3)
    return Crystal(c.L * times[:, None], np.repeat(c.Z, len(shifts)), X, f"{c.name}{tuple(times.tolist())}")


def crystal(spec):
    c = proto(spec["proto"]) if "proto" in spec else random_crystal(spec)
    return supercell(c, spec["super"]) if "super" in spec else c


def truth(c, seed, scale=1.0):
    """Symmetry-adapted linear response T[a,i,j,k]: dalpha_jk = sum T[a,i,j,k] u_ai."""
    import spglib
    r = rng_of("truth", seed)
    d = spglib.get_symmetry((c.L, c.X, c.Z), symprec=1e-5)
    T = r.normal(size=(c.n, 3, 3, 3))
    T = (T + T.transpose(0, 1, 3, 2)) / 2
    out = np.zeros_like(T)
    for rot, trans in zip(d["rotations"], d["translations"]):
        C = c.L.T @ rot @ np.linalg.inv(c.L.T)
        Y = c.X @ rot.T + trans
        for a in range(c.n):
            delta = Y[a] - c.X
            delta -= np.round(delta)
            j = int(np.argmin((delta ** 2).sum(1)))
            out[j] += np.einsum("il,jm,kn,lmn->ijk", C, C, C, T[a])
    return scale * out / len(d["rotations"])


# --------------------------------------------------------------------------- printing
def num(v, width, dec):
    """Printed form; never prints a negative zero."""
    s = f"{v:{width}.{dec}f}"
    if float(s) == 0.0 and "-" in s:
        s = f"{0.0:{width}.{dec}f}"
    return s


def rows(values, width, dec, lead="", sep=""):
    """Text of a table and the numbers printed."""
    values = np.asarray(values, dtype=float)
    lines, back = [], []
    for row in values:
        cells = [num(v, width, dec) for v in row]
        lines.append(lead + sep.join(cells))
        back.append([float(x) for x in cells])
    return lines, np.array(back).reshape(values.shape)


def poscar(c, X=None, style=None, seed=0):
    """style: {"mode": direct|cart, "scale": float, "selective": bool, "velocities": bool,
    "word": first word, "trailing": bool, "label": str}"""
    style = style or {}
    r = rng_of("poscar", seed)
    X = c.X if X is None else np.asarray(X)
    scale = style.get("scale", 1.0)
    factor = scale
    if scale < 0:
        factor = (-scale / abs(np.linalg.det(c.L))) ** (1 / 3)
    out = [style.get("label", "generated"), f"   {scale!r}"]
    raw = c.L / factor if scale > 0 else c.L
    lines, Lp = rows(raw, 22, 16, " ")
    out += lines
    if scale < 0:
        factor = (-scale / abs(np.linalg.det(Lp))) ** (1 / 3)
    Lp = Lp * factor
    out.append("   " + "   ".join(s for s, _ in c.blocks()))
    out.append("   " + "   ".join(str(k) for _, k in c.blocks()))
    if style.get("selective"):
        out.append(style.get("selword", "Selective dynamics"))
    if style.get("mode") == "cart":
        out.append(style.get("word", "Cartesian"))
        lines, P = rows(X @ Lp / factor, 20, 16, " ")
        Xp = P @ np.linalg.inv(Lp / factor)
    else:
        out.append(style.get("word", "Direct"))
        lines, Xp = rows(X, 20, 16, " ")
    for i, line in enumerate(lines):
        if style.get("selective"):
            line += "   " + "  ".join("TF"[int(x)] for x in r.integers(0, 2, 3))
        if style.get("trailing"):
            line += "  " + c.symbols()[i]
        out.append(line)
    if style.get("velocities"):
        out.append("")
        lines, _ = rows(r.normal(size=(c.n, 3)) * 1e-3, 16, 8, "")
        out += lines
    return "\n".join(out) + "\n", {"lattice": Lp, "numbers": list(c.Z), "positions": Xp}


def xdatcar(c, traj, label="generated", pad=5):
    out = [label, "           1"]
    lines, Lp = rows(c.L, 13, 8, "")
    out += lines
    out.append("   " + "   ".join(s for s, _ in c.blocks()))
    out.append("   " + "   ".join(str(k) for _, k in c.blocks()))
    P = []
    ends = []
    for k, X in enumerate(traj):
        out.append(f"Direct configuration={k + 1:>{pad + 1}d}")
        lines, Xp = rows(X, 12, 8, "")
        out += lines
        P.append(Xp)
        ends.append(len(out))
    return "\n".join(out) + "\n", {"lattice": Lp, "numbers": list(c.Z),
                                   "positions_ts": np.array(P), "positions": P[0],
                                   "line_ends": ends}


def modes(c, seed, imaginary=3):
    """Random orthonormal mass-weighted eigenvectors and wavenumbers (cm-1)."""
    r = rng_of("modes", seed)
    q, _ = np.linalg.qr(r.normal(size=(3 * c.n, 3 * c.n)))
    w = np.sort(r.uniform(20, 900, size=3 * c.n))[::-1]
    k = min(imaginary, 3 * c.n)
    if k:
        w[-k:] = -np.sort(r.uniform(0.05, 60, size=k))
    return w, q.reshape(3 * c.n, c.n, 3)


THZ_CM1 = 33.35640951981521          # 1 THz in cm-1


def _header(c, seed, style):
    out = [" vasp.5.4.4.18Apr17-6-g9f103f2a35 (build Mar 12 2019 09:27:11) complex", " ",
           " executed on             LinuxIFC date 2023.05.03  01:34:12", " ", ""]
    suffix = {"Ti": "_pv", "Sr": "_sv", "Li": "_sv", "Ni": "_pv", "Zr": "_sv"}
    names = [s + suffix.get(s, "") for s, _ in c.blocks()]
    lead = [" POTCAR:    PAW_PBE "] + [" POTCAR:     PAW_PBE "] * (len(names) - 1)
    if style.get("evenlead"):
        lead = [" POTCAR:    PAW_PBE "] * len(names)
    for n, l in zip(names, lead):
        out.append(f"{l}{n} 07Sep2000")
    if style.get("warning"):
        out += [" " + "-" * 77, "|" + " " * 77 + "|",
                "|           W    W    AA    RRRRR   N    N  II  N    N   GGGG   !!!           |",
                "|" + " " * 77 + "|", " " + "-" * 77, ""]
    for n, l in zip(names, lead):
        out += [f"{l}{n} 07Sep2000", f"   VRHFIN ={n.split('_')[0]}: s1d1", "   LEXCH  = PE",
                "   EATOM  =   432.3788 eV,   31.7789 Ry", "",
                "   TITEL  = PAW_PBE " + n + " 07Sep2000", "   LULTRA =        F    use ultrasoft PP ?",
                " ", "   number of l-projection  operators is LMAX  =           4", ""]
    return out


def outcar(c, X=None, pol=None, phonons=None, md=None, style=None, seed=0, timestep=None):
    """md: list of (fractional positions, tag) with tag "", "ML" or "skip" (the ab-initio
    evaluation VASP writes right after a machine-learned step of the same configuration)."""
    style = style or {}
    X = c.X if X is None else np.asarray(X)
    facts = {"numbers": list(c.Z)}
    out = _header(c, seed, style)
    Llines, Lp = rows(c.L, 13, 9, " ")
    _, R = rows(np.linalg.inv(c.L).T, 13, 9, " ")
    Rlines, _ = rows(R, 13, 9, "  ")
    both = [a + b for a, b in zip(Llines, Rlines)]
    Xlines, Xp = rows(X, 13, 8, " ")
    if style.get("symmetry"):
        out += ["", "Analysis of symmetry for initial positions (statically):",
                "=" * 69, " Subroutine PRICEL returns:", " Original cell was already a primitive cell.",
                "", "  direct lattice vectors                 reciprocal lattice vectors"]
        out += [" " + line for line in both]
        out += ["", "  position of ions in fractional coordinates (direct lattice) "
                if style.get("earlypos") else "  ions of the cell"]
        out += [" " + line for line in Xlines] + [""]
    out += ["", " Dimension of arrays:",
            "   k-points           NKPTS =      1   k-points in BZ     NKDIM =      1",
            f"   number of dos      NEDOS =    301   number of ions     NIONS = {c.n:6d}", "",
            "   ions per type =            " + "".join(f"{k:6d}" for _, k in c.blocks())]
    step = num(0.5 if timestep is None else timestep, 7, 4)
    facts["timestep"] = float(step)
    out += ["", " Ionic relaxation", "   EDIFFG = 0.1E-02   stopping-criterion for IOM",
            "   NSW    =      1    number of steps for IOM",
            f"   POTIM  ={step}    time-step for ionic-motion",
            "   TEIN   =    0.0    initial temperature",
            "  Mass of Ions in am",
            "   POMASS =" + "".join(f"{WEIGHTS.get(s, 1.0):7.2f}" for s, _ in c.blocks()), "",
            " Write flags", "   LWAVE        =      F    write WAVECAR", "",
            "-" * 104, "", "  energy-cutoff  :      500.00",
            f"  volume of cell :     {abs(np.linalg.det(c.L)):10.2f}",
            "      direct lattice vectors                 reciprocal lattice vectors"]
    out += ["   " + line for line in both]
    facts["lattice"] = Lp
    out += ["", "  length of vectors", "    11.376843422    11.376843422     9.604574574", "",
            " k-points in reciprocal lattice and weights: KPOINTS",
            "   0.00000000  0.00000000  0.00000000       1.000", " ",
            " position of ions in fractional coordinates (direct lattice) "]
    out += Xlines
    facts["positions"] = Xp
    out += ["", " position of ions in cartesian coordinates  (Angst):"]
    lines, Cp = rows(Xp @ Lp, 13, 8, " ")
    out += lines
    facts["cart_positions"] = Cp
    out += ["", "-" * 104, ""]
    r = rng_of("outcar", seed)

    def block(P, ml):
        tag = " POSITION                                       TOTAL-FORCE (eV/Angst)"
        out.append(tag + (" (ML)" if ml else ""))
        out.append(" " + "-" * 83)
        a, back = rows(P @ c.L, 13, 5, "")
        b, _ = rows(r.normal(size=(c.n, 3)) * 0.01, 14, 6, "")
        out.extend(x + "   " + y for x, y in zip(a, b))
        out.append(" " + "-" * 83)
        out.append("    total drift:                                0.000000      0.000000      0.000000")
        out.append("")
        return back

    facts["line_ends"] = []
    if md is not None:
        P = []
        for Xk, tag in md:
            out += ["", f"  FREE ENERGIE OF THE ION-ELECTRON SYSTEM (eV)", ""]
            back = block(Xk, tag == "ML")
            if tag != "skip":
                P.append(back @ np.linalg.inv(Lp))
                facts["line_ends"].append(len(out) - 3)
        facts["positions_ts"] = np.array(P).reshape(-1, c.n, 3)
    if pol is not None:
        if md is None and style.get("forces", True):
            block(X, False)
        for head in ([" MACROSCOPIC STATIC DIELECTRIC TENSOR (excluding local field effects)"]
                     if style.get("excluding") else []):
            lines, _ = rows(np.eye(3) * 9 + 0.1, 12, 6, "  ")
            out += [" HEAD OF MICROSCOPIC STATIC DIELECTRIC TENSOR (INDEPENDENT PARTICLE, excluding Hartree and local field effects)",
                    " " + "-" * 70] + lines + [" " + "-" * 70, ""]
        out += [" MACROSCOPIC STATIC DIELECTRIC TENSOR (including local field effects in DFT)",
                " " + "-" * 70]
        lines, Pp = rows(pol, 12, 6, "  ")
        out += lines
        facts["pol"] = Pp
        out += [" " + "-" * 70, ""]
        if style.get("repeat"):            # DFPT jobs: the tensor again, then the other responses
            out += ["", "-" * 104, "", " MACROSCOPIC STATIC DIELECTRIC TENSOR (including local field effects in DFT)",
                    " " + "-" * 54] + lines + [" " + "-" * 54, "",
                    " PIEZOELECTRIC TENSOR (including local field effects)  for field in x, y, z        (e  Angst)",
                    "          XX          YY          ZZ          XY          YZ          ZX",
                    "  x     0.01554    -0.01941    -0.04275     0.00531    -0.00045     0.00982", "",
                    " BORN EFFECTIVE CHARGES (including local field effects) (in |e|, cummulative output)"]
            for i in range(min(c.n, 5)):
                out += [f" ion {i + 1:4d}", "    1     2.55423     0.00012     0.00050",
                        "    2     0.00017     2.55453    -0.00000", "    3     0.00120    -0.00056     2.55301"]
            other, _ = rows(np.eye(3) * 31 - 0.5, 12, 6, "  ")
            out += ["", " MACROSCOPIC STATIC DIELECTRIC TENSOR IONIC CONTRIBUTION", " " + "-" * 54] + other + \
                [" " + "-" * 54, ""]
    if phonons is not None:
        w, e = phonons
        out += [" Eigenvectors and eigenvalues of the dynamical matrix",
                " " + "-" * 52, " ", ""]
        W, D = [], []
        for k in range(len(w)):
            thz = abs(w[k]) / THZ_CM1
            cm = num(abs(w[k]), 12, 6)
            kind = " f  =" if w[k] >= 0 else " f/i="
            out.append(f"{k + 1:4d}{kind}{thz:12.6f} THz {2 * np.pi * thz:12.6f} 2PiTHz{cm} cm-1 {thz * 4.13567:12.6f} meV")
            out.append("             X         Y         Z           dx          dy          dz")
            a, _ = rows(Xp @ Lp, 12, 6, "")
            b, back = rows(e[k], 12, 6, "")
            out += [x + "  " + y + "  " for x, y in zip(a, b)]
            out.append(" " if style.get("blank") else "")
            W.append(-float(cm) if w[k] < 0 else float(cm))
            D.append(back @ np.linalg.inv(Lp) / np.sqrt(c.mass())[:, None])
        facts["wavenumbers"] = np.array(W)
        facts["displacements"] = np.array(D)
        if style.get("repeat"):            # NWRITE = 3: the modes again, divided by the root of the mass
            out += ["", " Eigenvectors after division by SQRT(mass)", "",
                    " Eigenvectors and eigenvalues of the dynamical matrix", " " + "-" * 52, " ", ""]
            for k in range(len(w)):
                out.append(f"{k + 1:4d} f  ={1.0 + k:12.6f} THz {6.28 * (1 + k):12.6f} 2PiTHz{33.35641 * (1 + k):12.6f} "
                           f"cm-1 {4.13567 * (1 + k):12.6f} meV")
                out.append("             X         Y         Z           dx          dy          dz")
                a, _ = rows(Xp @ Lp, 12, 6, "")
                b, _ = rows(e[k] / np.sqrt(c.mass())[:, None], 12, 6, "")
                out += [x + "  " + y + "  " for x, y in zip(a, b)]
                out.append("")
    out += ["", " General timing and accounting informations for this job:", " " + "=" * 56, " ",
            "                  Total CPU time used (sec):     1000.000", " "]
    return "\n".join(out) + "\n", facts


def vasprun(c, X=None, pol=None, phonons=None, md=None, style=None, seed=0, timestep=None):
    style = style or {}
    X = c.X if X is None else np.asarray(X)
    facts = {"numbers": list(c.Z)}
    out = ['<?xml version="1.0" encoding="ISO-8859-1"?>', "<modeling>", " <generator>",
           '  <i name="program" type="string">vasp </i>',
           '  <i name="version" type="string">5.4.4.18Apr17-6-g9f103f2a35  </i>', " </generator>"]
    ts = f"{0.5 if timestep is None else timestep:16.8f}"
    facts["timestep"] = float(ts)
    out += [' <incar>', '  <i name="POTIM">      0.99000000</i>', " </incar>",
            " <primitive_cell>", '  <structure name="primitive_cell" >', "   <crystal>",
            '    <varray name="basis" >', "     <v>       1.00000000       0.00000000       0.00000000 </v>",
            "     <v>       0.00000000       1.00000000       0.00000000 </v>",
            "     <v>       0.00000000       0.00000000       1.00000000 </v>",
            "    </varray>", "   </crystal>", '   <varray name="positions" >',
            "    <v>       0.00000000       0.00000000       0.00000000 </v>", "   </varray>",
            "  </structure>", " </primitive_cell>"] if style.get("primitive") else [
            ' <incar>', '  <i name="POTIM">      0.99000000</i>', " </incar>"]
    out += [" <parameters>", '  <separator name="general" >',
            '   <i type="string" name="SYSTEM">unknown system</i>', "  </separator>",
            '  <separator name="ionic" >', '   <i type="int" name="NSW">     1</i>',
            f'   <i name="POTIM">{ts}</i>', "  </separator>", " </parameters>",
            " <atominfo>", f"  <atoms>{c.n:8d} </atoms>", f"  <types>{len(c.blocks()):8d} </types>",
            '  <array name="atoms" >', '   <dimension dim="1">ion</dimension>',
            '   <field type="string">element</field>', '   <field type="int">atomtype</field>', "   <set>"]
    for s, z in zip(c.symbols(), c.Z):
        out.append(f"    <rc><c>{s:<2s}</c><c>   1</c></rc>")
    out += ["   </set>", "  </array>", '  <array name="atomtypes" >',
            '   <dimension dim="1">type</dimension>', '   <field type="int">atomspertype</field>',
            '   <field type="string">element</field>', "   <set>"]
    for s, k in c.blocks():
        out.append(f"    <rc><c>{k:4d}</c><c>{s:<2s}</c><c>{WEIGHTS.get(s, 1.0):16.8f}</c></rc>")
    out += ["   </set>", "  </array>", " </atominfo>"]

    def struct(Xk, name, lead):
        lines, Lp = rows(c.L, 17, 8, "")
        body, Xp = rows(Xk, 17, 8, "")
        o = [f'{lead}<structure name="{name}" >' if name else f"{lead}<structure>",
             f"{lead} <crystal>", f'{lead}  <varray name="basis" >']
        o += [f"{lead}   <v>{line} </v>" for line in lines]
        o += [f"{lead}  </varray>", f'{lead}  <i name="volume">    100.00000000 </i>',
              f'{lead}  <varray name="rec_basis" >']
        o += [f"{lead}   <v>{line} </v>" for line in rows(np.linalg.inv(c.L).T, 17, 8, "")[0]]
        o += [f"{lead}  </varray>", f"{lead} </crystal>", f'{lead} <varray name="positions" >']
        o += [f"{lead}  <v>{line} </v>" for line in body]
        o += [f"{lead} </varray>", f"{lead}</structure>"]
        return o, Lp, Xp

    o, facts["lattice"], facts["positions"] = struct(X, "initialpos", " ")
    out += o
    facts["line_ends"] = []
    r = rng_of("vasprun", seed)
    last = X
    if md is not None:
        P = []
        for k, (Xk, tag) in enumerate(md):
            if tag == "skip":
                continue
            if style.get("calcs", True):
                out += [" <calculation>"]
                o, _, _ = struct(Xk, "", "  ")
                out += o + ['  <varray name="forces" >']
                out += [f"   <v>{line} </v>" for line in rows(r.normal(size=(c.n, 3)), 17, 8, "")[0]]
                out += ["  </varray>", " </calculation>"]
            o, _, Xp = struct(Xk, "", " ")
            out += o
            facts["line_ends"].append(len(out))
            P.append(Xp)
            last = Xk
        facts["positions_ts"] = np.array(P).reshape(-1, c.n, 3)
    if pol is not None or phonons is not None:
        out += [" <calculation>", "  <scstep>", '   <time name="dav">   10.00   10.00</time>', "  </scstep>"]
        o, _, _ = struct(X, "", "  ")
        out += o
        if pol is not None:
            lines, facts["pol"] = rows(pol, 17, 8, "")
            if style.get("rpa"):
                out += ['  <varray name="epsilon" >'] + [
                    f"   <v>{line} </v>" for line in rows(np.eye(3) * 7, 17, 8, "")[0]] + ["  </varray>"]
            out += ['  <varray name="dielectric_dft" >'] + [f"   <v>{line} </v>" for line in lines] + ["  </varray>"]
        if phonons is not None:
            w, e = phonons
            eig = -np.sign(w) * (np.asarray(w) / THZ_CM1) ** 2
            cells = [f"{x:17.8f}" for x in eig]
            back = np.array([float(x) for x in cells])
            facts["wavenumbers"] = -np.sign(back) * np.sqrt(np.abs(back)) / 0.0299792458
            out += ["  <dynmat>", '   <varray name="hessian" >']
            out += [f"    <v>{line} </v>" for line in rows(r.normal(size=(min(3, 3 * c.n), 3)), 17, 8, "")[0]]
            out += ["   </varray>", '   <v name="eigenvalues">' + "".join(cells) + " </v>",
                    '   <varray name="eigenvectors" >']
            flat, ev = rows(np.asarray(e).reshape(len(w), 3 * c.n), 17, 8, "")
            out += [f"    <v>{line} </v>" for line in flat] + ["   </varray>", "  </dynmat>"]
            facts["displacements"] = (ev.reshape(len(w), c.n, 3) @ np.linalg.inv(facts["lattice"])
                                      / np.sqrt(c.mass())[:, None])
        out += [" </calculation>"]
    o, _, _ = struct(last, "finalpos", " ")
    out += o + ["</modeling>"]
    return "\n".join(out) + "\n", facts


def trajectory(c, steps, seed, spread=0.02, ml=False):
    """Fractional configurations (optionally with machine-learning tags)."""
    r = rng_of("trajectory", seed)
    out = []
    for _ in range(steps):
        X = (c.X + r.normal(size=(c.n, 3)) * spread) % 1.0
        if ml:
            # an ab-initio block right after a machine-learned one repeats that configuration
            tag = "ML" if (out and out[-1][1] == "ML") or r.uniform() < 0.6 else ""
            out.append((X, tag))
            if tag == "ML" and r.uniform() < 0.4:
                out.append((X, "skip"))
        else:
            out.append((X, ""))
    return out
