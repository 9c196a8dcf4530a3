"""C09: damaged files give well-formed data or a documented exception."""

import re

from .calcs import *  # noqa: F403
from .calcs import REAL_IO, STUB_IO

ID = "C09"
RUNS = {"quick": 8000, "thorough": 90000}
RULE = ("each evaluation damages one generated calculation file (flipped, lost, repeated, inserted, exchanged bytes, "
        "tokens, lines and blocks; holes; foreign formats; encodings; XML constructs) and reads it with seeded readers and "
        "deliveries; non-trivial: the bytes differ from the original; distinct: different event log")
REAL = REAL_IO + ["ramannoodle.dynamics", "ramannoodle.dataset.torch", "defusedxml", "spglib"]
STUBS = STUB_IO + ["the ab-initio code (a generator that prints files in its format from a known crystal)"]
ASSUMPTIONS = ["MemoryError is accepted for files that announce more atoms than memory can hold"]

JUNK = ["nan", "inf", "-inf", "NaN", "****", "**********", "1e400", "-", "--1", "1.0.0", "1d-3", "0x10", "1_0", "",
        "\0", "\0" * 64, "\ufeff", "\x0b", "\x1c", "\u2028", "\u0660\u0661", "É", "Ti", "Xx", "H_pv", "_", "0", "-1",
        "999999", "99999999999999999999", "1e5", "T T F", "Direct", "Cartesian", "Selective", "s", "c", " ", "\t", "\r",
        "\r\n", "\n", "\n\n\n", "<", ">", "&", "<v>", "</v>", "<varray>", "</varray>", "<!-- -->", "<v/>", "]]>",
        "&amp;", "&x;", "cm-1", "f/i", "X", "POTCAR:    ", "POTCAR:    PAW_PBE Ti_pv 07Sep2000\n", "ions per type", "Write flags",
        "POSITION                                       TOTAL-FORCE ", "(ML)", "<rc><c>Ti</c></rc>", "<rc></rc>", "<rc/>",
        "<!DOCTYPE a [<!ENTITY x \"y\">]>", "<?xml version='1.0' encoding='utf-16'?>", "direct lattice vectors      "]
BYTES = [b"\xff", b"\xfe\xff", b"\x80", b"\xc3", b"\xed\xa0\x80", b"\0", b"\x1a", b"\x7f", b" ", b"\n", b"9", b"-", b"."]
KINDS = ["flip", "set", "delete", "repeat", "insert", "token", "token", "token", "number", "number", "line-delete", "line-delete",
         "line-repeat", "line-swap", "line-cut", "line-junk", "hole", "splice", "crlf", "bom", "replace-word",
         "drop-word", "count", "cut", "cut", "every", "blank", "end", "element", "element", "element", "word", "word"]
COUNTS = ["99999999999999999999", "0", "-1", "999999", "2.0", "1e3", "", "00003", "+2", "nan"]


def gen(rng, tier):
    f = gen_file(rng, big=rng.random() < 0.01)
    f["style"].pop("repeat", None)         # what is lost from the first copy could be read from the second
    if "md" in f:
        f["md"] = min(f["md"], 6)
    ops = []
    for _ in range(rng.randint(1, 6)):
        d = []
        for _ in range(rng.choice([1, 1, 1, 1, 2, 3, 6])):
            d.append({"kind": "element" if f["fmt"] == "vasprun.xml" and rng.random() < 0.4 else rng.choice(KINDS), "at": round(rng.random(), 6), "near": rng.random() < 0.6,
                      "n": rng.choice([1, 1, 2, 3, 10, 60, 500]), "x": rng.randrange(1 << 20)})
        ops.append({"damage": d, "readers": [rng.random() for _ in range(rng.choice([1, 2, 4]))],
                    "foreign": rng.choice([None] * 19 + ["wrong-format", "binary", "empty", "huge-line", "utf16"]),
                    "delivery": delivery(rng, 0.3)})
    return {"file": f, "ops": ops, "pathkind": rng.choice(SPELL)}


def shrink(sc):
    for g in shrink_file(sc["file"]):
        yield {**sc, "file": g}
    for i, op in enumerate(sc["ops"]):
        for j in range(len(op["readers"]) if len(op["readers"]) > 1 else 0):
            yield {**sc, "ops": sc["ops"][:i] + [{**op, "readers": op["readers"][:j] + op["readers"][j + 1:]}]
                   + sc["ops"][i + 1:]}


KEY = [b"POTCAR:", b"ions per type", b"Write flags", b"direct lattice", b"position of ions", b"POSITION  ", b"DIELECTRIC",
       b"Eigenvectors", b"cm-1", b"X         Y", b"time-step", b"Direct config", b"Direct", b"<rc>", b"<set>", b"initialpos",
       b"positions", b"basis", b"dielectric_dft", b"eigenv", b"<v", b"POTIM", b"<structure", b"dynmat"]


def hurt_element(data, d):
    tags = list(re.finditer(rb"<(/?)([A-Za-z_]\w*)([^<>]*?)(/?)>", data))
    opens = [i for i, t in enumerate(tags) if not t.group(1) and not t.group(4)]
    if not opens:
        return data
    x = d["x"]
    if d["near"]:                       # every sort of element equally often
        chain, sort_of = [], {}
        for i, t in enumerate(tags):
            if t.group(1):
                del chain[-1:]
            else:
                sort_of[i] = chain[-1:] + [t.group(2, 3)]
                if not t.group(4):
                    chain.append(t.group(2, 3))
        sorts = sorted({tuple(sort_of[i]) for i in opens})
        sort = sorts[x % len(sorts)]
        opens = [i for i in opens if tuple(sort_of[i]) == sort]
    i = opens[int(d["at"] * len(opens))]
    depth, j = 1, i + 1
    while j < len(tags):
        t = tags[j]
        if t.group(2) == tags[i].group(2) and not t.group(4):
            depth += -1 if t.group(1) else 1
            if not depth:
                break
        j += 1
    if j == len(tags):
        return data
    a, b, e, f = tags[i].start(), tags[i].end(), tags[j].start(), tags[j].end()
    inner, how, name = data[b:e], x // 1009 % 9, tags[i].group(2)
    if how == 0:
        return data[:b] + data[e:]
    if how == 1:
        return data[:a] + data[f:]
    if how == 2:
        return data[:f] + data[a:f] + data[f:]
    if how == 3:
        return data[:a] + b"<" + name + tags[i].group(3) + b"/>" + data[f:]
    if how == 4:                        # without its attributes
        return data[:a] + b"<" + name + b">" + data[b:]
    if how == 5:
        return data[:b] + b"\n  " + data[e:]
    if how == 6:                        # another sort of element
        return data[:a] + b"<q>" + inner + b"</q>" + data[f:]
    if how == 7:                        # a comment or an element before the content
        return data[:b] + [b"<!-- -->", b"<i/>", b"<v>1 2 3</v>", b"<rc><c>Ti</c></rc>"][x // 7 % 4] + data[b:]
    return data[:b] + JUNK[x // 7 % len(JUNK)].encode().replace(b"<", b"").replace(b">", b"") + data[e:]


def hurt(data, d):
    x, n = d["x"], d["n"]
    if not data:
        return data
    p = int(d["at"] * len(data))
    if d["near"]:                       # close to something a reader looks for
        hits = [i for k in KEY for i in range(0, 1) if k in data] and [k for k in KEY if k in data]
        if hits:
            k = hits[x % len(hits)]
            spots = []
            i = data.find(k)
            while i >= 0 and len(spots) < 400:
                spots.append(i)
                i = data.find(k, i + 1)
            p = min(len(data) - 1, spots[(x // 31) % len(spots)] + int(d["at"] * 400) - 40)
            p = max(0, p)
    kind = d["kind"]
    if kind == "flip":
        return data[:p] + bytes([data[p] ^ (1 << x % 8)]) + data[p + 1:]
    if kind == "set":
        return data[:p] + BYTES[x % len(BYTES)] + data[p + 1:]
    if kind == "delete":
        return data[:p] + data[p + n:]
    if kind == "repeat":
        return data[:p + n] + data[p:]
    if kind == "insert":
        return data[:p] + JUNK[x % len(JUNK)].encode() + data[p:]
    if kind == "hole":
        return data[:p] + b"\0" * min(n * 8, len(data) - p) + data[p + n * 8:]
    if kind == "splice":
        q = x % len(data)
        return data[:p] + data[q:q + n * 10] + data[p:]
    if kind == "cut":                   # the end is lost, or has become blank
        return data[:p] + [b"", b"", b"\n", b" " * 40, b"\n" * 40, b"\0" * 4096][x % 6]
    if kind == "every":                 # all copies of one character
        c = data[p:p + 1]
        return data.replace(c, BYTES[x % len(BYTES)]) if c.strip() else data
    if kind == "end":                   # a keyword is the last thing there is
        return data + JUNK[x % len(JUNK)].encode() + [b"", b"\n"][x // 97 % 2]
    if kind == "crlf":
        return data.replace(b"\n", b"\r\n" if x % 2 else b"\r")
    if kind == "bom":
        return b"\xef\xbb\xbf" + data
    if kind == "count":                 # the number of atoms
        m = re.search(rb"(?m)^[ ]+(\d+)(?:[ ]+\d+)*[ ]*$|ions per type =[ ]*(\d+)", data)
        if m is None:
            return data
        a, b = m.span(1 if m.group(1) else 2)
        return data[:a] + COUNTS[x % len(COUNTS)].encode() + data[b:]
    if kind in ("replace-word", "drop-word"):
        k = KEY[x % len(KEY)]
        return data.replace(k, b"" if kind == "drop-word" else KEY[(x // 37) % len(KEY)], 1 + x // 7 % 2)
    if kind == "element":               # one element of an XML file, well-formed as before
        return hurt_element(data, d)
    if kind == "word":                  # one word less or more in a line
        a = data.rfind(b"\n", 0, p) + 1
        b = data.find(b"\n", a)
        b = len(data) if b < 0 else b
        words = list(re.finditer(rb"\S+", data[a:b]))
        if not words:
            return data
        w = words[x % len(words)]
        return (data[:a + w.start()] + data[a + w.end():] if x // 97 % 2 else
                data[:a + w.end()] + b" " + w.group() + data[a + w.end():])
    if kind in ("token", "number"):
        a = p
        while a < len(data) and not data[a:a + 1].strip():
            a += 1
        if kind == "number":
            while a < len(data) and data[a] not in b"0123456789":
                a += 1
        b = a
        while b < len(data) and data[b:b + 1].strip() and data[b] not in b"<>":
            b += 1
        while a > 0 and data[a - 1:a].strip() and data[a - 1] not in b"<>":
            a -= 1
        return data[:a] + JUNK[x % len(JUNK)].encode() + data[b:]
    lines = data.splitlines(keepends=True)
    i = data[:p].count(b"\n")
    i = min(i, len(lines) - 1)
    if kind == "line-delete":
        del lines[i:i + n]
    elif kind == "line-repeat":
        lines[i:i] = lines[i:i + n]
    elif kind == "blank":
        lines[i:i + n] = [b"\n"] * len(lines[i:i + n])
    elif kind == "line-swap":
        j = x % len(lines)
        lines[i], lines[j] = lines[j], lines[i]
    elif kind == "line-cut":
        lines[i] = lines[i][:x % max(1, len(lines[i]))] + b"\n"
    elif kind == "line-junk":
        lines[i] = JUNK[x % len(JUNK)].encode() + b"\n"
    return b"".join(lines)


def foreign(kind, data, f):
    if kind == "empty":
        return b""
    if kind == "binary":
        return rng_of("binary", f["seed"]).bytes(3000)
    if kind == "utf16":
        return data.decode().encode("utf-16")
    if kind == "huge-line":
        return data.replace(b"\n", b" ")
    other = dict(f)
    other["fmt"] = {"poscar": "xdatcar", "xdatcar": "poscar", "outcar": "vasprun.xml",
                    "vasprun.xml": "outcar"}[f["fmt"]]
    if other["fmt"] == "poscar":
        other["style"] = {}
    elif other["fmt"] == "xdatcar":
        other.update(md=2, style={"label": "x"})
    return build(other)[0]


def numeric(name, a, shape):
    """A float array of the given shape (None: any length)?"""
    if not isinstance(a, np.ndarray):
        return f"{name} is a {type(a).__name__}"
    if a.dtype.kind != "f":
        return f"{name} has type {a.dtype}"
    if a.ndim != len(shape) or any(s is not None and s != k for s, k in zip(shape, a.shape)):
        return f"{name} has shape {a.shape} instead of {shape}"
    return None


def numbers(name, zs):
    if not isinstance(zs, list) or not zs or not all(isinstance(z, (int, np.integer)) and 1 <= z <= 118 for z in zs):
        return f"{name} is {str(zs)[:60]}"
    return None


def well_formed(label, v):
    if "dataset" in label:
        n = v.num_samples
        if n < 1 or len(v) != n:
            return f"{n} samples"
        m = v.num_atoms
        return (numbers("atomic_numbers", list(v.atomic_numbers))
                or numeric("positions", v.positions, (n, len(list(v.atomic_numbers)), 3))
                or (None if m == v.positions.shape[1] else f"{m} atoms")
                or numeric("polarizabilities", v.polarizabilities, (n, 3, 3)))
    if "ref_structure" in label:
        n = len(v.atomic_numbers)
        return (numeric("lattice", v.lattice, (3, 3)) or numbers("atomic_numbers", list(v.atomic_numbers))
                or numeric("positions", v.positions, (n, 3)))
    if "structure" in label:
        return (numeric("lattice", v[0], (3, 3)) or numbers("atomic_numbers", v[1])
                or numeric("positions", v[2], (len(v[1]), 3))
                or (numeric("polarizability", v[3], (3, 3)) if len(v) == 4 else None))
    if "positions_and_pol" in label:
        return numeric("positions", v[0], (None, 3)) or numeric("polarizability", v[1], (3, 3))
    if "phonons" in label:
        n = v.ref_positions.shape[0] if isinstance(v.ref_positions, np.ndarray) else -1
        m = v.wavenumbers.shape[0] if isinstance(v.wavenumbers, np.ndarray) else -1
        return (numeric("ref_positions", v.ref_positions, (None, 3)) or numeric("wavenumbers", v.wavenumbers, (None,))
                or numeric("displacements", v.displacements, (m, n, 3)))
    if "trajectory" in label:
        if not isinstance(v.timestep, float):
            return f"timestep is {v.timestep!r}"
        return numeric("positions_ts", v.positions_ts, (None, None, 3))
    if "positions_ts" in label:
        return numeric("positions_ts", v, (None, None, 3))
    return numeric("positions", v, (None, 3))


def run(ctx, sc):
    f = sc["file"]
    data, facts = build(f)
    name = f"calc/{f['fmt'].upper()}"
    path = spell(ctx, name, sc["pathkind"])
    every = readers(f["fmt"], facts)
    for k, op in enumerate(sc["ops"]):
        bad = foreign(op["foreign"], data, f) if op["foreign"] else data
        for d in op["damage"]:
            bad = hurt(bad, d)
        if bad != data:
            ctx.nontrivial = True
        ctx.put(name, bad)
        for which in op["readers"]:
            label, fn, cmp, possible = every[int(which * len(every))]
            what = f"op {k}: {f['fmt']} {label}"
            ctx.arm([], capped(op["delivery"], len(bad)))
            out = ctx.call(what, fn, path)
            ctx.disarm()
            clean(ctx, what)
            if out.ok:
                problem = well_formed(label, out.value)
                ctx.require(problem is None, "malformed", f"{what} of a damaged file returned: {problem}")
                ctx.probe("returned")
            else:
                allowed = [InvalidFileException, MemoryError]
                if "ref_structure" in label:
                    allowed.append(SymmetryException)
                if "dataset" in label:
                    allowed.append(IncompatibleStructureException)
                ctx.require(isinstance(out.exc, tuple(allowed)), "wrong-error", f"{what} of a damaged file {out.describe()}")
                ctx.probe(type(out.exc).__name__)
            ctx.require(not ctx.mutations and ctx.get(name) == bad, "modified", f"{what} changed the file")
