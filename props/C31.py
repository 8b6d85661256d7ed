"""CIF reading: every labelled row becomes its distinct symmetry images, inside the cell, with its metadata."""
import warnings

from .common import *

OPS = {
    "P1": ["x, y, z"],
    "inversion": ["x, y, z", "-x, -y, -z"],
    "screw": ["x, y, z", "-x, y+1/2, -z", "x+1/2, y+1/2, z", "-x+1/2, y, -z"],
    "swap": ["x, y, z", "y, x, -z", "-x, -y, z", "-y, -x, -z"],
}
GRID = 64  # coordinates are multiples of 1/64 (exact in binary), plus a shift below the site tolerance
FIXED = (0.15625, 0.265625, 0.421875)
SHIFT = 3.0517578125e-05  # 2**-15, below the tolerance of 1e-4


def apply(op, x):
    v = {"x": x[0], "y": x[1], "z": x[2]}
    out = []
    for t in op.split(","):
        t = t.strip()
        sign, t = (-1, t[1:]) if t[0] == "-" else (1, t)
        out.append(sign * v[t[0]] + (0.5 if t.endswith("+1/2") else 0))
    return out


def off(a):
    """Distance of a from the nearest integer."""
    return smin(a - floor(a), floor(a) + 1 - a)


def same(a, b):
    return land(*[off(x - y) < 0.001 for x, y in zip(a, b)])


class Placeholders:
    """Number tokens in the CIF text that stand for symbolic values."""

    def __init__(self, ctx, mod):
        self.ctx = ctx
        self.table = {}
        if ctx.sym:
            from sx.core import SymNum
            from sx.load import _make_builtins  # noqa: F401

            class Key(SymNum):
                # dictionary keys: equal values must share a bucket
                def __hash__(self):
                    return 0

                def __eq__(self, o):
                    return SymNum.__eq__(self, o)

            self.Key = Key
            inner = mod.__builtins__["float"] if isinstance(mod.__builtins__, dict) else mod.__builtins__.float

            def to_float(x=0.0):
                if isinstance(x, str) and x.strip() in self.table:
                    return self.table[x.strip()]
                return inner(x)

            ctx.patch(mod, "float", to_float)

    def __call__(self, value):
        if not self.ctx.sym:
            return repr(float(value))
        tok = f"0.{4100037 + 1117 * len(self.table)}"
        from sx.core import is_sym

        v = value + 0.0
        self.table[tok] = self.Key(v.r(), False) if is_sym(v) else v
        return tok


class Loaded:
    """Stand-in for the structure built by the reader (symbolic mode)."""

    def __init__(self, lattice, species, coords, site_properties=None, **kw):
        self.lattice = lattice
        self.sites = list(zip(species, coords))
        self.site_properties = site_properties

    def get_sorted_structure(self, *a, **k):
        return self

    def __len__(self):
        return len(self.sites)


def pbc_find(coords, c, atol=1e-8, pbc=None):
    out = []
    for i, x in enumerate(coords):
        if bool(land(*[off(a - b) < atol for a, b in zip(x, c)])):
            out.append(i)
    return out


def text(ops, rows, type_symbol=True, loop="_symmetry_equiv_pos_as_xyz"):
    lines = ["data_x", "_cell_length_a 6.0", "_cell_length_b 7.0", "_cell_length_c 8.0"]
    lines += [f"_cell_angle_{n} 90" for n in ("alpha", "beta", "gamma")]
    lines += ["loop_", f" {loop}"] + [f" '{o}'" for o in ops]
    lines += ["loop_"] + ([" _atom_site_type_symbol"] if type_symbol else []) + [" _atom_site_label", " _atom_site_fract_x", " _atom_site_fract_y", " _atom_site_fract_z", " _atom_site_occupancy"]
    for sym, lab, x, occ in rows:
        lines.append(" ".join(([sym] if type_symbol else []) + [lab] + list(x) + [occ]))
    return "\n".join(lines) + "\n"


def read(ctx, src, **kw):
    """-> list of (composition, fractional position, label, sequence, local index)"""
    M = ctx.mod("kmcpy.io.cif")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kw.pop("file", False):
            d = ctx.tmp()
            with open(f"{d}/in.cif", "w") as f:
                f.write(src)
            s = M.load_labeled_structure_from_cif(f"{d}/in.cif", **kw)
        else:
            s = M.load_labeled_structure_from_string(src, **kw)
    p = s.site_properties
    if ctx.sym:
        sites = s.sites
    else:
        sites = [(x.species, [float(c) for c in x.frac_coords]) for x in s]
    return [(sp, list(c), lab, w, li) for (sp, c), lab, w, li in zip(sites, p["label"], p["wyckoff_sequence"], p["local_index"])]


def prepare(ctx):
    M = ctx.mod("kmcpy.io.cif")
    P = Placeholders(ctx, M)
    if ctx.sym:
        ctx.patch(M, "find_in_coord_list_pbc", pbc_find)
        ctx.patch(M, "in_coord_list_pbc", lambda *a, **k: len(pbc_find(*a, **k)) > 0)
        ctx.patch(M, "Structure", Loaded)
    return P


def coords(ctx, name, free):
    """A position: the free axes on the 1/64 grid within two cells, the others fixed."""
    return [ctx.int(f"{name}{k}", -GRID, 2 * GRID) / GRID if k in free else FIXED[k] for k in range(3)]


def verify(ctx, got, groups, ops):
    """groups: (label, position, composition as {symbol: occupancy})"""
    ctx.check("labels", {g[2] for g in got} == {g[0] for g in groups})
    ctx.check("local indices number all sites", sorted(g[4] for g in got) == list(range(len(got))))
    last = -1
    for lab, x, comp in groups:
        mine = [g for g in got if g[2] == lab]
        mine.sort(key=lambda g: g[3])
        ctx.check("sequence numbers count the images of a row", [g[3] for g in mine] == list(range(len(mine))))
        ctx.check("local indices follow the rows", [g[4] for g in mine] == list(range(last + 1, last + 1 + len(mine))))
        last += len(mine)
        im = [apply(o, x) for o in ops]
        n = 0
        for i, a in enumerate(im):
            n = n + ite(lor(False, *[same(a, b) for b in im[:i]]), 0, 1)
        ctx.check("as many sites as distinct images", n == len(mine))
        for a in im:
            ctx.check("every image is present", lor(False, *[same(a, g[1]) for g in mine]))
        for g in mine:
            ctx.check("every site is an image", lor(*[same(a, g[1]) for a in im]))
            ctx.check("inside the cell", land(*[land(c >= 0, c < 1) for c in g[1]]))
            have = {str(k): float(v) for k, v in dict(g[0]).items()}
            ctx.check("species and occupancy of the row", have.keys() == comp.keys() and all(abs(have[k] - comp[k]) < 1e-9 for k in comp))


@harness(
    "C31",
    configs=[{"sg": k, "free": f} for k, f in (("P1", (0, 1, 2)), ("inversion", (0, 1, 2)), ("screw", (0, 1)), ("swap", (0, 2)), ("screw", (2,)))],
    bounds="one row, positions on a 1/64 grid over three cells (all three or some coordinates free), one coordinate optionally off by less than the site tolerance, 4 sets of up to 4 symmetry operations, number "
    "with or without uncertainty bracket, species column present or not, from text or from a file",
)
def images(ctx, sg, free):
    P = prepare(ctx)
    x = coords(ctx, "x", free)
    if ctx.choice("shift", [0, 1]):
        x[min(free)] = x[min(free)] + SHIFT
    tok = [P(v) for v in x]
    if ctx.choice("unc", [False, True]):
        tok = [tok[0] + "(3)", tok[1] + "(12)", tok[2]]
    ts = ctx.choice("type", [True, False])
    occ = ctx.choice("occ", ["1", "0.5", "0.5(2)", "?"])
    got = read(ctx, text(OPS[sg], [("Na", "Na1", tok, occ)], type_symbol=ts), file=sg == "inversion")
    verify(ctx, got, [("Na1", x, {"Na": 1.0 if occ in ("1", "?") else 0.5})], OPS[sg])


@harness(
    "C31",
    configs=[{"sg": k, "free": f, "via": v} for k, f, v in (("P1", (1,), 0), ("inversion", (0,), 1), ("screw", (0,), 3), ("swap", (1,), 2))],
    thorough=[{"sg": k, "free": f, "via": v} for k, f, v in (("P1", (0, 1), 0), ("inversion", (0, 2), 1), ("screw", (0,), 1), ("screw", (2,), 2), ("swap", (0,), 2))],
    bounds="three rows, one coordinate free on a 1/64 grid (thorough two), the second optionally off by less than the site tolerance, the third possibly with zero occupancy; "
    "4 sets of up to 4 symmetry operations: rows that share a position, directly or through a symmetry operation, become one site carrying both",
)
def shared(ctx, sg, free, via):
    P = prepare(ctx)
    ops = OPS[sg]
    pos = [coords(ctx, n, free) for n in "xyz"]
    moved = apply(ops[via], FIXED)  # so that the second row can coincide with an image of the first
    pos[1] = [pos[1][k] if k in free else moved[k] for k in range(3)]
    occ3 = ctx.choice("occ3", ["1", "0.0", "0.25"])
    second = list(pos[1])
    if ctx.choice("shift", [False, True]):
        second[0] = second[0] + SHIFT
    rows = [
        ("Na", "Na1", [P(v) for v in pos[0]], "0.5"),
        ("Li", "Li1", [P(v) for v in second], "0.25"),
        ("O", "O1", [P(v) for v in pos[2]], occ3),
    ]
    meet = lambda a, b: bool(lor(*[same(apply(o, a), b) for o in ops]))
    groups = [["Na1", pos[0], {"Na": 0.5}]]
    for lab, x, comp in (("Li1", pos[1], {"Li": 0.25}), ("O1", pos[2], {"O": float(occ3)})):
        if not comp[lab[:-1]] > 0:
            continue
        for g in groups:
            if meet(x, g[1]):
                g[0] += lab
                g[2].update(comp)
                break
        else:
            groups.append([lab, x, comp])
    total = max(sum(g[2].values()) for g in groups)
    ctx.assume(total <= 1)
    verify(ctx, read(ctx, text(ops, rows)), groups, ops)
