"""Generators (hypothesis strategies) of group specs and representation expressions.  All cases are JSON."""
from hypothesis import strategies as st
from vlib import ref

# --- groups -----------------------------------------------------------------------------------
CONT = [["SO", 2], ["SO", 3], ["SO", 4], ["O", 1], ["O", 2], ["O", 3], ["O", 4], ["SO", 5], ["O", 5]]
NONCOMPACT = [["SO13p"], ["SO13"], ["O13"], ["Lorentz"], ["SO11p"], ["O11"], ["Sp", 1], ["Sp", 2], ["SL", 2], ["SL", 3],
              ["GL", 1], ["GL", 2], ["GL", 3], ["Scaling", 1], ["Scaling", 2], ["Scaling", 3], ["SL", 4], ["Sp", 3]]
FINITE = [["C", 1], ["C", 2], ["C", 3], ["C", 4], ["C", 5], ["C", 6], ["C", 8], ["D", 1], ["D", 2], ["D", 3], ["D", 4],
          ["D", 5], ["D", 6], ["D", 7]]
PERM = [["Z", 1], ["Z", 2], ["Z", 3], ["Z", 4], ["Z", 5], ["Z", 6], ["S", 2], ["S", 3], ["S", 4], ["S", 5], ["S", 6],
        ["Cube"], ["Z", 7], ["S", 7], ["ZksZnxZn", 2, 2], ["ZksZnxZn", 4, 2], ["ZksZnxZn", 2, 3]]
TRIV = [["Trivial", 1], ["Trivial", 2], ["Trivial", 3], ["Trivial", 4]]
EMBED = [["SO2eR3"], ["O2eR3"], ["DkeR3", 3], ["DkeR3", 4], ["DkeR3", 5], ["Embed", ["SO", 2], 4, 1, 3],
         ["Embed", ["S", 3], 4, 0, 3], ["Embed", ["O11"], 3, 1, 3], ["Embed", ["SL", 2], 3, 0, 2],
         ["Embed", ["Z", 3], 5, 2, 5], ["Embed", ["D", 3], 4, 2, 4]]
COMPLEX = [["U", 1], ["U", 2], ["U", 3], ["SU", 2], ["SU", 3]]
PRODS = [["prod", ["Z", 2], ["Z", 3]], ["prod", ["SO", 2], ["Z", 2]], ["prod", ["S", 2], ["S", 3]],
         ["prod", ["O", 2], ["S", 2]], ["prod", ["SO", 3], ["Z", 2]], ["prod", ["SL", 2], ["Z", 2]],
         ["prod", ["Z", 2], ["D", 3]], ["prod", ["SO", 2], ["SO", 2]], ["prod", ["O11"], ["S", 2]],
         ["prod", ["prod", ["Z", 2], ["Z", 2]], ["S", 2]], ["prod", ["Scaling", 2], ["SO", 2]]]
ALT = [["Alt", 3], ["Alt", 4], ["Alt", 5]]
BIG = [["RubiksCube"], ["ZksZnxZn", 4, 3], ["S", 9], ["Z", 11], ["SO", 7], ["SU", 4], ["GL", 4], ["Sp", 4]]

CUSTOM = [["custom", k, d, s, f] for k, d, s, f in [
    ("perm", 4, 1, "numpy"), ("perm2", 3, 2, "lazy"), ("sperm", 3, 3, "minimal"), ("sperm", 4, 4, "list"), ("orth", 3, 5, "numpy"),
    ("orth+", 3, 6, "jax"), ("conj", 3, 7, "minimal"), ("conj", 2, 8, "numpy"), ("conjperm", 3, 9, "list"), ("shear", 2, 10, "lazy"),
    ("form", 3, 11, "numpy"), ("cplx", 2, 12, "numpy"), ("cplxd", 2, 13, "lazy"), ("none", 2, 14, "numpy"), ("diag", 3, 15, "jax"),
    ("orth", 4, 16, "lazy"), ("cplx", 3, 17, "minimal"), ("cplxd", 3, 18, "jax"), ("form", 2, 19, "lazy"), ("shear", 3, 20, "minimal"),
    ("cunit", 2, 21, "numpy"), ("cunit", 3, 22, "lazy"), ("cconj", 3, 23, "numpy"), ("cconj", 2, 24, "jax")]]

REAL = CONT + NONCOMPACT + FINITE + PERM + TRIV + EMBED + PRODS
ALL = REAL + COMPLEX + ALT
WITHCUSTOM = ALL + CUSTOM
ALLBIG = ALL + BIG

_ref_cache = {}


def refg(spec):
    k = str(spec)
    if k not in _ref_cache:
        _ref_cache[k] = ref.ref_group(spec)
    return _ref_cache[k]


@st.composite
def custom(draw, dmax=4):
    return ["custom", draw(st.sampled_from(ref.CUSTOM_KINDS)), draw(st.integers(1, dmax)), draw(st.integers(0, 99)),
            draw(st.sampled_from(ref.CUSTOM_FORMS))]


def families(spec):
    for n, l in (("compact", CONT), ("noncompact", NONCOMPACT), ("finite", FINITE), ("perm", PERM), ("trivial", TRIV),
                 ("embed", EMBED), ("complex", COMPLEX), ("product", PRODS), ("custom", ALT + CUSTOM), ("big", BIG)):
        if spec in l:
            return n
    return "custom" if spec[0] == "custom" else "other"


def group(pool=None, maxd=None):
    """A group: pick the family first so that every family is equally likely."""
    fams = [CONT, NONCOMPACT, FINITE, PERM, TRIV, EMBED, COMPLEX, PRODS, ALT]
    if pool is not None:
        fams = [[g for g in f if g in pool] for f in fams + [CUSTOM, BIG]]
    if maxd is not None:
        fams = [[g for g in f if refg(g).d <= maxd] for f in fams]
    fams = [st.sampled_from(f) for f in fams if f]
    if pool is None:
        fams += [custom(min(4, maxd or 4)), st.sampled_from([g for g in CUSTOM if maxd is None or refg(g).d <= maxd])]
    return st.one_of(fams)


# --- representations ---------------------------------------------------------------------------
def fits(ast, ds, cap):
    try:
        return ref.size(ref.desugar(ast), ds) <= cap
    except Exception:
        return False


@st.composite
def rep(draw, ds, cap, depth=3, extra=(), rank=3, ints=True):
    """Representation expression over groups of dimensions ds, of size at most cap (cap >= max(ds))."""
    ng = len(ds)

    def leaf(c):
        cand = []
        for i in range(ng):
            if ds[i] <= c:
                cand += [["V", i] if ng > 1 else ["V"]] * 3
        cand += [["S"]]
        cand += [x for x in extra if fits(x, ds, c)]
        return draw(st.sampled_from(cand))

    def node(dep, c):
        if dep <= 0 or c < 2:
            return leaf(c)
        kind = draw(st.sampled_from(["leaf", "dual", "sum", "sum", "prod", "prod", "mul", "rmul", "pow", "T", ">>", "<<",
                                     "sum3", "prod3", "int"]))
        out = None
        if kind == "leaf":
            return leaf(c)
        if kind == "dual":
            out = ["dual", node(dep - 1, c)]
        elif kind in ("sum", "sum3"):
            a = node(dep - 1, max(1, c - 1))
            rest = c - ref.size(ref.desugar(a), ds)
            b = node(dep - 1, max(1, rest))
            out = ["sum", a, b]
            rest -= ref.size(ref.desugar(b), ds)
            if kind == "sum3" and rest > 0:
                out.append(node(dep - 1, rest))
        elif kind == "int" and ints:
            a = node(dep - 1, max(1, c - 1))
            k = draw(st.integers(0, 3))
            out = ["sum", a, ["int", k]] if draw(st.booleans()) else ["sum", ["int", k], a]
        elif kind in ("prod", "prod3"):
            a = node(dep - 1, max(1, c))
            rest = c // max(1, ref.size(ref.desugar(a), ds))
            b = node(dep - 1, max(1, rest))
            out = ["prod", a, b]
            rest //= max(1, ref.size(ref.desugar(b), ds))
            if kind == "prod3" and rest > 0:
                out.append(node(dep - 1, max(1, rest)))
        elif kind in ("mul", "rmul"):
            a = node(dep - 1, c)
            n = max(1, ref.size(ref.desugar(a), ds))
            k = draw(st.integers(1, max(1, min(4, c // n))))
            out = ["mul", k, a] if kind == "mul" else ["rmul", a, k]
        elif kind == "pow":
            a = node(dep - 1, c)
            n = ref.size(ref.desugar(a), ds)
            k = draw(st.integers(0, 3))
            while k > 1 and n ** k > c:
                k -= 1
            out = ["pow", a, k]
        elif kind == "T":
            i = draw(st.integers(0, ng - 1))
            p, q = draw(st.integers(0, rank)), draw(st.integers(0, rank))
            while p + q > rank or ds[i] ** (p + q) > c:
                p, q = (p - 1, q) if p >= q else (p, q - 1)
                if p + q <= 0:
                    p, q = 0, 0
                    break
            out = ["T", p, q] + ([i] if ng > 1 else [])
        elif kind in (">>", "<<"):
            a = node(dep - 1, max(1, c))
            rest = c // max(1, ref.size(ref.desugar(a), ds))
            b = node(dep - 1, max(1, rest))
            out = [kind, a, b]
        if out is None or not fits(out, ds, c) or ref.size(ref.desugar(out), ds) < 1:
            return leaf(c)
        return out

    return node(depth, cap)


def depth_of(ast):
    return 1 + max([depth_of(a) for a in ast[1:] if isinstance(a, list)] + [0])


def heads(ast):
    out = {ast[0]}
    for a in ast[1:]:
        if isinstance(a, list):
            out |= heads(a)
    return out


def leaves(ast):
    ast = ref.desugar(ast)

    def go(a):
        if a[0] in ("V", "X"):
            return 1
        if a[0] == "S":
            return 0
        return sum(go(b) for b in a[1:])
    return go(ast)


@st.composite
def group_rep(draw, cap=60, pool=None, depth=3, maxd=None, rank=3):
    g = draw(group(pool, maxd))
    d = refg(g).d
    r = draw(rep([d], max(cap, d), depth=depth, rank=rank))
    return {"group": g, "rep": r}
