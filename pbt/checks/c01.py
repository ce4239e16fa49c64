"""C01 linear algebra: exact rational arithmetic (fractions.Fraction) as the oracle"""
import itertools
from fractions import Fraction as F

from hypothesis import strategies as st
from openspace.math.linalg import Matrix3by6, Matrix3D, Matrix6by3, Matrix6D, Vector3D, Vector6D

from pbt import gen
from pbt.core import Sub, Violation, close, num, six, truth, xyz

RULE = ("operands are drawn per component (zeros, integers, evenly spread and log-spread values of mixed magnitude, "
        "exactly and nearly symmetric and structured matrices), the second operand sometimes being the first object itself, and every operand object "
        "having held and been used with other values before; a case is non-trivial when both operands have at "
        "least two different non-zero entries")
ASSUMPTIONS = ["magnitudes between 1e-12 and 1e12, so that products neither overflow nor underflow",
               "inverse only for matrices with permanent(|A|) / |det A| < 1e6"]
EPS = 2.0 ** -52

comp = st.one_of(
    gen.real(-10, 10), gen.real(-1, 1), gen.signed(gen.logreal(1e-9, 1e9)), gen.signed(gen.logreal(1e-12, 1e12)),
    st.integers(-9, 9).map(float), st.sampled_from([0.0, 1.0, -1.0, -0.0]))


same = st.sampled_from([False, False, False, True])


def vec(n):
    return st.lists(comp, min_size=n, max_size=n)


def mat(r, c):
    base = st.lists(vec(c), min_size=r, max_size=r)
    if r != c:
        return base

    def sym(t):
        m, d = t
        return [[m[min(i, j)][max(i, j)] + (d if i > j else 0.0) for j in range(c)] for i in range(r)]

    def diag(v):
        return [[v[i] if i == j else 0.0 for j in range(c)] for i in range(r)]

    return st.one_of(base, base, base, st.tuples(base, st.sampled_from([0.0, 0.0, 1e-6, 0.5])).map(sym),
                     vec(r).map(diag))


def mk(v):
    return Vector3D(*v) if len(v) == 3 else Vector6D(*v)


def mkm(m):
    r, c = len(m), len(m[0])
    cls = {(3, 3): Matrix3D, (3, 6): Matrix3by6, (6, 3): Matrix6by3, (6, 6): Matrix6D}[(r, c)]
    return cls(*[mk(x) for x in m])


NAMES = ["x", "y", "z", "vx", "vy", "vz"]


def comps(v, n, what):
    truth(isinstance(v, Vector3D if n == 3 else Vector6D), f"{what}: expected a {n}-D vector, got {type(v).__name__}")
    return xyz(v, what) if n == 3 else six(v, what)


def rows(m, r, c, what):
    cls = {(3, 3): Matrix3D, (3, 6): Matrix3by6, (6, 3): Matrix6by3, (6, 6): Matrix6D}[(r, c)]
    truth(isinstance(m, cls), f"{what}: expected a {r}x{c} matrix, got {type(m).__name__}")
    return [comps(getattr(m, f"row{k + 1}"), c, what) for k in range(r)]


def poke(v, n, k):
    for i in range(n):
        setattr(v, NAMES[i], 7.5 + k + i)


def put(v, values):
    for name, x in zip(NAMES, values):
        setattr(v, name, x)


def poke_m(m, r, c):
    for k in range(r):
        poke(getattr(m, f"row{k + 1}"), c, 10 * k)


def frac(m):
    return [[F(x) for x in row] for row in m]


def want(got, exact, slack, what):
    """got (floats) equals exact (Fraction) up to slack (Fraction, already an absolute bound)"""
    err = abs(F(got) - exact)
    if err > slack:
        raise Violation(f"{what}: got {got!r}, exact value {float(exact)!r}, error {float(err):.3e} "
                        f"above rounding {float(slack):.3e}")


E = F(1, 2 ** 52)
TINY = F(1, 10 ** 290)


class Holder:
    """keeps the operands, checks them after the operation and pokes them to see whether the result follows"""

    def __init__(self, **ops):
        self.ops = ops

    def snap(self):
        out = {}
        for k, (o, shape) in self.ops.items():
            out[k] = comps(o, shape, k) if isinstance(shape, int) else rows(o, *shape, k)
        return out

    def run(self, what, call, read):
        before = self.snap()
        # the operands held other values before, and were used with them
        for o, shape in self.ops.values():
            poke(o, shape, 3) if isinstance(shape, int) else poke_m(o, *shape)
        try:
            call()
        except ZeroDivisionError:
            pass
        for k, (o, shape) in self.ops.items():
            if isinstance(shape, int):
                put(o, before[k])
            else:
                for i, r in enumerate(before[k]):
                    put(getattr(o, f"row{i + 1}"), r)
        res = call()
        first = read(res)
        if self.snap() != before:
            raise Violation(f"{what} modified an operand: {before} -> {self.snap()}")
        for o, shape in self.ops.values():
            poke(o, shape, 1) if isinstance(shape, int) else poke_m(o, *shape)
        again = read(res)
        if again != first:
            raise Violation(f"the result of {what} changed when its operands were changed afterwards: {first} -> {again}")
        return first


def check_vec(case):
    n, a, b, s = case["n"], case["a"], case["b"], case["s"]
    if case["same"]:
        b = a
    fa, fb = [F(x) for x in a], [F(x) for x in b]

    def h():
        x = mk(a)
        return Holder(a=(x, n), b=(x if case["same"] else mk(b), n))

    o = h()
    x, y = o.ops["a"][0], o.ops["b"][0]
    for name, sg in (("plus", 1), ("minus", -1)):
        o = h()
        x, y = o.ops["a"][0], o.ops["b"][0]
        r = o.run(name, lambda: getattr(x, name)(y), lambda v: comps(v, n, name))
        for i in range(n):
            want(r[i], fa[i] + sg * fb[i], 2 * E * abs(fa[i] + sg * fb[i]) + TINY, f"{n}-D {name} component {i}")
    o = h()
    x, y = o.ops["a"][0], o.ops["b"][0]
    r = o.run("dot", lambda: x.dot(y), lambda v: num(v, "dot"))
    want(r, sum(p * q for p, q in zip(fa, fb)), 8 * E * sum(abs(p * q) for p, q in zip(fa, fb)) + TINY, f"{n}-D dot")
    o = Holder(a=(mk(a), n))
    r = o.run("copy", lambda: o.ops["a"][0].copy(), lambda v: comps(v, n, "copy"))
    truth(list(r) == list(a), f"copy differs: {r} vs {a}")
    if n == 6:
        p, q = Vector3D(*a[:3]), Vector3D(*a[3:])
        o = Holder(p=(p, 3), q=(q, 3))
        r = o.run("from_position_and_velocity", lambda: Vector6D.from_position_and_velocity(p, q),
                  lambda v: comps(v, 6, "from_position_and_velocity"))
        truth(list(r) == list(a), f"from_position_and_velocity differs: {r} vs {a}")
        return
    o = h()
    x, y = o.ops["a"][0], o.ops["b"][0]
    r = o.run("cross", lambda: x.cross(y), lambda v: comps(v, 3, "cross"))
    for i in range(3):
        j, k = (i + 1) % 3, (i + 2) % 3
        want(r[i], fa[j] * fb[k] - fa[k] * fb[j], 4 * E * (abs(fa[j] * fb[k]) + abs(fa[k] * fb[j])) + TINY,
             f"cross component {i}")
    o = Holder(a=(mk(a), 3))
    r = o.run("scaled", lambda: o.ops["a"][0].scaled(s), lambda v: comps(v, 3, "scaled"))
    for i in range(3):
        want(r[i], fa[i] * F(s), 2 * E * abs(fa[i] * F(s)) + TINY, f"scaled component {i}")
    o = Holder(a=(mk(a), 3))
    m = o.run("magnitude", lambda: o.ops["a"][0].magnitude(), lambda v: num(v, "magnitude"))
    m2 = sum(p * p for p in fa)
    truth(m >= 0, f"negative magnitude {m}")
    want(F(m) ** 2, m2, 16 * E * m2 + TINY, "square of the magnitude")
    if m2 > 0:
        o = Holder(a=(mk(a), 3))
        u = o.run("normalized", lambda: o.ops["a"][0].normalized(), lambda v: comps(v, 3, "normalized"))
        want(sum(F(p) ** 2 for p in u), F(1), 64 * E, "square length of a unit vector")
        for i in range(3):
            # u_i |a| = a_i, compared through squares to stay exact
            want(F(u[i]) ** 2 * m2, fa[i] ** 2, 64 * E * fa[i] ** 2 + TINY, f"unit vector component {i} (squared)")
            truth(u[i] * a[i] >= 0, f"unit vector component {i} has the wrong sign")


def prod(a, b):
    bt = list(zip(*b))
    return [[sum(x * y for x, y in zip(r, c)) for c in bt] for r in a]


def absm(a):
    return [[abs(x) for x in r] for r in a]


def cmp_m(got, exact, slack, what, k=16):
    for i, (g, e, s) in enumerate(zip(got, exact, slack)):
        for j, (gg, ee, ss) in enumerate(zip(g, e, s)):
            want(gg, ee, k * E * ss + TINY, f"{what}[{i}][{j}]")


def perm(m):
    return sum(abs(m[0][p[0]] * m[1][p[1]] * m[2][p[2]]) for p in itertools.permutations(range(3)))


def minor(m, i, j, f):
    r = [k for k in range(3) if k != i]
    c = [k for k in range(3) if k != j]
    return f(m[r[0]][c[0]] * m[r[1]][c[1]], m[r[0]][c[1]] * m[r[1]][c[0]])


PRODUCTS = {  # (left shape, right shape): method
    ((3, 3), (3, 6)): "multiply_matrix3by6",
    ((3, 6), (6, 3)): "multiply_matrix_6by3",
    ((6, 3), (3, 3)): "multiply",
    ((6, 3), (3, 6)): "multiply_matrix3by6",
    ((6, 6), (6, 3)): "multiply_matrix_6by3",
    ((6, 6), (6, 6)): "multiply_matrix",
}


def check_mat(case):
    a, b, v, s = case["a"], case["b"], case["v"], case["s"]
    if case["same"] and len(a) == 6 and len(a[0]) == len(b[0]) == 6:
        b = a
    sa, sb = (len(a), len(a[0])), (len(b), len(b[0]))
    fa, fb = frac(a), frac(b)

    # building a matrix copies its rows
    rws = [mk(x) for x in a]
    cls = type(mkm(a))
    m = cls(*rws)
    before = rows(m, *sa, "matrix")
    truth([list(r) for r in before] == a, f"matrix holds {before}, built from {a}")
    for k, r in enumerate(rws):
        poke(r, sa[1], k)
    truth(rows(m, *sa, "matrix") == before, "a built matrix changed when the vectors it was made from were changed")

    if (sa, sb) in PRODUCTS:
        x = mkm(a)
        o = Holder(a=(x, sa), b=(x if b is a else mkm(b), sb))
        x, y = o.ops["a"][0], o.ops["b"][0]
        shape = (sa[0], sb[1])
        name = PRODUCTS[(sa, sb)]
        r = o.run(name, lambda: getattr(x, name)(y), lambda z: rows(z, *shape, name))
        cmp_m(r, prod(fa, fb), prod(absm(fa), absm(fb)), f"product {sa}x{sb}")
    o = Holder(a=(mkm(a), sa), v=(mk(v), sa[1]))
    x, y = o.ops["a"][0], o.ops["v"][0]
    r = o.run("multiply_vector", lambda: x.multiply_vector(y), lambda z: comps(z, sa[0], "multiply_vector"))
    fv = [[F(q)] for q in v]
    cmp_m([[q] for q in r], prod(fa, fv), prod(absm(fa), absm(fv)), f"matrix {sa} times vector")
    o = Holder(a=(mkm(a), sa))
    r = o.run("transpose", lambda: o.ops["a"][0].transpose(), lambda z: rows(z, sa[1], sa[0], "transpose"))
    truth([list(q) for q in r] == [list(q) for q in zip(*a)], f"transpose of {a} is {r}")
    for j in range(sa[1]):
        o = Holder(a=(mkm(a), sa))
        r = o.run(f"column_{j + 1}", lambda: getattr(o.ops["a"][0], f"column_{j + 1}")(),
                  lambda z: comps(z, sa[0], "column"))
        truth(list(r) == [q[j] for q in a], f"column {j + 1} of {a} is {r}")
    if sa[0] == sa[1]:
        o = Holder(a=(mkm(a), sa))
        r = o.run("diagonal", lambda: o.ops["a"][0].diagonal(), lambda z: comps(z, sa[0], "diagonal"))
        truth(list(r) == [a[k][k] for k in range(sa[0])], f"diagonal of {a} is {r}")
        c = a if case["same"] else case["c"]
        fc = frac(c)
        for name, sg in (("plus", 1), ("minus", -1)):
            if sa == (3, 3) and name == "minus":
                continue
            x = mkm(a)
            o = Holder(a=(x, sa), c=(x if c is a else mkm(c), sa))
            x, y = o.ops["a"][0], o.ops["c"][0]
            r = o.run(name, lambda: getattr(x, name)(y), lambda z: rows(z, *sa, name))
            ex = [[p + sg * q for p, q in zip(g, h)] for g, h in zip(fa, fc)]
            cmp_m(r, ex, absm(ex), f"matrix {name}", 2)
    if sa == (6, 6):
        i1 = Matrix6D.identity()
        r = rows(i1, 6, 6, "identity")
        truth([list(q) for q in r] == [[1.0 if i == j else 0.0 for j in range(6)] for i in range(6)], f"identity is {r}")
        poke_m(i1, 6, 6)
        truth(rows(Matrix6D.identity(), 6, 6, "identity") == r, "identity changed after an earlier identity was modified")
    if sa == (3, 3):
        o = Holder(a=(mkm(a), sa))
        r = o.run("scaled", lambda: o.ops["a"][0].scaled(s), lambda z: rows(z, 3, 3, "scaled"))
        ex = [[F(s) * p for p in g] for g in fa]
        cmp_m(r, ex, absm(ex), "scaled matrix", 2)
        o = Holder(a=(mkm(a), sa))
        d = o.run("determinant", lambda: o.ops["a"][0].determinant(), lambda z: num(z, "determinant"))
        pm = perm(fa)
        cof = [[(-1) ** (i + j) * minor(fa, i, j, lambda p, q: p - q) for j in range(3)] for i in range(3)]
        acf = [[minor(absm(fa), i, j, lambda p, q: p + q) for j in range(3)] for i in range(3)]
        det = sum(fa[0][j] * cof[0][j] for j in range(3))
        want(d, det, 16 * E * pm + TINY, "determinant")
        o = Holder(a=(mkm(a), sa))
        r = o.run("cofactor", lambda: o.ops["a"][0].cofactor(), lambda z: rows(z, 3, 3, "cofactor"))
        cmp_m(r, cof, acf, "cofactor", 8)
        o = Holder(a=(mkm(a), sa))
        r = o.run("adjugate", lambda: o.ops["a"][0].adjugate(), lambda z: rows(z, 3, 3, "adjugate"))
        cmp_m(r, list(zip(*cof)), list(zip(*acf)), "adjugate", 8)
        if det != 0 and pm / abs(det) < 10 ** 6:
            o = Holder(a=(mkm(a), sa))
            r = o.run("inverse", lambda: o.ops["a"][0].inverse(), lambda z: rows(z, 3, 3, "inverse"))
            inv = [[cof[j][i] / det for j in range(3)] for i in range(3)]
            k = (1 + pm / abs(det))
            slack = [[acf[j][i] / abs(det) * k for j in range(3)] for i in range(3)]
            cmp_m(r, inv, slack, "inverse", 256)


def rich(m):
    flat = {abs(x) for r in m for x in r if x}
    return len(flat) >= 2


SHAPES = [((3, 3), (3, 6)), ((3, 6), (6, 3)), ((6, 3), (3, 3)), ((6, 3), (3, 6)), ((6, 6), (6, 3)), ((6, 6), (6, 6)),
          ((3, 3), (3, 6))]


def mat_case(sh):
    sa, sb = sh
    d = {"a": mat(*sa), "b": mat(*sb), "v": vec(sa[1]), "s": comp, "same": same}
    d["c"] = mat(*sa) if sa[0] == sa[1] else st.just([])
    return st.fixed_dictionaries(d)


SUBS = [
    Sub("vectors", st.sampled_from([3, 3, 6]).flatmap(
        lambda n: st.fixed_dictionaries({"n": st.just(n), "a": vec(n), "b": vec(n), "s": comp, "same": same})), check_vec,
        quick=8000, nontrivial=lambda c: rich([c["a"]]) and rich([c["b"]]), label=lambda c: [f"{c['n']}D"]),
    Sub("matrices", st.sampled_from(SHAPES).flatmap(mat_case), check_mat, quick=6000,
        nontrivial=lambda c: rich(c["a"]) and rich(c["b"]),
        label=lambda c: [f"{len(c['a'])}x{len(c['a'][0])} by {len(c['b'])}x{len(c['b'][0])}"]),
]
