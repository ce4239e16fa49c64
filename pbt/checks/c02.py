"""C02 rotations and angles: Rodrigues' formula and the half-angle formula as oracles"""
import math

from hypothesis import strategies as st
from openspace.math.linalg import Vector3D

from pbt import gen, ref
from pbt.core import Sub, between, close, num, truth, vclose, xyz

RULE = ("vectors and axes of any direction (axes, near axes, coordinate planes) and length 1e-6..1e9 or nearly one, angles up to many "
        "turns with quarter turns and their neighbourhood; non-trivial: angle not a multiple of a full turn and vector "
        "not along the axis")
ASSUMPTIONS = ["lengths between 1e-9 and 1e12"]
PI = math.pi
lengths = st.one_of(gen.logreal(1e-6, 1e9, [1.0, 1e-9, 1e12]), gen.logreal(1e-6, 1e9, [1.0, 1e-9, 1e12]), gen.near([1.0], 0.5, 1.5, 1e-13, 0.1))
vecs = gen.scaled_unit(lengths)
angles = st.one_of(gen.angle(), gen.angle(), gen.real(-100, 100), gen.signed(gen.logreal(1e-12, 1e3)), gen.signed(gen.logreal(100, 1e7)), st.just(0.0))


def rows(m):
    return [xyz(m.row1, "rotation matrix"), xyz(m.row2, "rotation matrix"), xyz(m.row3, "rotation matrix")]


def check_rotation(c):
    v, w, ax, t, t2 = tuple(c["v"]), tuple(c["w"]), tuple(c["axis"]), c["t"], c["t2"]
    V, W, A = Vector3D(*v), Vector3D(*w), Vector3D(*ax)
    nv, nw = ref.norm(v), ref.norm(w)
    rv = xyz(V.rotation_about_axis(A, t), "rotated vector")
    vclose(rv, ref.rodrigues(v, ax, t), (4e-14 + 1e-15 * abs(t)) * nv, "rotation about an axis")
    rw = xyz(W.rotation_about_axis(A, t), "rotated vector")
    close(ref.norm(rv), nv, 1e-13 * nv, "length after rotation")
    close(ref.dot(rv, rw), ref.dot(v, w), 1e-13 * nv * nw, "inner product after rotation")
    vclose(xyz(A.rotation_about_axis(A, t), "rotated axis"), ax, 1e-14 * 10 * ref.norm(ax), "axis after rotation about itself")
    # additive and invertible
    both = xyz(Vector3D(*rv).rotation_about_axis(A, t2), "twice rotated")
    once = xyz(V.rotation_about_axis(A, t + t2), "rotated by the sum")
    slack = (1e-13 + 4e-15 * (abs(t) + abs(t2))) * nv
    vclose(both, once, slack, "two rotations about one axis against their sum")
    vclose(xyz(Vector3D(*rv).rotation_about_axis(A, -t), "rotated back"), v, (1e-13 + 4e-15 * abs(t)) * nv, "rotation undone by the opposite angle")
    # scale of the axis does not matter
    s = c["s"]
    vclose(xyz(V.rotation_about_axis(A.scaled(s), t), "rotated vector"), rv, (1e-13 + 1e-15 * abs(t)) * nv, "rotation with a longer axis")
    # the matrix
    m = rows(Vector3D.rotation_matrix(A, t))
    vclose(ref.mv(m, v), rv, (1e-13 + 1e-15 * abs(t)) * nv, "rotation matrix times vector")
    mt = ref.mm(m, ref.mt(m))
    for i in range(3):
        for j in range(3):
            close(mt[i][j], 1.0 if i == j else 0.0, 4e-14, "rotation matrix times its transpose")
    close(ref.dot(m[0], ref.cross(m[1], m[2])), 1.0, 4e-14, "determinant of the rotation matrix")
    truth(xyz(V) == v and xyz(A) == ax and xyz(W) == w, "rotation modified its operands")


def check_angle(c):
    v, k = tuple(c["v"]), c["kind"]
    if k == "free":
        w = tuple(c["w"])
    else:
        # near parallel or opposite: rotate v by a small angle and rescale
        w = ref.rodrigues(v, tuple(c["axis"]), c["t"])
        w = ref.mul(w, (1 if k == "parallel" else -1) * c["s"])
        if not all(math.isfinite(x) for x in w) or ref.norm(w) < 1e-9:
            return
    V, W = Vector3D(*v), Vector3D(*w)
    a = between(V.angle(W), 0.0, PI, "angle between two vectors")
    close(a, ref.angle(v, w), 1e-7, "angle between two vectors")
    close(W.angle(V), a, 1e-7, "angle with the vectors exchanged")
    close(V.scaled(c["s"]).angle(W), a, 1e-7, "angle after lengthening one vector")
    close(V.angle(W.scaled(-1)), PI - a, 2e-7, "angle to the opposite vector")
    close(V.angle(V.copy()), 0.0, 1e-7, "angle to itself")
    truth(xyz(V) == v and xyz(W) == w, "angle modified its operands")


SUBS = [
    Sub("rotation", st.fixed_dictionaries(
        {"v": vecs, "w": vecs, "axis": vecs, "t": angles, "t2": angles, "s": st.one_of(gen.logreal(1e-3, 1e3), gen.near([1.0], 0.5, 1.5, 1e-13, 0.1))}), check_rotation,
        quick=20000,
        nontrivial=lambda c: abs(ref.wrap(c["t"])) > 1e-9 and ref.norm(ref.cross(ref.unit(c["v"]), ref.unit(c["axis"]))) > 1e-9,
        label=lambda c: ["beyond a turn" if abs(c["t"]) > 2 * PI else "within a turn"]),
    Sub("angle", st.fixed_dictionaries(
        {"v": vecs, "w": vecs, "axis": vecs, "kind": st.sampled_from(["free", "free", "parallel", "opposite"]),
         "t": st.one_of(st.just(0.0), gen.signed(gen.logreal(1e-12, 1.0))), "s": gen.logreal(1e-3, 1e3)}), check_angle,
        quick=20000, label=lambda c: [c["kind"]]),
]
