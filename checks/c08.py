"""C08: Butcher tableaux have the order they claim and are classified correctly."""

import warnings

import numpy as np
from hypothesis import strategies as st

from vlib import model as vm, trees
from vlib.driver import Sub, Violation
from rkopenmdao import butcher_tableaux as bt
from rkopenmdao.butcher_tableau import ButcherTableau, EmbeddedButcherTableau
from rkopenmdao.discretized_ode.discretized_ode import (
    DiscretizedODE,
    DiscretizedODEResultState,
)
from rkopenmdao.time_discretization.stage_ordered_runge_kutta_discretization import (
    StageOrderedEmbeddedRungeKuttaDiscretization,
    StageOrderedRungeKuttaDiscretization,
)
from rkopenmdao.time_discretization.time_discretization_scheme_interface import (
    TimeDiscretizationStartingValues,
)

PROPERTY = "C08"
# name: (order, embedded order, stages, kind)
CLAIMS = {
    "explicit_euler": (1, None, 1, "explicit"),
    "implicit_euler": (1, None, 1, "sdirk"),
    "implicit_midpoint": (2, None, 1, "sdirk"),
    "third_order_two_stage_sdirk": (3, None, 2, "sdirk"),
    "runge_kutta_four": (4, None, 4, "explicit"),
    "fifth_order_five_stage_sdirk": (5, None, 5, "sdirk"),
    "embedded_heun_euler": (2, 1, 2, "explicit"),
    "embedded_second_order_two_stage_sdirk": (2, 1, 2, "sdirk"),
    "embedded_second_order_three_stage_esdirk": (2, 1, 3, "esdirk"),
    "embedded_third_order_three_stage_sdirk1": (3, 2, 3, "sdirk"),
    "embedded_third_order_three_stage_sdirk2": (3, 2, 3, "sdirk"),
    "embedded_third_order_three_stage_esdirk": (3, 2, 3, "esdirk"),
    "embedded_third_order_four_stage_sdirk": (3, 2, 4, "sdirk"),
    "embedded_third_order_second_weak_stage_order_four_stage_dirk": (3, 2, 4, "dirk"),
    "embedded_third_order_third_weak_stage_order_four_stage_dirk": (3, 2, 4, "dirk"),
    "embedded_third_order_four_stage_esdirk": (3, 2, 4, "esdirk"),
    "embedded_third_order_five_stage_esdirk": (3, 2, 5, "esdirk"),
    "embedded_fourth_order_four_stage_sdirk": (4, 3, 4, "sdirk"),
    "embedded_fourth_order_five_stage_sdirk": (4, 3, 5, "sdirk"),
    "embedded_fourth_order_five_stage_esdirk": (4, 3, 5, "esdirk"),
    "embedded_fourth_order_six_stage_esdirk": (4, 3, 6, "esdirk"),
    "embedded_fourth_order_third_weak_stage_order_six_stage_dirk": (4, 3, 6, "dirk"),
    "embedded_runge_kutta_fehlberg": (5, 4, 6, "explicit"),
    "embedded_fifth_order_six_stage_esdirk": (5, 4, 6, "esdirk"),
}
WEAK_STAGE_ORDER = {
    "embedded_third_order_second_weak_stage_order_four_stage_dirk": 2,
    "embedded_third_order_third_weak_stage_order_four_stage_dirk": 3,
    "embedded_fourth_order_third_weak_stage_order_six_stage_dirk": 3,
}
TOL = 1e-9


def claim(name):
    """Stated orders; of tableaux added later we only know what they state."""
    obj = getattr(bt, name)
    if name in CLAIMS:
        return CLAIMS[name][:2]
    return obj.p, obj.phat if obj.is_embedded else None


# ------------------------------------------------------------------ order conditions
def weights(obj, which):
    return obj.butcher_weight_vector if which == "main" else obj.butcher_adaptive_weights


def order_conditions(case, rec):
    name, which, order = case["name"], case["which"], case["order"]
    obj = getattr(bt, name)
    p, phat = claim(name)
    if (obj.p, obj.phat if obj.is_embedded else None) != (p, phat):
        raise Violation(f"{name} states other orders than {p}, {phat}")
    if which == "embedded" and phat is None:
        rec.label("no embedded weights")
        return
    top = p if which == "main" else phat
    if order > top:
        rec.label("order not claimed")
        return
    A, b = np.array(obj.butcher_matrix), np.array(weights(obj, which))
    for t in trees.trees(order):
        d = trees.defect(t, A, b)
        if not abs(d) <= TOL:
            raise Violation(
                f"{name} ({which} weights) misses the order condition of tree {t} "
                f"(order {order}, stated {top}) by {d:.3e}"
            )
        rec.label(f"condition of order {order}")
    rec.nontrivial()


def structure(case, rec):
    name = case["name"]
    obj = getattr(bt, name)
    A, c = np.array(obj.butcher_matrix), np.array(obj.butcher_time_stages)
    s = len(c)
    vm.close(A.sum(axis=1), c, TOL, f"{name}: row sums versus stage times")
    if obj.is_embedded != isinstance(obj, EmbeddedButcherTableau):
        raise Violation(f"{name}: is_embedded = {obj.is_embedded}")
    classify(obj, A, name)
    if name in CLAIMS:
        _, phat, stages, kind = CLAIMS[name]
        if obj.number_of_stages() != stages or len(obj) != stages or s != stages:
            raise Violation(f"{name} has {obj.number_of_stages()} stages")
        if obj.is_embedded != (phat is not None):
            raise Violation(f"{name}: is_embedded = {obj.is_embedded}")
        diag = np.diag(A)
        if kind == "explicit" and not obj.is_explicit():
            raise Violation(f"{name} is not explicit")
        if kind != "explicit" and not obj.is_diagonally_implicit():
            raise Violation(f"{name} is not diagonally implicit")
        if kind == "sdirk" and not np.all(np.abs(diag - diag[0]) < TOL):
            raise Violation(f"{name} is not singly diagonally implicit: {diag}")
        if kind == "esdirk" and not (
            diag[0] == 0.0 and np.all(np.abs(diag[1:] - diag[1]) < TOL)
        ):
            raise Violation(f"{name} has no explicit first stage: {diag}")
    for k in range(1, WEAK_STAGE_ORDER.get(name, 0) + 1):
        tau = A @ c ** (k - 1) - c**k / k
        v = np.array(obj.butcher_weight_vector)
        for _ in range(s):
            if abs(v @ tau) > 1e-8:
                raise Violation(f"{name} has not weak stage order {k}: {v @ tau:.3e}")
            v = v @ A
    rec.nontrivial()


# ----------------------------------------------------------------- integrated cascades
class Cascade(DiscretizedODE):
    """y_i' = c_i t^a_i prod_{j<i} y_j^e_ij: solutions are polynomials in t."""

    def __init__(self, comps):
        self.comps = comps

    def rhs(self, i, t, y):
        co = self.comps[i]
        val = co["c"] * t ** co["a"]
        for j, e in co["e"]:
            val = val * y[j] ** e
        return val

    def compute_update(self, ode_input, step_size, stage_factor):
        n = len(self.comps)
        base = ode_input.step_input + step_size * ode_input.stage_input
        k, X = np.zeros(n), np.zeros(n)
        for i in range(n):
            k[i] = self.rhs(i, ode_input.time, X)
            X[i] = base[i] + step_size * stage_factor * k[i]
        return DiscretizedODEResultState(k, X, np.zeros(0), np.zeros(0))

    def compute_update_derivative(self, *args):
        raise NotImplementedError

    def compute_update_adjoint_derivative(self, *args):
        raise NotImplementedError

    def compute_state_norm(self, state):
        return float(np.linalg.norm(state.stage_state))

    def get_state_size(self):
        return len(self.comps)

    def get_independent_input_size(self):
        return 0

    def get_independent_output_size(self):
        return 0

    def get_linearization_point_size(self):
        return 0

    def exact(self, t0, y0, t1):
        """Polynomials in (t - t0)."""
        time = np.polynomial.Polynomial([t0, 1.0])
        ys = []
        for i, co in enumerate(self.comps):
            f = np.polynomial.Polynomial([co["c"]]) * time ** co["a"]
            for j, e in co["e"]:
                f = f * ys[j] ** e
            ys.append(f.integ() + y0[i])
        return np.array([y(t1 - t0) for y in ys])


@st.composite
def cascade_case(draw):
    name = draw(st.sampled_from(vm.SHIPPED))
    p, phat = claim(name)
    which = draw(st.sampled_from(["main", "embedded"] if phat else ["main"]))
    top = p if which == "main" else phat
    comps, degs = [], []
    for i in range(draw(st.integers(1, 5))):
        budget = draw(st.sampled_from([top - 1, top - 1, None]))
        if budget is None:
            budget = draw(st.integers(0, top - 1))
        exps = {}
        left = budget
        while left and degs and draw(st.sampled_from([True, True, True, False])):
            fit = [j for j in range(i) if degs[j] <= left]
            if not fit:
                break
            j = draw(st.sampled_from(fit))
            exps[j] = exps.get(j, 0) + 1
            left -= degs[j]
        a = left if draw(st.booleans()) else 0
        d = 1 + a + sum(degs[j] * e for j, e in exps.items())
        comps.append(
            {
                "c": draw(st.integers(1, 16)) / 8,
                "a": a,
                "e": [[j, e] for j, e in exps.items()],
            }
        )
        degs.append(d)
    return {
        "name": name,
        "which": which,
        "comps": comps,
        "degree": max(degs),
        "t0": draw(st.integers(-8, 8)) / 8,
        "y0": [draw(st.integers(-8, 8)) / 8 for _ in comps],
        "dts": [draw(st.integers(1, 8)) / 8 for _ in range(draw(st.integers(1, 3)))],
        "derived": draw(st.booleans()),
    }


def cascade(case, rec):
    obj = getattr(bt, case["name"])
    ode = Cascade(case["comps"])
    embedded_estimate = False
    if case["which"] == "embedded":
        if case["derived"]:
            disc = StageOrderedRungeKuttaDiscretization(obj.embedded_method)
        else:
            disc = StageOrderedEmbeddedRungeKuttaDiscretization(obj)
            embedded_estimate = True
    else:
        if case["derived"] and obj.is_embedded:
            obj = obj.main_method
        disc = StageOrderedRungeKuttaDiscretization(obj)
    y0 = np.array(case["y0"])
    dts = case["dts"][:1] if embedded_estimate else case["dts"]
    start = TimeDiscretizationStartingValues(case["t0"], y0, np.zeros(0))
    state = disc.time_discretization_starting_scheme(ode, start, dts[0])
    t = case["t0"]
    for dt in dts:
        state = disc.compute_step(ode, state, dt)
        t += dt
    got = state.embedded_state if embedded_estimate else state.final_state
    want = ode.exact(case["t0"], y0, t)
    vm.close(
        got, want, 1e-8,
        f"{case['name']} ({case['which']} weights) on polynomial solutions of degree "
        f"{case['degree']}",
    )
    rec.label(f"degree {case['degree']}")
    rec.nontrivial(case["degree"] > 1)


# ------------------------------------------------------------- arbitrary tableaux
def classify(obj, A, what):
    s = A.shape[0]
    upper = any(A[i, j] != 0 for i in range(s) for j in range(i + 1, s))
    diag = any(A[i, i] != 0 for i in range(s))
    want = (not upper and not diag, not upper and diag, upper)
    got = (obj.is_explicit(), obj.is_diagonally_implicit(), obj.is_implicit())
    if tuple(map(bool, got)) != want:
        raise Violation(
            f"{what}: explicit, diagonally implicit, implicit = {got}, expected {want} "
            f"for {A.tolist()}"
        )
    return want


@st.composite
def arbitrary_case(draw):
    s = draw(st.sampled_from([1, 2, 3, 4, 5]))
    A = [[0.0] * s for _ in range(s)]
    pattern = draw(st.sampled_from(["zero", "lower", "diag", "upper", "one"]))
    val = st.sampled_from([-1.0, -0.5, 0.25, 0.5, 1.0, 1e-14, -1e-9, 3.0])
    some = st.sampled_from([True, True, False])
    for i in range(s):
        for j in range(s):
            if pattern in ("lower", "diag", "upper") and j < i and draw(some):
                A[i][j] = draw(val)
            if pattern in ("diag", "upper") and j == i and draw(some):
                A[i][j] = draw(val)
            if pattern == "upper" and j > i and draw(st.booleans()):
                A[i][j] = draw(val)
    if pattern == "one":
        i, j = draw(st.integers(0, s - 1)), draw(st.integers(0, s - 1))
        A[i][j] = draw(val)
    dev = st.sampled_from([0.0, 0.0, 1e-7, -1e-7, 1e-3, -1e-3, 1.0, -1.0, 0.3, -0.3])
    b = [draw(st.integers(-8, 8)) / 8 for _ in range(s)]
    b[-1] += 1.0 - sum(b)
    bhat = [draw(st.integers(-8, 8)) / 8 for _ in range(s)]
    return {
        "A": A,
        "b": b,
        "b_dev": draw(dev),
        "bhat": bhat,
        "c_dev": draw(
            st.one_of(
                st.none(),
                st.lists(dev, min_size=s, max_size=s),
                st.just([0.0] * s),
                st.tuples(st.integers(0, s - 1), dev).map(
                    lambda iv: [iv[1] if k == iv[0] else 0.0 for k in range(s)]
                ),
            )
        ),
        "p": draw(st.one_of(st.none(), st.integers(1, 6))),
        "phat": draw(st.one_of(st.none(), st.integers(1, 6))),
        "cls": draw(st.sampled_from(["plain", "embedded", "from"])),
        "wrong": draw(
            st.sampled_from(["-", "-", "-", "-", "rows", "cols", "b", "c", "bhat", "A"])
        ),
    }


def attribute_or_error(get):
    try:
        return get()
    except ValueError:
        return "ValueError"


def arbitrary(case, rec):
    A, b = np.array(case["A"]), np.array(case["b"])
    s = len(b)
    sums = A.sum(axis=1)
    c = None if case["c_dev"] is None else sums + np.array(case["c_dev"])
    b[0] += case["b_dev"]
    bhat = np.array(case["bhat"])
    cls, wrong = case["cls"], case["wrong"]
    if wrong == "rows":
        A = np.vstack([A, A[:1]])
    elif wrong == "cols":
        A = np.hstack([A, A[:, :1]])
    elif wrong == "A":
        A = np.zeros((s + 1, s + 1))
    elif wrong == "b":
        b = np.append(b, 0.0)
    elif wrong == "c":
        if c is None:
            wrong = "-"
        else:
            c = np.append(c, 0.0)
    elif wrong == "bhat":
        if cls == "plain":
            wrong = "-"
        else:
            bhat = np.append(bhat, 0.0)
    p, phat = case["p"], case["phat"]
    if cls == "from" and p is None:
        p = 3  # deriving one tableau from another needs a known order
    kw = {
        "butcher_matrix": A.copy(),
        "butcher_weight_vector": b.copy(),
        "butcher_time_stages": None if c is None else c.copy(),
        "p": p,
        "name": "generated",
    }
    expect_b = abs(b.sum() - 1.0) > 1e-4
    expect_c = c is not None and bool(np.any(np.abs(case["c_dev"]) > 1e-4))
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        try:
            if cls == "embedded":
                obj = EmbeddedButcherTableau(
                    butcher_adaptive_weights=bhat.copy(), phat=phat, **kw
                )
            else:
                obj = ButcherTableau(**kw)
                if cls == "from":
                    obj = EmbeddedButcherTableau.from_butchertableau(
                        obj, bhat.copy(), phat=phat
                    )
        except (ValueError, AssertionError, IndexError) as err:
            if wrong == "-":
                raise Violation(f"consistent tableau refused: {err}") from err
            rec.label("refused: " + wrong)
            rec.nontrivial()
            return
        built = [w for w in caught if issubclass(w.category, UserWarning)]
    if wrong != "-":
        raise Violation(
            f"tableau with inconsistent sizes accepted: A {A.shape}, b {b.shape}, "
            f"c {None if c is None else c.shape}, bhat {bhat.shape}"
        )
    n_msgs = len({str(w.message) for w in built})
    if n_msgs != int(expect_b) + int(expect_c):
        raise Violation(
            f"{n_msgs} kinds of warnings {[str(w.message) for w in built]}, expected: "
            f"weights {expect_b} (sum {b.sum()}), row sums {expect_c} "
            f"(deviations {case['c_dev']})"
        )
    rec.label(f"warnings {n_msgs}")
    want = classify(obj, A, "generated tableau")
    rec.label(["explicit", "diagonally implicit", "implicit"][want.index(True)])
    rec.nontrivial(s > 1)
    want_c = sums if c is None else c

    def compare(o, weights_, order, what):
        if not (
            np.array_equal(o.butcher_matrix, A)
            and np.array_equal(o.butcher_weight_vector, weights_)
        ):
            raise Violation(f"{what} has other coefficients")
        vm.close(o.butcher_time_stages, want_c, 1e-15, what + ": stage times")
        if o.number_of_stages() != s or len(o) != s:
            raise Violation(f"{what} has {o.number_of_stages()} stages, expected {s}")
        if attribute_or_error(lambda: o.p) != ("ValueError" if order is None else order):
            raise Violation(f"{what} has order {attribute_or_error(lambda: o.p)}")

    compare(obj, b, p, "tableau")
    if cls == "plain":
        if obj.is_embedded:
            raise Violation("plain tableau is embedded")
        if p is not None and obj.min_p_order() != p:
            raise Violation(f"minimal order {obj.min_p_order()}, expected {p}")
    else:
        if not obj.is_embedded:
            raise Violation("embedded tableau is not embedded")
        if not np.array_equal(obj.butcher_adaptive_weights, bhat):
            raise Violation("other embedded weights")
        if attribute_or_error(lambda: obj.phat) != (
            "ValueError" if phat is None else phat
        ):
            raise Violation("other embedded order")
        if p is not None and phat is not None and obj.min_p_order() != min(p, phat):
            raise Violation(
                f"minimal order {obj.min_p_order()}, expected {min(p, phat)}"
            )
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            main, emb = obj.main_method, obj.embedded_method
        compare(main, b, p, "main method")
        compare(emb, bhat, phat, "embedded method")
        for o in (main, emb):
            if o.is_embedded:
                raise Violation("method of an embedded tableau is embedded")
            classify(o, A, "derived method")
    obj.p = 7
    if obj.p != 7:
        raise Violation("order can't be set")
    if cls != "plain":
        obj.phat = 2
        if obj.phat != 2 or obj.p != 7 or obj.min_p_order() != 2:
            raise Violation("embedded order can't be set")


SUBS = [
    Sub(
        "order_conditions",
        st.fixed_dictionaries(
            {
                "name": st.sampled_from(vm.SHIPPED),
                "which": st.sampled_from(["main", "embedded"]),
                "order": st.sampled_from([1, 2, 3, 4, 5]),
            }
        ),
        order_conditions,
        3000,
        3000,
        workers=1,
    ),
    Sub(
        "structure",
        st.fixed_dictionaries({"name": st.sampled_from(vm.SHIPPED)}),
        structure,
        100,
        100,
        workers=1,
    ),
    Sub("cascades", cascade_case(), cascade, 3000, 60000),
    Sub("arbitrary", arbitrary_case(), arbitrary, 3000, 60000),
]
