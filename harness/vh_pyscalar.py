"""Bounded-exhaustive exploration of the scalar-like Python objects: monomials, polynomials and scalars."""
import copy, ctypes, itertools, math, operator, re, sys
from fractions import Fraction as F
import numpy as np
import roughpy as rp
from vhpy import Run

R = Run()

# ---------------------------------------------------------------- exact model of polynomials
# monomial: frozenset-like sorted tuple of (name, power); polynomial: {monomial: Fraction} without zeros
ONE = ()


def mmul(a, b):
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))


def norm(p):
    return {k: v for k, v in p.items() if v}


def padd(p, q, s=1):
    r = dict(p)
    for k, v in q.items():
        r[k] = r.get(k, F(0)) + s * v
    return norm(r)


def pmul(p, q):
    r = {}
    for k, v in p.items():
        for l, w in q.items():
            m = mmul(k, l)
            r[m] = r.get(m, F(0)) + v * w
    return norm(r)


def ppow(p, n):
    r = {ONE: F(1)}
    for _ in range(n):
        r = pmul(r, p)
    return r


def deg(m):
    return sum(e for _, e in m)


TERM = re.compile(r"\s*(-?\d+(?:/\d+)?)\(([^)]*)\)")


def parse_mon(s):
    d = {}
    for f in s.split():
        n, _, e = f.partition("^")
        d[n] = d.get(n, 0) + (int(e) if e else 1)
    return tuple(sorted(d.items()))


def parse_poly(s):
    assert s.startswith("{") and s.endswith("}"), s
    body, d, at = s[1:-1], {}, 0
    while body[at:].strip():
        m = TERM.match(body, at)
        assert m, s
        k = parse_mon(m.group(2))
        assert k not in d, s
        d[k] = F(m.group(1))
        at = m.end()
    return d


def mk_mon(m):
    return rp.Monomial(dict(m))


def mk_poly(p):
    return rp.PolynomialScalar({mk_mon(k): v for k, v in p.items()})


def read(x):
    """model value of an object, as a polynomial"""
    if isinstance(x, rp.Monomial):
        return {parse_mon(str(x)): F(1)}
    if isinstance(x, rp.PolynomialScalar):
        return parse_poly(str(x))
    return norm({ONE: F(x)})


X1, X2, Y, X10 = (("x1", 1),), (("x2", 1),), (("y0", 1),), (("x10", 1),)
MONS = [ONE, X1, X2, (("x1", 2),), (("x1", 1), ("x2", 1)), (("x2", 3),), Y, (("x10", 1), ("y3", 2)), (("a7", 1), ("x1", 1), ("x2", 2))]
POLYS = [{}, {ONE: F(1)}, {ONE: F(-2, 3)}, {X1: F(1)}, {X1: F(2), X2: F(-1)}, {X1: F(1), ONE: F(1)}, {X1: F(-1), ONE: F(1)},
         {(("x1", 1), ("x2", 1)): F(1), (("x1", 2),): F(-1, 2)}, {X2: F(5, 7), Y: F(1), X10: F(-3), ONE: F(9)}]
SCALS = [0, 1, -2, 3, 0.5, -0.25, 0.0, F(2, 3), F(-7, 5), 2 ** 62, -2 ** 63, 10 ** 15, 1e300, 2 ** 63, 10 ** 40, F(3, 10 ** 30), -(10 ** 25)]

_inc = ctypes.pythonapi.Py_IncRef
_inc.argtypes = [ctypes.py_object]


def kind(x):
    return "mon" if isinstance(x, rp.Monomial) else "poly" if isinstance(x, rp.PolynomialScalar) else "num"


def wellformed(x, want, key, what):
    """x is a monomial or polynomial with the value want, by every accessor"""
    ok, why = True, ""
    try:
        got = read(x)
        if got != want:
            ok, why = False, f"is {x}"
        elif isinstance(x, rp.PolynomialScalar):
            d = max([deg(k) for k in want], default=0)
            if len(x) != len(want): ok, why = False, f"len {len(x)}"
            elif bool(x) != bool(want): ok, why = False, f"bool {bool(x)}"
            elif want and x.degree() != d: ok, why = False, f"degree {x.degree()} of {x}"
            elif not (x == mk_poly(want)) or x != mk_poly(want): ok, why = False, f"unequal to {mk_poly(want)}"
            else:
                for m in list(want) + [ONE, X1]:
                    c = x[mk_mon(m)]
                    if F(str(c)) != want.get(m, 0): ok, why = False, f"coefficient of {mk_mon(m)} is {c}"
        else:
            (m,) = want
            if len(x) != len(m) or bool(x) != bool(m): ok, why = False, f"len {len(x)} bool {bool(x)}"
            elif not (x == mk_mon(m)) or hash(x) != hash(mk_mon(m)): ok, why = False, f"differs from {mk_mon(m)!r}"
            elif any(x[n] != dict(m).get(n, 0) for n in ("x1", "x2", "x10", "y0", "y3", "a7", "z")): ok, why = False, f"powers of {x}"
    except Exception as e:
        ok, why = False, f"{type(e).__name__}: {e}"
    return R.check(ok, key, lambda: f"{what}: {why}; expected {want}")


def attempt(f):
    try:
        return f(), None
    except Exception as e:
        return None, e


OPS = {"+": (operator.add, operator.iadd, lambda p, q: padd(p, q)), "-": (operator.sub, operator.isub, lambda p, q: padd(p, q, -1)),
       "*": (operator.mul, operator.imul, pmul)}


def binary():
    """every operator on every pair of operands, in-place and not; operands are left as they were and keep their references"""
    pool = [(mk_mon, {m: F(1)}, m) for m in MONS] + [(mk_poly, p, p) for p in POLYS] + [(lambda s: s, norm({ONE: F(s)}), s) for s in SCALS]
    for (i, (mkA, a, argA)), (j, (mkB, b, argB)) in itertools.product(enumerate(pool), repeat=2):
        if not R.mine(): continue
        A, B = mkA(argA), mkB(argB)
        ka, kb = kind(A), kind(B)
        if ka == kb == "num": continue
        for op, (fn, ifn, mdl) in OPS.items():
            what = f"{A!r} {op} {B!r}"
            R.at("b04 " + what); R.state()
            want = mdl(a, b)
            x, e = attempt(lambda: fn(A, B))
            key = f"binary:{ka}{op}{kb}"
            if e is not None:
                R.viol(key, f"{what} raised {type(e).__name__}: {e}")
            else:
                mono = ka == kb == "mon" and op == "*"
                R.check(isinstance(x, rp.Monomial if mono else rp.PolynomialScalar), key + ":type", lambda: f"{what} is a {type(x).__name__}")
                wellformed(x, want, key, what)
                R.check(x is not A and x is not B, key + ":fresh", lambda: f"{what} is one of its operands")
            if ka != "num": wellformed(A, a, key + ":operand", f"left operand after {what}")
            if kb != "num": wellformed(B, b, key + ":operand", f"right operand after {what}")
            # in place, with a second reference to the object
            if ka == "num": continue
            C = mkA(argA)
            also = C
            n0 = sys.getrefcount(also)
            C, e = attempt(lambda: ifn(also, B))
            key = f"inplace:{ka}{op}={kb}"
            if e is not None:
                R.viol(key, f"in place {what} raised {type(e).__name__}: {e}")
                continue
            n1, exp = sys.getrefcount(also), n0
            # n0 counted C as well; if another object came back C no longer refers to `also`
            if C is not also: exp -= 1
            R.check(n1 == exp, key + ":references", lambda: f"in place {what}: {n1} references to the object, expected {exp}")
            for _ in range(max(0, exp - n1)): _inc(also)
            wellformed(C, want, key, f"in place {what}")
            if C is not also: wellformed(also, a, key + ":other", f"the object before in place {what}")
            if kb != "num": wellformed(B, b, key + ":operand", f"right operand after in place {what}")
        # division by scalars
        if kb == "num" and ka != "num":
            for name, fn in (("/", operator.truediv), ("/=", operator.itruediv)):
                C = mkA(argA); also = C
                n0 = sys.getrefcount(also)
                what = f"{C!r} {name} {B!r}"
                R.at("b04 " + what); R.state()
                C, e = attempt(lambda: fn(also, B))
                key = f"div:{ka}{name}"
                if B == 0:
                    R.check(isinstance(e, ArithmeticError), key + ":zero", lambda: f"{what} gave {C!r} {e!r}")
                    wellformed(also, a, key + ":operand", f"left operand after {what}")
                    continue
                if e is not None:
                    R.viol(key, f"{what} raised {type(e).__name__}: {e}"); continue
                n1, exp = sys.getrefcount(also), n0 - (C is not also)
                R.check(n1 == exp, key + ":references", lambda: f"{what}: {n1} references to the object, expected {exp}")
                for _ in range(max(0, exp - n1)): _inc(also)
                wellformed(C, {k: v / F(B) for k, v in a.items()}, key, what)
                if name == "/": wellformed(also, a, key + ":operand", f"left operand after {what}")


def unary():
    for mk, a, arg in [(mk_mon, {m: F(1)}, m) for m in MONS] + [(mk_poly, p, p) for p in POLYS]:
        if not R.mine(): continue
        A = mk(arg); k = kind(A)
        R.at(f"b04 unary {A!r}"); R.state()
        wellformed(A, a, f"make:{k}", f"{A!r}")
        for s, fn in ((-1, operator.neg), (1, operator.pos)):
            x, e = attempt(lambda: fn(A))
            if e is not None: R.viol(f"unary:{k}", f"{fn.__name__} {A!r} raised {e!r}"); continue
            wellformed(x, {m: s * v for m, v in a.items()}, f"unary:{k}:{fn.__name__}", f"{fn.__name__} {A!r}")
            R.check(x is not A, f"unary:{k}:fresh", lambda: f"{fn.__name__} {A!r} is its operand")
        for n in range(5):
            for fn in (operator.pow, operator.ipow):
                C = mk(arg); also = C
                n0 = sys.getrefcount(also)
                R.at(f"b04 {C!r} {fn.__name__} {n}"); R.state()
                C, e = attempt(lambda: fn(also, n))
                key = f"pow:{k}:{fn.__name__}"
                if e is not None:
                    R.viol(key, f"{also!r} {fn.__name__} {n} raised {type(e).__name__}: {e}")
                    wellformed(also, a, key + ":operand", f"{A!r} after {fn.__name__} {n}")
                    continue
                n1, exp = sys.getrefcount(also), n0 - (C is not also)
                R.check(n1 == exp, key + ":references", lambda: f"{A!r} {fn.__name__} {n}: {n1} references, expected {exp}")
                for _ in range(max(0, exp - n1)): _inc(also)
                wellformed(C, ppow(a, n), key, f"{A!r} {fn.__name__} {n}")
                if C is not also: wellformed(also, a, key + ":operand", f"{A!r} after {fn.__name__} {n}")
        for fn in (operator.pow, operator.ipow):
            C = mk(arg)
            x, e = attempt(lambda: fn(C, -1))
            R.check(isinstance(e, ValueError), f"pow:{k}:negative", lambda: f"{A!r} {fn.__name__} -1 gave {x!r} {e!r}")
            wellformed(C, a, f"pow:{k}:negative:operand", f"{A!r} after {fn.__name__} -1")
        for bad in ("x", None, [], object(), math.inf, math.nan):
            for op, (fn, ifn, _) in OPS.items():
                for f in (lambda: fn(A, bad), lambda: fn(bad, A), lambda: ifn(A, bad)):
                    if op == "*" and isinstance(bad, (str, list)): pass
                    x, e = attempt(f)
                    R.check(isinstance(e, TypeError), f"refuse:{k}", lambda: f"{A!r} {op} {bad!r} gave {x!r} {e!r}")
        wellformed(A, a, f"refuse:{k}:operand", f"{A!r} after refused operations")


def order():
    """monomials: equality, hash and a total order, by degree first"""
    all_ = [tuple((n, e) for n, e in zip(("a1", "x1", "x2"), es) if e) for es in itertools.product(range(4), repeat=3)]
    objs = [mk_mon(m) for m in all_]
    for i, (m, A) in enumerate(zip(all_, objs)):
        if not R.mine(): continue
        below = 0
        for n, B in zip(all_, objs):
            R.at(f"b04 order {A!r} {B!r}"); R.state()
            c = [A < B, A == B, A > B]
            R.check(sum(c) == 1 and c[1] == (m == n) and (A <= B) == (c[0] or c[1]) and (A >= B) == (c[1] or c[2]) and (A != B) != c[1],
                    "order:trichotomy", lambda: f"{A!r} and {B!r}: < == > are {c}")
            if deg(m) != deg(n): R.check(c[0] == (deg(m) < deg(n)), "order:degree", lambda: f"{A!r} < {B!r} is {c[0]}")
            if c[1]: R.check(hash(A) == hash(B), "order:hash", lambda: f"hash of {A!r}")
            below += c[2]
        # transitive: the number of smaller ones is the place in the order
        R.check(sorted(objs).index(A) == below, "order:transitive", lambda: f"{A!r}: {below} smaller")
        R.check(str(A) == " ".join(n + (f"^{e}" if e > 1 else "") for n, e in m), "print:mon", lambda: f"{m} prints as {A}")
        R.check(repr(A) == f"Monomial({A})", "print:mon", lambda: f"{m} is shown as {A!r}")


def construct():
    """every way of naming a monomial or a polynomial"""
    names = ("x1", "x2", "y0")
    for n in range(4):
        for word in itertools.product(names, repeat=n):
            if not R.mine(): continue
            want = ONE
            for w in word: want = mmul(want, ((w, 1),))
            R.at(f"b04 construct {word}"); R.state()
            ways = [("list", lambda: rp.Monomial(list(word))), ("tuple", lambda: rp.Monomial(tuple(word))), ("pairs", lambda: rp.Monomial([(w, 1) for w in word])),
                    ("mixed", lambda: rp.Monomial([w if i % 2 else (w, 1) for i, w in enumerate(word)])), ("product", lambda: math.prod([rp.Monomial(w) for w in word], start=rp.Monomial()))]
            ways += [("dict", lambda: rp.Monomial(dict(want))), ("kwargs", lambda: rp.Monomial(**dict(want)))]
            if len(want) == 1: ways.append(("pair", lambda: rp.Monomial(*want[0])))
            if n == 1: ways.append(("str", lambda: rp.Monomial(word[0])))
            if n == 0: ways.append(("none", lambda: rp.Monomial()))
            for name, f in ways:
                x, e = attempt(f)
                if e is not None: R.viol("construct:mon:" + name, f"{word} by {name} raised {e!r}")
                else: wellformed(x, {want: F(1)}, "construct:mon:" + name, f"{word} by {name}")
            # item assignment sets one power
            for nm in names:
                for e_ in (1, 2, 5):
                    x = mk_mon(want); d = dict(want); d[nm] = e_
                    _, e = attempt(lambda: operator.setitem(x, nm, e_))
                    if e is not None: R.viol("setitem:mon", f"{want} [{nm}] = {e_} raised {e!r}")
                    else: wellformed(x, {tuple(sorted(d.items())): F(1)}, "setitem:mon", f"{want} [{nm}] = {e_}")
    if R.mine():
        for bad in ("", "1x", "x1y", "_", 3, None, [3], [None], [("x1",)], [("x1", 1, 2)], [("x1", "x2")], [(1, "x1")], {"x1": "x"}, {"x1": 1.5}, {"1": 2}):
            x, e = attempt(lambda: rp.Monomial(bad))
            R.check(isinstance(e, (TypeError, ValueError)), "construct:mon:refuse", lambda: f"Monomial({bad!r}) gave {x!r} {e!r}")
        for args in (("x1", 1, 2), ("x1", "x2"), (1, "x1"), ("x1", 1.5)):
            x, e = attempt(lambda: rp.Monomial(*args))
            R.check(isinstance(e, (TypeError, ValueError)), "construct:mon:refuse", lambda: f"Monomial{args!r} gave {x!r} {e!r}")
        m = rp.Monomial("x1")
        for f in (lambda: operator.setitem(m, 3, 1), lambda: operator.setitem(m, "x1", "a"), lambda: operator.setitem(m, "", 1), lambda: m[3], lambda: m[""], lambda: operator.delitem(m, "x1"), lambda: operator.delitem(m, "x2")):
            R.at("b04 refused monomial item access")
            x, e = attempt(f)
            R.check(isinstance(e, (TypeError, ValueError)), "setitem:mon:refuse", lambda: f"gave {x!r} {e!r}")
        wellformed(m, {X1: F(1)}, "setitem:mon:refuse", "a monomial after refused assignments")
        for bad in ("x", None, [], {"x1": 1}, {rp.Monomial("x1"): "a"}):
            x, e = attempt(lambda: rp.PolynomialScalar(bad))
            R.check(isinstance(e, (TypeError, ValueError)), "construct:poly:refuse", lambda: f"PolynomialScalar({bad!r}) gave {x!r} {e!r}")
        for args in ((m, "a"), ("x1", 1), (m, 1, 2)):
            x, e = attempt(lambda: rp.PolynomialScalar(*args))
            R.check(isinstance(e, (TypeError, ValueError)), "construct:poly:refuse", lambda: f"PolynomialScalar{args!r} gave {x!r} {e!r}")
    for m in MONS:
        if not R.mine(): continue
        for s in SCALS:
            R.at(f"b04 PolynomialScalar({m}, {s})"); R.state()
            for name, f, want in (("pair", lambda: rp.PolynomialScalar(mk_mon(m), s), norm({m: F(s)})), ("dict", lambda: rp.PolynomialScalar({mk_mon(m): s}), norm({m: F(s)})),
                                  ("number", lambda: rp.PolynomialScalar(s), norm({ONE: F(s)})), ("mon", lambda: rp.PolynomialScalar(mk_mon(m)), {m: F(1)}), ("none", lambda: rp.PolynomialScalar(), {})):
                x, e = attempt(f)
                if e is not None: R.viol("construct:poly:" + name, f"{m} {s} raised {e!r}")
                else: wellformed(x, want, "construct:poly:" + name, f"{name} of {mk_mon(m)!r}, {s}")
        # coefficient assignment
        for p in POLYS:
            for s in SCALS:
                x = mk_poly(p); want = norm({**p, m: F(s)})
                R.at(f"b04 {x} [{m}] = {s}"); R.state()
                _, e = attempt(lambda: operator.setitem(x, mk_mon(m), s))
                if e is not None: R.viol("setitem:poly", f"{x} [{mk_mon(m)}] = {s} raised {e!r}")
                else: wellformed(x, want, "setitem:poly", f"{mk_poly(p)} [{mk_mon(m)}] = {s}")
            for i, bad in ((mk_mon(m), "a"), (mk_mon(m), None), (3, 1), (None, 1), ("", 1)):
                x = mk_poly(p)
                _, e = attempt(lambda: operator.setitem(x, i, bad))
                R.check(isinstance(e, (TypeError, ValueError)), "setitem:poly:refuse", lambda: f"{x} [{i!r}] = {bad!r} gave {e!r}")
                wellformed(x, p, "setitem:poly:refuse", f"{x} after refused [{i!r}] = {bad!r}")
            x = mk_poly(p)
            R.at(f"b04 del {x} [{m}]")
            _, e = attempt(lambda: operator.delitem(x, mk_mon(m)))
            R.check(isinstance(e, TypeError), "setitem:poly:refuse", lambda: f"del {x}[{m}] gave {e!r}")
            wellformed(x, p, "setitem:poly:refuse", f"{x} after refused del")
    for s in range(1 << len(MONS)):       # every polynomial supported on the monomials: reading and printing
        if not R.mine() or bin(s).count("1") > (9 if R.thorough else 4): continue
        p = {m: F(i + 1, 3 if i % 2 else 1) * (-1) ** i for i, m in enumerate(MONS) if s >> i & 1}
        R.at(f"b04 poly {p}"); R.state()
        wellformed(mk_poly(p), p, "construct:poly:dict", "a polynomial from a dictionary")


def histories():
    """all sequences of in-place operations on two polynomials and a monomial, with a second name for one of them"""
    depth = 5 if R.thorough else 4
    steps = ["p+=q", "p-=q", "p*=q", "p/=2", "q+=m", "q*=m", "m*=n", "q=p", "p=+p", "p+=p", "p-=p", "m*=m"]
    for h in itertools.product(steps, repeat=depth):
        if not R.mine(): continue
        R.at("b04 history " + " ".join(h)); R.state(); R.step(depth)
        o = {"p": mk_poly(POLYS[4]), "q": mk_poly(POLYS[5]), "m": mk_mon(X1), "n": mk_mon(X2)}
        v = {"p": [dict(POLYS[4])], "q": [dict(POLYS[5])], "m": [{X1: F(1)}], "n": [{X2: F(1)}]}   # boxes: names of one object share a box
        try:
            for s in h:
                if len(v["p"][0]) > 60: break
                if s == "q=p": o["q"], v["q"] = o["p"], v["p"]
                elif s == "p=+p": o["p"], v["p"] = +o["p"], [dict(v["p"][0])]
                else:
                    l, op, r = s[0], s[1], s[3]
                    if op == "/":
                        new, val = operator.itruediv(o[l], 2), {k: c / 2 for k, c in v[l][0].items()}
                    else:
                        new, val = OPS[op][1](o[l], o[r]), OPS[op][2](v[l][0], v[r][0])
                    if new is o[l]: v[l][0] = val
                    else: v[l] = [val]
                    o[l] = new
        except Exception as e:
            R.viol("history", f"{h} raised {e!r}"); continue
        for k in o:
            got = read(o[k])
            R.check(got == v[k][0], "history", lambda: f"after {h} {k} is {o[k]}, expected {v[k][0]}")


# ---------------------------------------------------------------- scalars
CTX = {n: rp.get_context(2, 2, t) for n, t in (("DP", rp.DPReal), ("SP", rp.SPReal), ("RAT", rp.Rational))}
TYPENAME = {"DP": "DPReal", "SP": "SPReal", "RAT": "Rational"}
TOL = {"DP": F(1, 10 ** 14), "SP": F(1, 10 ** 6), "RAT": F(0)}
SVALS = [F(0), F(1), F(-1), F(2), F(3, 4), F(-5, 2), F(1, 8), F(100), F(-7), F(1, 1024), F(2 ** 20 + 1), F(-(2 ** 20) - 1, 64)]
WORD = rp.TensorKey(1, width=2, depth=2)


def rep(t, v):
    """the coefficient the type t holds for v, as a fraction"""
    return v if t == "RAT" else F(float(v)) if t == "DP" else F(float(np.float32(float(v))))


def element(t, v, alg, vt):
    c = v.numerator if v.denominator == 1 else float(v)
    d = {WORD: c} if alg is not rp.Lie else {rp.LieKey(1, width=2, depth=2): c}
    if alg is rp.Lie:
        return rp.Lie([c, 0], ctx=CTX[t])
    return alg(d, ctx=CTX[t], vector_type=vt)


SOURCES = ("item", "position", "shuffle", "lie", "liekey", "sparse", "iterator", "sum", "product", "negation")


def scalar(t, v, how="item"):
    """a Scalar with value v read from an algebra element that no longer exists"""
    if how == "item": return element(t, v, rp.FreeTensor, rp.DenseVector)[WORD]
    if how == "position": return element(t, v, rp.FreeTensor, rp.DenseVector)[1]
    if how == "sparse": return element(t, v, rp.FreeTensor, rp.SparseVector)[WORD]
    if how == "shuffle": return element(t, v, rp.ShuffleTensor, rp.DenseVector)[WORD]
    if how == "lie": return element(t, v, rp.Lie, None)[1]
    if how == "liekey": return element(t, v, rp.Lie, None)[rp.LieKey(1, width=2, depth=2)]
    if how == "sum": return scalar(t, v + 1) + scalar(t, F(-1))
    if how == "product": return scalar(t, v / 2) * scalar(t, F(2))
    if how == "negation": return -scalar(t, -v)
    if how == "iterator":
        l = [i for i in element(t, v, rp.FreeTensor, rp.DenseVector) if i.key() == WORD]
        return l[0].value() if l else scalar(t, v)


def churn():
    """reuse freed memory"""
    return [rp.FreeTensor([17, 18 + i, 19, 20, 21, 22, 23], ctx=CTX["RAT"], vector_type=vt) for i in range(6) for vt in (rp.DenseVector, rp.SparseVector)]


def sread(s):
    x = str(s)
    return F(x) if "/" in x or "e" not in x.lower() else F(float(x))


def near(a, b, tol):
    return a == b or abs(a - b) <= tol * max(abs(a), abs(b), 1 if tol else 0)


def is_scalar(s, t, v, key, what):
    """s is a Scalar of type t (None for any) with value v"""
    ok, why = True, ""
    try:
        tol = TOL[t] if t else TOL["SP"]
        f = float(v) if abs(v) < F(2) ** 1000 else math.inf
        if not isinstance(s, rp.Scalar): ok, why = False, f"is a {type(s)}"
        elif t and f"type={TYPENAME[t]}," not in repr(s) and v: ok, why = False, f"repr {s!r}"
        elif repr(s).split("approx ")[-1] != f"{s})": ok, why = False, f"repr {s!r} of {s}"
        elif not near(F(s.to_float()), v, max(tol, TOL["DP"])): ok, why = False, f"to_float {s.to_float()}"
        elif t == "RAT" and sread(s) != v: ok, why = False, f"prints {s}"
        elif not near(sread(s), v, F(1, 10 ** 5)): ok, why = False, f"prints {s}"
        elif t in ("DP", "SP") and s.scalar_type() is not float: ok, why = False, f"type {s.scalar_type()}"
        elif tol == 0 and t == "RAT" and (v.denominator & (v.denominator - 1)) == 0 and F(f) == v and not (s == f): ok, why = False, f"differs from {f}"
    except Exception as e:
        ok, why = False, f"{type(e).__name__}: {e}"
    return R.check(ok, key, lambda: f"{what}: {why}; expected {v} of type {t}")


def div(a, b):
    return a / b


SOPS = {"+": (operator.add, operator.iadd, lambda a, b: a + b), "-": (operator.sub, operator.isub, lambda a, b: a - b),
        "*": (operator.mul, operator.imul, lambda a, b: a * b), "/": (operator.truediv, operator.itruediv, div)}


def partners(t):
    """what a Scalar of type t meets: (name, maker, exact value)"""
    for v in SVALS:
        yield "scalar", lambda v=v: scalar(t, v), v
        yield "float", lambda v=v: float(v), v
        yield "fraction", lambda v=v: v, v
        if v.denominator == 1:
            yield "int", lambda v=v: int(v), v
    yield "float", lambda: -0.0, F(0)
    yield "bool", lambda: True, F(1)
    if t == "RAT":
        for v in (2 ** 62 + 1, -(2 ** 63), 2 ** 53 + 1, -(2 ** 62) - 3):
            yield "int", lambda v=v: v, F(v)
            yield "float", lambda v=v: float(v), F(float(v))
        yield "int", lambda: 2 ** 70, F(2 ** 70)


def b05():
    for t in CTX:
        for v in SVALS:
            for how in SOURCES:
                if not R.mine(): continue
                R.state(); R.at(f"{t} {v} from {how}")
                s = scalar(t, v, how)
                keep = churn()
                is_scalar(s, t, v, f"source {how}", f"{v} read by {how}")
                is_scalar(-s, t, -v, f"negation {how}", f"-({v}) of {how}")
                is_scalar(s, t, v, f"source {how}", f"{v} read by {how}, after negation")
                del keep
            # a coefficient is a value: neither side of a later change sees the other
            for alg, vt in ((rp.FreeTensor, rp.DenseVector), (rp.FreeTensor, rp.SparseVector), (rp.ShuffleTensor, rp.DenseVector), (rp.Lie, None)):
                if not R.mine(): continue
                R.state(); R.at(f"{t} {v} independence {alg.__name__}")
                x = element(t, v, alg, vt)
                key = WORD if alg is not rp.Lie else rp.LieKey(1, width=2, depth=2)
                s = x[key]
                for i, change in enumerate((lambda: operator.iadd(x, element(t, F(3), alg, vt)), lambda: operator.imul(x, 2), lambda: operator.isub(x, x))):
                    change()
                    keep = churn()
                    is_scalar(s, t, v, "independence", f"coefficient {v} of a {alg.__name__} after change {i} to it")
                y = element(t, v + 1, alg, vt)
                s = y[key]
                s2, err = attempt(lambda: operator.iadd(s, 5))
                if err is None: is_scalar(s2, t, v + 6, "independence", f"{v + 1} += 5")
                else: R.check(v + 1 == 0, "independence", lambda: f"{v + 1} += 5 raised {err!r}")
                is_scalar(y[key], t, v + 1, "independence", f"coefficient {v + 1} after a change to a Scalar read from it")
        for a in SVALS:
            for name, mk, b in partners(t):
                for o, (bop, iop, model) in SOPS.items():
                    if not R.mine(): continue
                    R.state(); R.at(f"{t} {a} {o} {name} {b}")
                    k = f"{o} {name}"
                    ra, rb = rep(t, a), rep(t, b)
                    rt = t if name == "scalar" or t == "RAT" and b else None  # numbers keep their own type, if they must
                    s, p = scalar(t, a), mk()
                    R.step(4)
                    for left in (True, False):
                        u, w = (ra, rb) if left else (rb, ra)
                        r, err = attempt(lambda: bop(s, p) if left else bop(p, s))
                        if o == "/" and w == 0:
                            R.check(isinstance(err, (ValueError, ZeroDivisionError)), k, lambda: f"{u} / {w} gave {r!r} {err!r}")
                        elif err is not None:
                            R.viol(k, f"{u} {o} {w} ({name}, {t}, scalar {'first' if left else 'last'}) raised {err!r}")
                        else:
                            is_scalar(r, rt, model(u, w), k, f"{u} {o} {w} ({name}, {t}, scalar {'first' if left else 'last'})")
                    is_scalar(s, t, a, k, f"{a} after {o} with {b}")
                    if name == "scalar": is_scalar(p, t, b, k, f"{b} after {o} with {a}")
                    # in place, on a Scalar that owns its value
                    s = scalar(t, a, "sum")
                    r, err = attempt(lambda: iop(s, p))
                    if o == "/" and rb == 0:
                        R.check(isinstance(err, (ValueError, ZeroDivisionError)), k, lambda: f"{a} /= {b} gave {r!r} {err!r}")
                        is_scalar(s, t, a, k, f"{a} after refusing /= {b}")
                    elif err is not None:
                        R.viol(k, f"{a} {o}= {b} ({name}, {t}) raised {err!r}")
                    else:
                        is_scalar(r, rt, model(ra, rb), k, f"{a} {o}= {b} ({name}, {t})")
                        is_scalar(s, rt, model(ra, rb), k, f"the object of {a} {o}= {b} ({name}, {t})")
                    if name == "scalar": is_scalar(p, t, b, k, f"{b} after {o}= on {a}")
                if not R.mine(): continue
                ra, rb = rep(t, a), rep(t, b)
                s, p = scalar(t, a), mk()
                for l, r, side in ((s, p, "first"), (p, s, "last")):
                    R.check((l == r) is (ra == rb) and (l != r) is (ra != rb), f"equality {name}",
                            lambda: f"{a} and {b} ({name}, {t}, scalar {side}): == {l == r} != {l != r}")
        # Scalars of different types still have the mathematical values
        for u in CTX:
            if u == t: continue
            for a, b in itertools.product(SVALS[:9], repeat=2):
                for o, (bop, iop, model) in SOPS.items():
                    if o == "/" and b == 0 or not R.mine(): continue
                    R.state(); R.at(f"mixed {t} {a} {o} {u} {b}")
                    r, err = attempt(lambda: bop(scalar(t, a), scalar(u, b)))
                    if err is not None: R.viol("mixed", f"{t} {a} {o} {u} {b} raised {err!r}")
                    else: is_scalar(r, None, model(a, b), "mixed", f"{t} {a} {o} {u} {b}")
                R.check((scalar(t, a) == scalar(u, b)) is (a == b), "mixed", lambda: f"{t} {a} == {u} {b}")
    # histories of operators over two variables that may be one object
    steps = ["q=p", "p=-p"] + [f"{l}{o}={r}" for l in "pq" for o in "+-*/" for r in "pq2"]
    for t in CTX:
        for h in itertools.product(steps, repeat=4 if R.thorough else 3):
            if not R.mine(): continue
            R.state(); R.step(len(h)); R.at(f"{t} history {h}")
            o = {"p": scalar(t, F(3, 2), "sum"), "q": scalar(t, F(-4), "sum")}
            v = {"p": [F(3, 2)], "q": [F(-4)]}
            bad = None
            for s in h:
                try:
                    if s == "q=p": o["q"], v["q"] = o["p"], v["p"]
                    elif s == "p=-p": o["p"], v["p"] = -o["p"], [-v["p"][0]]
                    else:
                        l, op, r = s[0], s[1], s[3]
                        y, yv = (2, F(2)) if r == "2" else (o[r], v[r][0])
                        if op == "/" and yv == 0:
                            if attempt(lambda: operator.itruediv(o[l], y))[1] is None: bad = f"{s} by zero went ahead"; break
                            continue
                        new, val = SOPS[op][1](o[l], y), SOPS[op][2](v[l][0], yv)
                        # an operator works in place, and its result is the object or a copy of it
                        v[l][0] = val
                        if new is not o[l]: v[l] = [val]
                        o[l] = new
                except Exception as e:
                    bad = f"{s} raised {e!r}"; break
            if bad: R.viol("history", f"{t} {h}: {bad}"); continue
            for k in o:
                R.check(near(F(o[k].to_float()), v[k][0], max(TOL[t], TOL["DP"])), "history", lambda: f"after {t} {h} {k} is {o[k]}, expected {v[k][0]}")


if R.mode == "b04":
    unary(); order(); construct(); binary(); histories()
elif R.mode == "b05":
    b05()
R.finish()
