"""Recognise long decimal literals as the exact number they denote."""
from fractions import Fraction
import math
from . import graph as G

_KNOWN = [  # name, float value, builder
    ("pi", math.pi), ("zeta3", 1.2020569031595942854), ("log2", 0.69314718055994530942),
    ("B4", -1.7628000870737708641), ("D3", -3.0270094939876520198), ("DN", 1.1202483970392420823),
    ("OepS2", 7.8517428364255312), ("S2", 0.26043413763216210), ("T1ep", -24.208928021203593),
]

_memo = {}


def recognise(text):
    r = _memo.get(text)
    if r is None:
        r = _memo[text] = _recognise(text)
    return r


def parse(text):
    t = text.replace("'", "").rstrip("fFlL")
    return Fraction(t)


def digits(text):
    t = text.lower().split("e")[0].replace(".", "").replace("'", "").rstrip("fl").lstrip("0")
    return len(t)


def _small(v, tol, maxden=20000):
    f = Fraction(v).limit_denominator(maxden)
    if f == 0:
        return None
    if abs(f - v) <= tol * abs(v) and f.denominator * abs(f.numerator) < 10**11:
        return f
    return None


def K(n):
    return G.var("K:" + n)


def _recognise(text):
    try:
        v = parse(text)
    except ValueError:
        return G.const(Fraction(float.fromhex(text)))
    nd = digits(text)
    if nd < 10:
        return G.const(v)
    tol = Fraction(1, 10 ** min(nd - 1, 15)) * 2
    f = _small(v, tol)
    if f is not None:
        return G.const(f)
    pi = Fraction("3.14159265358979323846264338327950288419716939937510582")
    for k in (2, 1, -1, -2, -4, -6, 4, 3, -3, 6):
        f = _small(v / pi ** k, tol, 4096)
        if f is not None:
            return G.mul(G.const(f), G.powi(K("pi"), k))
    f = _small(v * v, tol * 2, 400)
    if f is not None:
        return G.mul(G.const(1 if v > 0 else -1), G.sqrt(G.const(f)))
    for name, x in _KNOWN[1:]:
        f = _small(v / Fraction(x), Fraction(2, 10**15), 200)
        if f is not None:
            return G.mul(G.const(f), K(name))
    return G.const(v)
