"""EN 1993-1-1 specification functions, transcribed from the standard."""
ALPHA = {"a0": 0.13, "a": 0.21, "b": 0.34, "c": 0.49, "d": 0.76}


def chi(c, l, a):
    """(6.49): reduction factor for flexural buckling"""
    phi = 0.5 * (1 + a * (l - 0.2) + l * l)
    return c.min(1, 1 / (phi + c.sqrt(phi * phi - l * l)))


def chi_lt(c, l, a, method):
    """(6.56) general case, (6.57) rolled sections"""
    l0, b = (0.2, 1) if method == "general" else (0.4, 0.75)
    if l <= l0:
        return 1
    phi = 0.5 * (1 + a * (l - l0) + b * l * l)
    x = c.min(1, 1 / (phi + c.sqrt(phi * phi - b * l * l)))
    return x if method == "general" else c.min(x, 1 / (l * l))


def kyy(c, n, l, Cm, cls):
    return Cm * (1 + c.min(l - 0.2, 0.8) * n) if cls < 3 else Cm * (1 + c.min(l, 0.6) * n)


def kzz(c, n, l, Cm, cls, profile):
    if cls < 3 and profile != "hollow":
        return Cm * (1 + c.min(2 * l - 0.6, 1.4) * n)
    return kyy(c, n, l, Cm, cls)


def kzy(c, k, n, l, CmLT, cls, torsion):
    if not torsion:
        return 0.6 * k if cls < 3 else 0.8 * k
    if cls < 3:
        x = 1 - 0.1 * c.min(l, 1) / (CmLT - 0.25) * n
        return c.min(0.6 + l, x) if l < 0.4 else x
    return 1 - 0.05 * c.min(l, 1) / (CmLT - 0.25) * n


def cm(c, M1, M2, Ms, load):
    """Table B.3; Ms None: linear diagram"""
    big, small = (M1, M2) if abs(M1) > abs(M2) else (M2, M1)
    psi = 0 if big == 0 else small / big
    if Ms is None or Ms == (M1 + M2) / 2:
        return c.max(0.6 + 0.4 * psi, 0.4)
    u = load == "uniform"
    if big != 0 and abs(Ms) <= abs(big):
        a = Ms / big
        if a >= 0:
            return c.max(0.2 + 0.8 * a, 0.4)
        if psi >= 0:
            return c.max((0.1 if u else 0) - 0.8 * a, 0.4)
        return c.max(0.1 * (1 - psi) - 0.8 * a if u else 0.2 * (-psi) - 0.8 * a, 0.4)
    a = big / Ms
    k0, k1 = (0.95, 0.05) if u else (0.90, 0.10)
    if a >= 0 or psi >= 0:
        return k0 + k1 * a
    return k0 + k1 * a * (1 + 2 * psi)
