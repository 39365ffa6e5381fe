"""Exact properties of plane shapes, as sums of signed elementary shapes (rectangles and quarter discs).

All functions are with respect to horizontal symmetry axis y of a doubly symmetric shape of height h and width b."""


def rounded(pi, h, b, r):
    """full rectangle h x b with corners rounded to radius r: (A, I about the horizontal centre line, first moment of the upper half)"""
    q = pi * r * r / 4                        # quarter disc
    zq = h / 2 - r + 4 * r / (3 * pi)         # centroid of the quarter disc
    Iq = (pi / 16 - 4 / (9 * pi)) * r ** 4    # its own second moment
    zs = h / 2 - r / 2                        # centroid of the square r x r replaced by it
    A = h * b - 4 * r * r + 4 * q
    I = b * h ** 3 / 12 - 4 * (r ** 4 / 12 + r * r * zs ** 2) + 4 * (Iq + q * zq ** 2)
    S = b * h * h / 8 - 2 * r * r * zs + 2 * q * zq
    return A, I, S


def hollow(pi, h, b, t, r):
    """outer rounded rectangle minus inner one: A, I, Wel, Wpl about the axis parallel to b"""
    Ao, Io, So = rounded(pi, h, b, r)
    Ai, Ii, Si = rounded(pi, h - 2 * t, b - 2 * t, r - t)
    return Ao - Ai, Io - Ii, 2 * (Io - Ii) / h, 2 * (So - Si)


def fillet(pi, r):
    """fillet of radius r: square r x r minus quarter disc centred at the opposite corner: area, distance of centroid from the
    sides, own second moment"""
    q = pi * r * r / 4
    a = r * r - q
    # first moment about a side at the re-entrant corner: r*r*r/2 - q*(r - 4r/(3 pi))
    d = (r ** 3 / 2 - q * (r - 4 * r / (3 * pi))) / a
    I_side = r ** 4 / 3 - ((pi / 16 - 4 / (9 * pi)) * r ** 4 + q * (r - 4 * r / (3 * pi)) ** 2)
    return a, d, I_side - a * d * d
