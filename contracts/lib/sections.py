"""Generic steel section with arbitrary properties."""
SS = "metku.sections.steel.steel_section"


def make(c, cls=(1, 1, 1, 1), mods=True):
    """a steel section with arbitrary properties; part classes are the results of the (abstract) part classification"""
    ss = c.mod(SS)

    class Sec(ss.SteelSection):
        def flange_class(self, verb=False):
            return cls[0]

        def web_class_comp(self, verb=False):
            return cls[1]

        def web_class_bend(self, verb=False):
            return cls[2]

        def web_class_comp_bend(self, Ned, verb=False):
            return cls[3]

        def moment_axial_force_interact(self, UN, MRd):
            return MRd * (1 - UN) if not UN > 1 else 0.0

    A = c.real("A", 100, 1e6)
    I = [c.real("Iy", 1e3, 1e10), c.real("Iz", 1e3, 1e10)]
    Wpl = [c.real("Wply", 100, 1e8), c.real("Wplz", 100, 1e8)]
    Wel = [c.real("Wely", 100, 1e8), c.real("Welz", 100, 1e8)]
    Av = [c.real("Avy", 10, 1e6), c.real("Avz", 10, 1e6)]
    Au = c.real("Au", 10, 1e4)
    s = Sec("S355", A, I, Au, Wpl, Wel, Av)
    fy = c.real("fy", 200, 960)
    s.material.fy = fy
    return s, dict(A=A, I=I, Wpl=Wpl, Wel=Wel, Av=Av, Au=Au, fy=fy)
