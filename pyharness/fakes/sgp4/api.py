"""Stand-in for sgp4: satellites on made-up orbits, with the interface of the sgp4 package."""
import math

import numpy as np


class Satrec:
    @classmethod
    def twoline2rv(cls, line1, line2, whichconst=None):
        s = cls()
        s.lines = (line1.rstrip("\n"), line2.rstrip("\n"))
        s.satnum_str = line1[2:7].strip()
        yy = int(line1[18:20])
        year = yy + (1900 if yy >= 57 else 2000)
        days = float(line1[20:32])
        jan0 = 367 * year - (7 * year) // 4 + 30 + 1721013.5  # 31 December of the year before
        s.jdsatepoch = jan0 + int(days)
        s.jdsatepochF = days - int(days)
        s.incl = math.radians(float(line2[8:16]))
        s.mo = math.radians(float(line2[43:51]))
        s.n = float(line2[52:63]) * 2 * math.pi / 1440.  # rad/min
        s.a = (398600.8 / (s.n / 60) ** 2) ** (1 / 3)
        return s

    def sgp4(self, jd, fr):
        if jd != math.floor(jd) and jd != math.floor(jd) + 0.5:
            raise ValueError("stand-in: the first part of the date is no whole or half day")
        m = ((jd - self.jdsatepoch) + (fr - self.jdsatepochF)) * 1440.
        if abs(m) > 5e8:
            return 1, (math.nan,) * 3, (math.nan,) * 3
        t = self.mo + self.n * m
        c, s, ci, si = math.cos(t), math.sin(t), math.cos(self.incl), math.sin(self.incl)
        w = self.n / 60 * self.a
        return 0, (self.a * c, self.a * s * ci, self.a * s * si), (-w * s, w * c * ci, w * c * si)

    def sgp4_array(self, jd, fr):
        jd, fr = np.asarray(jd, dtype="float64"), np.asarray(fr, dtype="float64")
        if jd.ndim != 1 or jd.shape != fr.shape:
            raise ValueError("stand-in: shapes")
        x = [self.sgp4(a, b) for a, b in zip(jd, fr)]
        return (np.array([i[0] for i in x], dtype="uint8"), np.array([i[1] for i in x]).reshape(-1, 3),
                np.array([i[2] for i in x]).reshape(-1, 3))
