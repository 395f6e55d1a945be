"""Small independent geometry helpers used as oracles."""
import math


class Poly:
    def __init__(self, pts):
        self.pts = [(float(x), float(y)) for x, y in pts]

    def contains(self, q):
        """even-odd rule"""
        x, y = q
        c = False
        n = len(self.pts)
        for i in range(n):
            (x1, y1), (x2, y2) = self.pts[i], self.pts[(i + 1) % n]
            if (y1 > y) != (y2 > y) and x < (x2 - x1) * (y - y1) / (y2 - y1) + x1:
                c = not c
        return c

    def winding(self, q):
        x, y = q
        w = 0
        n = len(self.pts)
        for i in range(n):
            (x1, y1), (x2, y2) = self.pts[i], self.pts[(i + 1) % n]
            s = (x2 - x1) * (y - y1) - (x - x1) * (y2 - y1)
            if y1 <= y < y2 and s > 0:
                w += 1
            elif y2 <= y < y1 and s < 0:
                w -= 1
        return w

    def dist(self, q):
        """distance to the nearest edge"""
        n = len(self.pts)
        return min(seg_dist(q, self.pts[i], self.pts[(i + 1) % n]) for i in range(n))

    def area(self):
        n = len(self.pts)
        return abs(sum(self.pts[i][0] * self.pts[(i + 1) % n][1] - self.pts[(i + 1) % n][0] * self.pts[i][1]
                       for i in range(n))) / 2


def seg_dist(q, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    L = dx * dx + dy * dy
    t = 0.0 if L == 0 else max(0.0, min(1.0, ((q[0] - a[0]) * dx + (q[1] - a[1]) * dy) / L))
    return math.hypot(q[0] - a[0] - t * dx, q[1] - a[1] - t * dy)
