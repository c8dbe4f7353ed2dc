"""Stand-in for the parts of pygmo that pykep's own tests use."""
import numpy as np


class problem:
    def __init__(self, udp):
        self.udp = udp

    def fitness(self, x):
        return self.udp.fitness(x)


class population:
    def __init__(self, prob, size, seed=1):
        lb, ub = (np.array(b, float) for b in prob.udp.get_bounds())
        xs = np.random.default_rng(seed).uniform(lb, ub, (size, len(lb)))
        fs = [prob.fitness(x)[0] for x in xs]
        self.champion_x = xs[int(np.argmin(fs))]


def estimate_gradient_h(callable, x, dx=1e-2):
    cols = []
    for i in range(len(x)):
        h = dx * max(abs(x[i]), 1e-3)
        f = lambda k: np.asarray(callable([*x[:i], x[i] + k * h, *x[i + 1:]]), float)
        cols.append((-f(-3) / 60 + 3 * f(-2) / 20 - 3 * f(-1) / 4 + 3 * f(1) / 4 - 3 * f(2) / 20 + f(3) / 60) / h)
    return np.array(cols).T.flatten()
