"""Control of the random draws: every draw that goes through the `random` module's
global generator is answered by a tape."""
import contextlib
import random

MODES = ["lo", "hi", "mid", "rand", "mix", "alt"]


class Tape(random.Random):
    _tape = None

    def random(self):
        return self._tape.unit()

    def getrandbits(self, k):
        return self._tape.below(1 << k) if k else 0

    def _randbelow(self, n):
        return self._tape.below(n) if n > 0 else 0


class Draws:
    def __init__(self, mode, seed):
        self.mode, self.r, self.n = mode, random.Random(seed), 0

    def pick(self):
        self.n += 1
        if self.mode == "alt":
            return "lo" if self.n % 2 else "hi"
        if self.mode == "mix":
            return self.r.choice(["lo", "hi", "rand"])
        return self.mode

    def below(self, n):
        m = self.pick()
        return 0 if m == "lo" else n - 1 if m == "hi" else n // 2 if m == "mid" else self.r.randrange(n)

    def unit(self):
        m = self.pick()
        return 0.0 if m == "lo" else 1 - 2.0**-53 if m == "hi" else .5 if m == "mid" else self.r.random()


class Script(Draws):
    """The base outcome at every draw except where the script deviates.  A draw from a range of up to SMALL
    has all its outcomes as branches, a larger one its ends, their neighbours and the middle."""
    SMALL = 6

    def __init__(self, high, deviations):
        self.high, self.dev, self.n, self.sizes, self.whole = high, deviations, 0, [], True

    def branches(self, n):
        if n <= self.SMALL:
            return range(n)
        self.whole = False
        return [0, 1, n // 2, n - 2, n - 1]

    def choose(self, outcomes):
        i = self.dev.get(self.n, 0)
        self.sizes.append(len(outcomes))
        self.n += 1
        # past the branches the code under test has led elsewhere
        return outcomes[(i if not self.high else len(outcomes) - 1 - i) if i < len(outcomes) else 0]

    def below(self, n):
        return self.choose(self.branches(n))

    def unit(self):
        self.whole = False
        return self.choose([0.0, 2.0**-53, .5, 1 - 2.0**-53])


def walk(run, budget, seed):
    """run(script) under the outcomes of the draws, fewest deviations from the all-lowest and all-highest ones
    first; True if every outcome was gone through."""
    r = random.Random(seed)
    level, n, whole = [(False, {}), (True, {})], 0, True
    while level:
        r.shuffle(level)
        deeper = []
        for high, dev in level:
            if n == budget:
                return False
            n += 1
            t = Script(high, dev)
            run(t)
            whole = whole and t.whole
            if len(deeper) < 8 * budget:
                for i in range(max(dev, default=-1) + 1, t.n):
                    deeper += [(high, {**dev, i: j}) for j in range(1, t.sizes[i])]
            else:
                whole = False
        level = deeper
    return whole


@contextlib.contextmanager
def tape(mode, seed=0):
    inst = random._inst
    old_cls, old = inst.__class__, (random.random, random.getrandbits)
    inst.__class__ = Tape
    inst._tape = mode if isinstance(mode, Draws) else Draws(mode, seed)
    random.random, random.getrandbits = inst.random, inst.getrandbits
    try:
        yield inst._tape
    finally:
        inst.__class__ = old_cls
        random.random, random.getrandbits = old
        del inst._tape
