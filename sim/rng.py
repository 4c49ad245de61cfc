"""A small, version-independent PRNG (splitmix64), so that one seed means one execution on every interpreter."""

_M = (1 << 64) - 1


def mix(*parts):
    """Hashes integers and strings to a 64 bits seed."""
    h = 0x9E3779B97F4A7C15
    for p in parts:
        if isinstance(p, str):
            v = 1469598103934665603
            for c in p.encode():
                v = ((v ^ c) * 1099511628211) & _M
        else:
            v = p & _M
        h = (h ^ v) & _M
        h = (h + 0x9E3779B97F4A7C15) & _M
        h = ((h ^ (h >> 30)) * 0xBF58476D1CE4E5B9) & _M
        h = ((h ^ (h >> 27)) * 0x94D049BB133111EB) & _M
        h ^= h >> 31
    return h


class Rng:
    def __init__(self, *seed):
        self.s = mix(*seed)

    def u64(self):
        self.s = (self.s + 0x9E3779B97F4A7C15) & _M
        z = self.s
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & _M
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & _M
        return z ^ (z >> 31)

    def below(self, n):
        return self.u64() % n if n > 0 else 0

    def randint(self, a, b):
        """a <= x <= b"""
        return a + self.below(b - a + 1)

    def random(self):
        return (self.u64() >> 11) / float(1 << 53)

    def chance(self, p):
        return self.random() < p

    def choice(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)]"""
        total = sum(w for w, _ in pairs)
        x = self.random() * total
        for w, v in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][1]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = self.below(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def sample(self, seq, k):
        return self.shuffle(seq)[:k]

    def loguniform(self, a, b):
        """An integer of a <= x <= b, small ones being likelier."""
        import math
        return min(b, max(a, int(math.exp(math.log(a) + self.random() * (math.log(b + 1) - math.log(a))))))

    def fork(self, *label):
        return Rng(self.u64(), *label)
