"""
Structured choices from one block of bytes.

Hypothesis draws (and shrinks) the bytes; Src turns them into choices.  Byte 0 always means the simplest choice, so the
byte string Hypothesis minimises is also a small case.  When the bytes run out every further choice is the simplest one.
"""


class Src:
    __slots__ = ('b', 'i')

    def __init__(self, b: bytes):
        self.b, self.i = b, 0

    def byte(self) -> int:
        i = self.i
        if i < len(self.b):
            self.i = i + 1
            return self.b[i]
        return 0

    def n(self, k: int) -> int:                 # 0 <= result < k
        if k <= 1:
            return 0
        if k <= 256:
            return self.byte() * k // 256
        x, span = 0, 1
        while span < k:
            x, span = x * 256 + self.byte(), span * 256
        return x * k // span

    def int(self, lo: int, hi: int) -> int:     # lo <= result <= hi
        return lo + self.n(hi - lo + 1)

    def p(self, pct: int) -> bool:              # True with probability pct%; shrinks to False
        return self.byte() >= 256 - pct * 256 // 100 if pct < 100 else True

    def pick(self, seq):
        return seq[self.n(len(seq))]

    def wpick(self, pairs):                     # [(weight, value), ...]: first is simplest
        total = sum(w for w, _ in pairs)
        x = self.n(total)
        for w, v in pairs:
            if x < w:
                return v
            x -= w
        raise AssertionError

    def shuffle(self, seq: list) -> list:       # zeros leave the order alone
        out, pool = [], list(seq)
        while pool:
            out.append(pool.pop(self.n(len(pool))))
        return out

    def some(self, seq, pct):                   # sub-list
        return [x for x in seq if self.p(pct)]
