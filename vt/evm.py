"""Reference side: EVM memory, calldata and halting, over the symbolic words of bv."""
import bv, host
from check import Halt


class Mem:
    """Byte memory that reads as zero where nothing was written."""

    def __init__(self):
        self.b = {}
        self.high = 0           # bytes touched, as MSIZE counts them

    def touch(self, off, n):
        if n:
            self.high = max(self.high, (off + n + 31) // 32 * 32)

    def load(self, off, n=32):
        self.touch(off, n)
        return [self.b.get(i, 0) for i in range(off, off + n)]

    def word(self, off):
        return bv.from_bytes_be(self.load(off, 32))

    def store(self, off, bs):
        self.touch(off, len(bs))
        for i, x in enumerate(bs):
            self.b[off + i] = x

    def store_word(self, off, v, w=256):
        self.store(off, be_bytes(v, w // 8))

    def copy(self, dst, src, n):
        self.touch(dst, n)
        self.store(dst, self.load(src, n))


def be_bytes(v, n=32):
    return [bv.byte(v, n - 1 - i) for i in range(n)]


def calldata_slice(env, c, off, n):
    """n bytes of calldata from a concrete offset, zero past the end."""
    return [env.calldata_byte(off + i) for i in range(n)]


def finish(bs):
    raise Halt(('finish', list(bs)))


def revert(bs):
    raise Halt(('revert', list(bs)))
