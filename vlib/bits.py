"""most significant bit first bit strings, independent of bitstruct"""


class Bits:
    def __init__(self):
        self.v = 0
        self.n = 0

    def u(self, x, n):
        x = int(x)
        if not 0 <= x < (1 << n):
            raise ValueError('%d does not fit u%d' % (x, n))
        self.v = (self.v << n) | x
        self.n += n
        return self

    def s(self, x, n):
        x = int(x)
        if not -(1 << (n-1)) <= x < (1 << (n-1)):
            raise ValueError('%d does not fit s%d' % (x, n))
        return self.u(x & ((1 << n)-1), n)

    def sm(self, x, n):
        """sign and magnitude"""
        return self.u((1 << (n-1) if x < 0 else 0) | abs(int(x)), n)

    def add(self, o):
        self.v = (self.v << o.n) | o.v
        self.n += o.n
        return self

    def pad(self, n, bit=0):
        """fill up to n bits"""
        k = n-self.n
        if k < 0:
            raise ValueError('too long')
        return self.u(((1 << k)-1) if bit and k else 0, k) if k else self

    def bytes(self, nbytes=None, bit=0):
        n = (self.n+7)//8 if nbytes is None else nbytes
        k = n*8-self.n
        if k < 0:
            raise ValueError('too long')
        return ((self.v << k) | (((1 << k)-1) if bit else 0)).to_bytes(
            n, 'big')

    def slice(self, i, n):
        b = Bits()
        b.v = (self.v >> (self.n-i-n)) & ((1 << n)-1)
        b.n = n
        return b


def getu(buf, i, n):
    v = int.from_bytes(buf, 'big')
    return (v >> (len(buf)*8-i-n)) & ((1 << n)-1)
