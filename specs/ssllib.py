"""What the code sees of ctypes and of the crypto library: every library
function answers an arbitrary value, and may write to the buffers and numbers
it is given a pointer to."""
from vspec import LIB

LOG = []
SIZES = ('ECDSA_size', 'i2o_ECPublicKey', 'i2d_ECPrivateKey')
KEEP = ('o2i_ECPublicKey', 'd2i_ECPrivateKey')      # given the place of a key, these fill the key that is there


def calls(name):
    return [args for n, args in LOG if n == name]


class Value:
    def __init__(self, value=0):
        self.value = value


class Buffer:
    def __init__(self, init, size=None):
        self.init = init
        self.made_of_bytes = isinstance(init, (bytes, bytearray))
        self.raw = init + b'\x00' if self.made_of_bytes else bytes(init)

    def __len__(self):
        return len(self.raw)

    @property
    def value(self):
        return self.raw


class Pointer:
    def __init__(self, contents):
        self.contents = contents


def target(x):
    while isinstance(x, Pointer):
        x = x.contents
    return x


class Function:
    def __init__(self, name):
        self.name = name
        self.restype = None
        self.argtypes = None
        self.errcheck = None

    def __call__(self, *args):
        n = len(calls(self.name))
        LOG.append((self.name, args))
        # the functions that answer a size answer 0 on failure
        r = LIB(self.name, n, 'uint' if self.name in SIZES else 'int')
        if self.restype is Value:
            # a NULL pointer becomes None
            r = None if r == 0 else r
        for i, a in enumerate(args):
            t = target(a)
            if isinstance(t, Buffer) and not t.made_of_bytes:
                t.raw = LIB('written by ' + self.name, n, 'bytes')
            elif isinstance(t, Value) and isinstance(a, Pointer) and self.name not in KEEP:
                t.value = LIB('number from ' + self.name, n, 'uint')
        if self.errcheck is not None:
            r = self.errcheck(r, self, args)
        return r


class Library:
    def __getattr__(self, name):
        f = Function(name)
        setattr(self, name, f)
        return f
