"""What the code sees of the server and of the decimal numbers it reports."""
from vspec import LIB

STATE = {'exact': True}


class Float:
    """a float of some decimals: its digits are not the ones of the reply"""
    def __init__(self, of, how):
        self.of = of
        self.how = how

    def __mul__(self, k):
        return Float(self.of, 'scaled')

    __rmul__ = __truediv__ = __add__ = __radd__ = __sub__ = __mul__

    def __int__(self):
        return LIB('an integer of a ' + self.how + ' float of decimals', self.of, 'int')

    def __round__(self, *a):
        return LIB('a rounded ' + self.how + ' float of decimals', self.of, 'int')

    __trunc__ = __floor__ = __ceil__ = __int__


class Digits:
    """a number in the text of a reply: units of 1/100000000"""
    def __init__(self, units):
        self.units = units

    def __float__(self):
        return Float(self.units, 'read')


class Amount:
    """decimal.Decimal, as far as money needs it: num / scale"""
    def __init__(self, value=0, scale=1):
        if isinstance(value, Digits):
            self.num, self.scale = value.units, 100000000
        elif isinstance(value, Amount):
            self.num, self.scale = value.num, value.scale
        else:
            self.num, self.scale = value, scale

    def __mul__(self, k):
        if isinstance(k, Amount):
            if k.scale != 1:
                raise NotImplementedError
            k = k.num
        if self.scale == k:
            return Amount(self.num, 1)
        return Amount(self.num * k, self.scale)

    __rmul__ = __mul__

    def __int__(self):
        if self.scale == 1:
            return self.num
        return self.num // self.scale if self.num >= 0 else -(-self.num // self.scale)

    __trunc__ = __int__

    def __float__(self):
        return Float(self.num, 'made')

    def to_integral_value(self, *args, **kwargs):
        return Amount(int(self), 1)

    to_integral_exact = to_integral = to_integral_value


class Text:
    """JSON text"""
    def __init__(self, make):
        self.make = make

    def encode(self, *a):
        return self

    decode = encode


def dumps(obj, **kw):
    return Text(obj)


def loads(text, **kw):
    p = kw.get('parse_float')

    def money(units):
        return p(Digits(units)) if p is not None else Float(units, 'read')
    return text.make(money)


class Connection:
    """answers each request with what the next maker makes"""
    def __init__(self, make):
        self.make = make
        self.sent = []

    def request(self, method, url, body=None, headers=None):
        self.sent.append(body.make)

    def getresponse(self):
        return self if self.make is not None else None

    status = 200
    reason = 'OK'

    def read(self, *a):
        return Text(self.make)

    def close(self):
        pass


class Url:
    scheme = 'http'
    hostname = 'host'
    port = 1
    path = '/'
    username = 'user'
    password = 'password'


def urlparse(url):
    return Url()
