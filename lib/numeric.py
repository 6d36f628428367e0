"""Terms over one text and the number a C conversion function makes of it, evaluated for representatives of classes of texts."""
import re
import struct

RANGE = {'char': (-2**7, 2**7 - 1), 'short': (-2**15, 2**15 - 1), 'int': (-2**31, 2**31 - 1), 'long': (-2**63, 2**63 - 1),
         'long long': (-2**63, 2**63 - 1), 'unsigned int': (0, 2**32 - 1), 'unsigned long': (0, 2**64 - 1),
         'unsigned long long': (0, 2**64 - 1), 'unsigned short': (0, 2**16 - 1), 'unsigned char': (0, 255), 'bool': (0, 1)}
FUNCS = {'strtol': 'long', 'strtoll': 'long long', 'strtoul': 'unsigned long', 'strtoull': 'unsigned long long',
         'strtoimax': 'long', 'strtoumax': 'unsigned long', 'strtof': 'float', 'strtod': 'double', 'strtold': 'long double'}
NPOS = 2**64 - 1
ERANGE = 34
BASE = 1 << 40      # address of the text


def as_type(t, v):
    if t in RANGE:
        lo, hi = RANGE[t]
        if v != v or v in (float('inf'), float('-inf')):
            return None
        v = int(v)
        return (v - lo) % (hi - lo + 1) + lo if t != 'bool' else int(v != 0)
    if t == 'float':
        try:
            return struct.unpack('f', struct.pack('f', v))[0]
        except OverflowError:
            return float('inf') if v > 0 else float('-inf')
    if t in ('double', 'long double'):
        return float(v)
    return None


def convert(func, text):
    """(value, number of characters read, error) as the C library defines it (base 10)"""
    text = text.split('\0')[0]
    t = FUNCS[func]
    if t in RANGE:
        m = re.match(r'\s*([+-]?)(\d+)', text)
        if not m:
            return 0, 0, 0
        lo, hi = RANGE[t]
        mag = int(m.group(2))
        neg = m.group(1) == '-'
        v = -mag if neg else mag
        if lo == 0:
            if mag > hi:
                return hi, m.end(), ERANGE
            return v % (hi + 1), m.end(), 0
        if v > hi or v < lo:
            return (hi if v > 0 else lo), m.end(), ERANGE
        return v, m.end(), 0
    m = re.match(r'\s*[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?', text)
    if not m:
        return 0.0, 0, 0
    v = float(m.group(0))
    w = as_type(t, v)
    if w in (float('inf'), float('-inf')):
        return w, m.end(), ERANGE
    return w, m.end(), 0


class Text:
    """evaluation of terms, for the text in place of the term var"""

    def __init__(self, var, text, env=None):
        self.var, self.text, self.env = var, text, env or {}

    def ev(self, t):
        if t in self.env:
            return self.env[t]
        if t == self.var or isinstance(self.var, (set, list)) and t in self.var:
            return ('str', BASE)
        k = t[0]
        if k == 'c':
            return t[1]
        if k == 'e' and len(t) > 2 and t[2] == 'npos':
            return NPOS
        if k == 's':
            return t[1]
        if k == 'op':
            return self.op(t)
        if k == 'f':
            return self.fn(t)
        if k in ('init', 'p') and t[1] and t[1][0][0] == 'O' and len(t[1]) <= 2:
            a = self.ev(t[1][0][1])
            if isinstance(a, tuple):
                a = a[1]
            i = 0
            if len(t[1]) == 2:
                if not re.fullmatch(r'\[\d+\]', str(t[1][1])):
                    return None
                i = int(t[1][1][1:-1])
            if isinstance(a, int):
                j = a - BASE + i
                if 0 <= j < len(self.text):
                    return ord(self.text[j])
                if j == len(self.text):
                    return 0
        return None

    def op(self, t):
        a = self.ev(t[2])
        if len(t) == 3:
            return None if a is None else {'!': lambda: int(not a), '-': lambda: -a}.get(t[1], lambda: None)()
        b = self.ev(t[3])
        if a is None or b is None:
            if t[1] == '&&' and (a == 0 or b == 0):
                return 0
            if t[1] == '||' and (a or b):
                return 1
            return None
        if t[1] in ('==', '!=') and isinstance(a, tuple) and isinstance(b, str):
            return int((self.text == b) == (t[1] == '=='))
        if t[1] in ('==', '!=') and isinstance(b, tuple) and isinstance(a, str):
            return int((self.text == a) == (t[1] == '=='))
        a, b = (x[1] if isinstance(x, tuple) else x for x in (a, b))
        if isinstance(a, str) or isinstance(b, str):
            if t[1] in ('==', '!=') and isinstance(a, str) and isinstance(b, str):
                return int((a == b) == (t[1] == '=='))
            return None
        f = {'==': lambda: int(a == b), '!=': lambda: int(a != b), '<': lambda: int(a < b), '<=': lambda: int(a <= b),
             '>': lambda: int(a > b), '>=': lambda: int(a >= b), '-': lambda: a - b, '+': lambda: a + b, '&&': lambda: int(bool(a and b)),
             '||': lambda: int(bool(a or b))}.get(t[1])
        return f() if f else None

    def fn(self, t):
        n = t[1]
        if n == 'as':
            a = self.ev(t[3])
            return None if a is None or not isinstance(a, (int, float)) else as_type(t[2][1], a)
        if n in ('size', 'length', 'strlen') and self.ev(t[2]) == ('str', BASE):
            return len(self.text) if n != 'strlen' else len(self.text.split('\0')[0])
        if n in ('find', 'find_first_of', 'rfind') and self.ev(t[2]) == ('str', BASE):
            a = self.ev(t[3])
            if isinstance(a, int):
                a = chr(a)
            if not isinstance(a, str):
                return None
            i = (self.text.rfind(a) if n == 'rfind' else self.text.find(a) if n == 'find' else
                 min([self.text.find(x) for x in a if x in self.text] or [-1]))
            return NPOS if i < 0 else i
        if n == 'char' and self.ev(t[2]) == ('str', BASE):
            i = {'front': 0, 'back': len(self.text) - 1}.get(t[-1][1]) if t[-1][0] == 's' else None
            if i is None:
                i = self.ev(t[3])
            if isinstance(i, int) and 0 <= i <= len(self.text):
                return ord((self.text + '\0')[i])
            return None
        if n in ('starts_with', 'ends_with') and self.ev(t[2]) == ('str', BASE):
            a = self.ev(t[3])
            a = chr(a) if isinstance(a, int) else a
            return int(getattr(self.text, n.replace('_', ''))(a)) if isinstance(a, str) else None
        return None

    def allows(self, facts):
        """can the path with these facts be taken?"""
        for t, f in facts.items():
            v = self.ev(t)
            if v is None:
                continue
            if v == ('str', BASE):
                if f[0] == '=' and f[1] != ('s', self.text) or f[0] == '!=' and ('s', self.text) in f[1]:
                    return False
                continue
            if isinstance(v, tuple):
                v = v[1]
            if isinstance(v, str):
                continue
            if f[0] == '=':
                if f[1][0] == 'c' and int(v) != f[1][1]:
                    return False
            elif any(x[0] == 'c' and int(v) == x[1] for x in f[1]):
                return False
        return True
