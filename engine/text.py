"""Equality of strings that contain formatted symbolic numbers (file names, tags).

A symbolic number formatted into a string leaves a token; two such strings are equal when their
literal parts are equal and every pair of tokens prints the same text, which is a condition on
the numbers: equal values for '' (all digits), equal rounded values for '.nf'.
"""
import re
from . import sym
from .sym import S, SR, s_cmp, s_round, sb_and, sb_not

TOKEN = re.compile(r'<<(\d+):([^>]*)>>')


def has_tokens(s):
    return isinstance(s, str) and '<<' in s and TOKEN.search(s) is not None


def parts(s):
    out, pos = [], 0
    for m in TOKEN.finditer(s):
        out.append(s[pos:m.start()])
        out.append((value_of(int(m.group(1))), m.group(2)))
        pos = m.end()
    out.append(s[pos:])
    return out


def value_of(i):
    for text, x in S.engine.tokens.values():
        if text.startswith(f'<<{i}:'):
            return x
    raise KeyError(i)


def tok_eq(a, b):
    (x, s), (y, t) = a, b
    ns, nt = _dec(s), _dec(t)
    if ns is None and nt is None:
        if x.isint != y.isint:
            return False
        return s_cmp(x, y, 'eq')
    if ns is not None and nt is not None:
        if ns != nt:
            return False
        return s_cmp(s_round(x, ns), s_round(y, nt), 'eq')
    if ns is None:
        x, y, ns = y, x, nt
    # x with ns decimals, y with all of its digits
    if y.isint:
        return ns == 0 and s_cmp(s_round(x, 0), y, 'eq')
    if ns == 0:
        return False
    exact = s_cmp(s_round(y, ns), y, 'eq')
    if not bool(exact):
        return False
    c = [exact, s_cmp(s_round(x, ns), y, 'eq')]
    if ns > 1:
        c.append(sb_not(s_cmp(s_round(y, ns - 1), y, 'eq')))
    return sb_and(*c)


def _dec(spec):
    if spec == '':
        return None
    m = re.fullmatch(r'\.(\d+)f', spec)
    if not m:
        from .sym import Unsupported
        raise Unsupported(f'comparison of text formatted with {spec!r}')
    return int(m.group(1))


def eq(a, b):
    """condition under which the strings a and b are equal"""
    if a == b:
        return True
    if not (has_tokens(a) or has_tokens(b)):
        return False
    p, q = parts(a), parts(b)
    if len(p) != len(q) or any(x != y for x, y in zip(p[::2], q[::2])):
        return False
    return sb_and(True, *[tok_eq(x, y) for x, y in zip(p[1::2], q[1::2])])
