"""Numbers written in the source that the analysed revision did not contain.

A check over a list length cannot enumerate every length.  What makes a length
special is a number in the code, so numbers that the recorded revision
(baseline_literals.json) does not contain extend the partitions of the checks
by that number and its neighbours.  Nothing is concluded from the numbers
themselves."""
import json, os
import program

BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'baseline_literals.json')
MAXES = {('u8', 'MAX'): 255, ('i8', 'MAX'): 127, ('u16', 'MAX'): 65535, ('i16', 'MAX'): 32767}
CASTS = {'u8': 256, 'i8': 128, 'u16': 65536, 'i16': 32768}
OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a // b if b else None,
       '%': lambda a, b: a % b if b else None, '<<': lambda a, b: a << b if 0 <= b < 64 else None, '>>': lambda a, b: a >> b if 0 <= b < 64 else None}


def is_test(n):
    return any('cfg' in a and 'test' in a and 'not' not in a for a in map(str, n.get('at') or []))


def collect(file_ast):
    out = {}

    def hit(v):
        if v is not None and 0 <= v < 1 << 20:
            out[v] = out.get(v, 0) + 1

    def walk(n):
        """value of a constant expression, or None; records the numbers"""
        if isinstance(n, list):
            for x in n:
                walk(x)
            return None
        if not isinstance(n, dict):
            return None
        if is_test(n):
            return None
        k = n.get('k')
        if k == 'int' and isinstance(n.get('v'), str):
            try:
                v = int(n['v'].replace('_', ''), 0)
            except ValueError:
                return None
            hit(v)
            return v
        if k == 'lit':
            return walk(n.get('v'))
        if k == 'cast':
            t = (n.get('t') or {}).get('p') or {}
            t = [x.get('n') for x in t.get('s') or []]
            hit(CASTS.get(t[-1]) if t else None)
        if k in ('paren', 'group', 'cast'):
            v = walk(n.get('e'))
            walk([x for y, x in n.items() if y != 'e'])
            return v
        if k == 'bin':
            a, b = walk(n.get('a')), walk(n.get('b'))
            f = OPS.get(n.get('op') or n.get('o'))
            if a is not None and b is not None and f:
                v = f(a, b)
                hit(v)
                return v
            return None
        if k == 'path':
            s = tuple(x.get('n') for x in (n.get('p') or {}).get('s') or [])
            if len(s) > 1 and s[-2] in CASTS and s[-1] not in ('MAX', 'MIN', 'pow', 'BITS'):
                hit(CASTS[s[-2]])
            if s[-2:] in MAXES:
                hit(MAXES[s[-2:]])
                return MAXES[s[-2:]]
        walk(list(n.values()))
        return None
    walk(file_ast)
    return out


def current(dump):
    return {os.path.relpath(f, os.path.join(program.REPO, 'crates')): collect(a) for f, a in dump.items()}


_new = None


def new():
    """numbers written more often in a file than in the recorded revision"""
    global _new
    if _new is None:
        base = json.load(open(BASE))
        program.load()
        s = {int(x) for x in os.environ.get('VERIF_LITS', '').split(',') if x}
        for f, m in current(program._prog['asts']).items():
            b = base.get(f, {})
            s |= {v for v, k in m.items() if k > b.get(str(v), 0)}
        _new = sorted(s)
    return _new


if __name__ == '__main__':
    m = current(program.dump())
    json.dump({f: {str(v): k for v, k in sorted(x.items())} for f, x in sorted(m.items())}, open(BASE, 'w'), indent=0, sort_keys=True)
