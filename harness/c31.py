"""C31: newlines and NULs are found in tr sets however they are written."""
from harness import paralib

LEVEL = 'model_checking'
EXPECT_TAGS = ['newline', 'no newline', 'NUL', 'no NUL', 'range', 'class', 'octal']
ASSUMPTIONS = ['sets are read as tr(1) describes: escapes, octal codes of up to three digits (at most \\377), ranges, classes; [=c=] and [c*n] count as their '
               'characters; ranges of GNU tr that are refused (reversed) contain nothing']
BOUNDS = {'quick': 'every string of length <=3 over codes 1-126; every string of length 3 to 5 over newline, vertical tab, backslash, -, [, ], :, a, n, z, 0, 1, 2, 7; '
                   'every class name alone and between two characters; every octal code and range of octal codes up to 3 digits',
          'thorough': 'length <=4 over codes 1-126'}
CLASSES = ['alnum', 'alpha', 'blank', 'cntrl', 'digit', 'graph', 'lower', 'print', 'punct', 'space', 'upper', 'xdigit']
ALPHA = '\n\x0b\\-[]:anz0127'


def tasks(tier):
    t = tier == 'thorough'
    out = [dict(fn='any', params=dict(n=n, abc=None), cost=20 ** n) for n in range(5 if t else 4)]
    out += [dict(fn='any', params=dict(n=n, abc=ALPHA), cost=10 ** n) for n in (3, 4, 5)]
    for n in (4, 5):
        for first in ALPHA:
            out.append(dict(fn='any', params=dict(n=n, abc=ALPHA, first=first), cost=8 ** n))
    out = [x for x in out if not (x['params']['n'] > 3 and 'first' not in x['params'])]
    out += [dict(fn='classes', params={}, cost=1000)]
    out += [dict(fn='octal', params=dict(a=a, b=b), cost=3000) for a in (1, 2, 3) for b in (0, 1, 2, 3)]
    return out


def judge(E, s):
    from pash_annotations.datatypes.BasicDatatypes import Operand
    for c, f, name in (('\n', 'contains_new_line', 'newline'), ('\0', 'contains_null_char', 'NUL')):
        if not hasattr(Operand, f):
            E.reach('absent')
            continue
        r = E.call(getattr(Operand(s), f))
        E.check(r.ok, f + ' raised')
        if not r.ok:
            return
        if paralib.tr_has(s, c):
            E.reach(name)
            E.check(r.value, name + ' is missed')
        else:
            E.reach('no ' + name)
            E.check(E.neg(r.value), name + ' is found where there is none')


def any(E, p):
    if p['abc']:
        s = E.word('s', [], (p['n'] - (1 if 'first' in p else 0),), alphabet=p['abc'])
        s = p.get('first', '') + s
    else:
        s = E.word('s', [], (p['n'],))
    judge(E, s)


def classes(E, p):
    a = E.word('a', [], (0, 1), alphabet='\n\\-a[')
    b = E.word('b', [], (0, 1), alphabet='\n\\-a]')
    E.reach('class')
    judge(E, a + '[:' + E.pick('c', CLASSES) + ':]' + b)


def octal(E, p):
    E.reach('octal')
    s = '\\' + E.word('a', [], (p['a'],), alphabet='01234567')
    if p['b']:
        E.reach('range')
        s = s + '-\\' + E.word('b', [], (p['b'],), alphabet='01234567')
    judge(E, s)
