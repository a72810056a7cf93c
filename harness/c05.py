"""C05: words are split as the shell splits them."""
LEVEL = 'model_checking'
EXPECT_TAGS = ['split', 'refused', 'empty word', 'joined', 'several words', 'single quotes', 'double quotes', 'backslashes', 'annotated command', 'mixed quotes']
ASSUMPTIONS = ['a single simple command: no unquoted newline, comment, operator, expansion or assignment (the quoted forms of these characters are covered)',
               "shlex is encoded from the standard library's source",
               'an unterminated quote or a trailing backslash is no command; it is only required that it is not parsed']
BOUNDS = {'quick': 'after a command name, all strings of length <=5 over space, tab, both quotes, backslash, hash, newline, dash, a; whole command lines of '
                   'length <=3 over the same; one to two words of length <=3 and <=1 over codes 1-126 quoted in each of the shell\'s ways, alone or mixed',
          'thorough': 'length <=7 after a command name, <=5 as a whole; words of length <=5 and <=3'}
ALPHABET = ' \t\'"\\#\n-a'


def tasks(tier):
    t = tier == 'thorough'
    out = []
    for n in range(0, 8 if t else 6):
        out += [dict(fn='split', params=dict(pre='nosuchcmd ', n=n, first=c), cost=5 ** n, budget=3000) for c in (ALPHABET if n > 2 else [None])]
    for n in range(0, 5 if t else 4):
        out.append(dict(fn='split', params=dict(pre='grep -e ', n=n, first=None), cost=5 ** n))
    for n in range(1, 6 if t else 4):
        out += [dict(fn='split', params=dict(pre='', n=n, first=c), cost=9 * 5 ** n, budget=3000) for c in (ALPHABET if n > 2 else [None])]
    for n in range(1, 5 if t else 4):
        out.append(dict(fn='split', params=dict(pre='nosuchcmd ', n=n, first=None, alphabet='\r \'"\\a'), cost=5 ** n))
    for style in ('single', 'double', 'backslash', 'mixed'):
        for ns in ([(0,), (1,), (2,), (3,), (1, 1), (2, 1)] if not t else [(4,), (5,), (2, 2), (3, 2), (3, 3)]):
            out.append(dict(fn='quoted', params=dict(style=style, ns=list(ns)), cost=6 ** sum(ns)))
    return out


def reference(E, s):
    """POSIX 2.2 and 2.3 for a simple command: the words, or None if it is not one; whether a backslash-newline
    occurs; conditions of which one holds if an unquoted carriage return does."""
    words, cur, state, i, cont, cr = [], None, '', 0, [], []
    while i < len(s):
        c = s[i]
        i += 1
        if state == "'":
            if c == "'":
                state = ''
            else:
                cur = cur + c
        elif state == '"':
            if c == '"':
                state = ''
            elif c == '\\':
                if i == len(s):
                    return None, cont, cr
                d = s[i]
                i += 1
                if d == '\n':
                    cont.append(True)
                elif d == '"' or d == '\\' or d == '$' or d == '`':
                    cur = cur + d
                else:
                    cur = cur + c + d
            else:
                cur = cur + c
        elif c == ' ' or c == '\t':
            if cur is not None:
                words.append(cur)
            cur = None
        elif c == "'":
            cur, state = '' if cur is None else cur, "'"
        elif c == '"':
            cur, state = '' if cur is None else cur, '"'
        elif c == '\\':
            if i == len(s):
                return None, cont, cr
            d = s[i]
            i += 1
            if d == '\n':
                cont.append(True)
            else:
                cur = ('' if cur is None else cur) + d
        elif c == '\n':
            return 'outside', cont, cr
        elif c == '#' and cur is None:
            return 'outside', cont, cr
        else:
            cr.append(E.eq(c, '\r'))
            cur = ('' if cur is None else cur) + c
    if state:
        return None, cont, cr
    if cur is not None:
        words.append(cur)
    return words, cont, cr


def words_of(E, inv):
    """The words of a parsed invocation (of a command whose flags are known to stay as they are)."""
    out = [inv.cmd_name]
    for x in inv.flag_option_list:
        out.append(x.get_name())
        if hasattr(x, 'option_arg'):
            out.append(x.option_arg)
    return out + [x.name for x in inv.operand_list]


def split(E, p):
    from pash_annotations.parser.parser import parse
    if p['first'] is None or p['n'] == 0:
        w = E.word('s', [], (p['n'],), p.get('alphabet', ALPHABET)) if p['n'] else ''
    else:
        w = p['first'] + E.word('s', [], (p['n'] - 1,), ALPHABET)
    s = p['pre'] + w
    ref, cont, cr = reference(E, s)
    if isinstance(ref, str) or ref == []:
        return
    r = E.call(parse, s)
    if ref is None:
        E.reach('refused')
        E.check(not r.ok, 'an unfinished command is parsed')
        return
    if p['pre'] == 'grep -e ':
        E.reach('annotated command')
        if len(ref) > 3:
            # the words after the pattern: only when no flag or option can be among them
            E.assume(E.neg(E.eq(ref[3][:1], '-')))
        elif len(ref) < 3:
            return
    E.check(r.ok, 'a command is not parsed')
    if not r.ok:
        return
    E.reach('split')
    got = words_of(E, r.value)
    E.observe('words', got)
    if any(len(x) == 0 for x in ref):
        E.reach('empty word')
    if len(ref) > 2:
        E.reach('several words')
    if cont:
        E.check_known('line-continuation', True, E.same(got, ref), 'the words are not those of the shell')
    else:
        E.check_known('carriage-return', E.any(cr), E.same(got, ref), 'the words are not those of the shell')


def quote(E, w, style):
    if style == 'single':
        out = "'"
        for c in w:
            out = out + ("'\\''" if c == "'" else c)
        return out + "'"
    if style == 'double':
        out = '"'
        for c in w:
            out = out + ('\\' + c if c == '"' or c == '\\' or c == '$' or c == '`' else c)
        return out + '"'
    out = ''
    if style == 'backslash':
        for c in w:
            out = out + "\\" + c
        return out
    # mixed: the parts of a word quoted differently and joined
    for i, c in enumerate(w):
        k = ['single', 'double', 'backslash'][i % 3]
        out = out + quote(E, c, k)
    return out


def quoted(E, p):
    from pash_annotations.parser.parser import parse
    ws = [E.word('w%d' % i, [], (n,)) if n else '' for i, n in enumerate(p['ns'])]
    s = 'nosuchcmd'
    dollar = []
    for w in ws:
        for i, c in enumerate(w):
            st = p['style'] if p['style'] != 'mixed' else ['single', 'double', 'backslash'][i % 3]
            if st == 'backslash':
                E.assume(E.neg(E.eq(c, '\n')))      # cannot be quoted this way
            if st == 'double':
                dollar.append(E.any([E.eq(c, '$'), E.eq(c, '`')]))
        if p['style'] in ('backslash', 'mixed') and len(w) == 0:
            s = s + " ''"
        else:
            s = s + ' ' + quote(E, w, p['style'])
    E.reach({'single': 'single quotes', 'double': 'double quotes', 'backslash': 'backslashes', 'mixed': 'mixed quotes'}[p['style']])
    if p['style'] == 'mixed' and any(len(w) > 1 for w in ws):
        E.reach('joined')
    r = E.call(parse, s)
    E.check(r.ok, 'a quoted word is not parsed')
    if r.ok:
        got = words_of(E, r.value)
        E.observe('words', got)
        E.check_known('dollar-in-double-quotes', E.any(dollar), E.same(got, ['nosuchcmd'] + ws), 'a quoted word arrives changed')
