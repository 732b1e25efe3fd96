"""P20: the message for a syntax error."""
import re
import absint
import gentpl
from inst import V, Stuck, NoReturn
from pipe import Pipe


def opened(rep, prog=None):
    try:
        return Pipe(rep, prog or gentpl.dump())
    except absint.Anchor as e:
        rep.error('%s was not found' % e)
        return None


# ---------------------------------------------------------------- P20

def position(text, pos):
    """line, column (in characters), byte offset of character number pos"""
    before = text[:pos]
    return (before.count('\n') + 1, pos - (before.rfind('\n') + 1) + 1, len(before.encode()))


def texts(pipe):
    out = ['', 'a', 'ab', 'Test: struct {', 'T: struct { a: uint8 }\nexport T', 'T: struct {\n    a: uint8,\n    b uint8\n}\nexport T\n',
           '\n', '\n\n', 'a\n', 'a\n\nb', '\nx', ' ', '  x', '\tx\ty', 'x\t\n\ty', 'a\r\nb\r\n', '\r\n', 'a\rb',
           'é: x', 'aé\nbü!c\n', 'T: struct { naïve uint8 }', '日本語\n日本 x', '😀', 'a😀b\n😀😀c', 'é', '́x', '# comment é\nT struct',
           '﻿T: x', 'a b', 'a\x0bb\x0cc', 'a\x85b', "'", "a'b", '"x"', '^', '~~^', '|  x\n|~~^', 'a\x00b', '\\n', '{}', '{0}', '%s',
           'line 1, column 1', 'x' * 79, 'x' * 81, 'x' * 200, 'x' * 1001, 'a\n' * 12 + 'b', 'é' * 40 + '\n' + 'é' * 90, 'a' * 130 + '\nb',
           '# é\nT: struct { a: ü }', '# 日本\nT: struct { a: uint8 } 😀 x', '#😀\r\n\r\nT: é\r\n', '# é\n\n\n  T x', '# é\n# é\n    é',
           'T: struct { # é', '# é\nT: struct {\n  a: uint8 # 日本😀', 'T: struct {#\té\ta', 'T: struct {\r\n  # ' + 'ü' * 90]
    for n in sorted(pipe.nums):
        if 1 < n <= 3000:
            out += ['x' * (n - 1), 'x' * n, 'x' * (n + 1), 'x' * (n + 1) + '\ny', 'x' * (n + 1) + 'é', '# ' + 'é' * (n + 1) + '\nxyz']
        if 1 < n <= 200:
            out += ['a\n' * (n - 1) + 'bc', 'a\n' * n + 'bc', 'a\n' * (n + 1) + 'bc']
    for s in sorted(pipe.names):
        out += [s, 'x' + s, s + 'x', s + s, 'x\n' + s + '\ny', 'x' + s + 'y' + s + 'z']
    seen = set()
    return [t for t in out if not (t in seen or seen.add(t))]


def points(text):
    return [p for p in anywhere(text) if failing(text, p)]


def failing(text, pos):
    """parsing can get as far as this: only comments have characters outside ASCII, and they end with the line or the text"""
    part = text[text.rfind('\n', 0, pos) + 1:pos]
    if pos == len(text) and '#' in part and re.match(r'(# é\n)?T: struct \{', text):
        part = part[:part.index('#')]
    return all(' ' <= c <= '~' or c in '\t\r' for c in part)


def anywhere(text):
    n = len(text)
    if n <= 60:
        return range(n + 1)
    return sorted({0, 1, 2, 3, n // 3, n // 2, n - 2, n - 1, n} | {i for i, c in enumerate(text) if c == '\n' and i < 30}
                  | {i + 1 for i, c in enumerate(text) if c == '\n' and i + 1 <= n and i < 30} | {p for p in (76, 78, 79, 80, 81, 99, 100, 101, 119, 120, 127, 128) if p <= n})


def layout(msg):
    """(shown line with its prefix, caret line) of a message, or None"""
    ls = msg.split('\n')
    while ls and not ls[-1].strip():
        ls.pop()
    if len(ls) < 2 or '^' not in ls[-1]:
        return None
    return ls[-2], ls[-1], '\n'.join(ls[:-2])


def judge(text, pos, msg, prefix, quote):
    """what is wrong with the message, or None"""
    line, col, off = position(text, pos)
    src = text.split('\n')[line - 1]
    found = text[pos] if pos < len(text) else '\0'
    ls = src.count('\r')
    # the shown line and the caret come last
    tail = None
    for s in {src, src[:-1] if src.endswith('\r') else src}:
        m = re.search(r'(?:^|\n)' + re.escape(prefix + s) + r'\n([^\n]*)\^[^\n^]*\n*$', msg)
        if m:
            tail = m
            break
    if tail is None:
        return 'source line', 'the source line %r is not shown in full above the caret' % src
    if len(tail.group(1)) != len(prefix) + col - 1:
        return 'caret', 'the caret is under column %d instead of %d' % (len(tail.group(1)) - len(prefix) + 1, col)
    head = msg[:tail.start()]
    shown = found.join(quote)
    h = head.replace(shown, '', 1)
    nums = [int(x) for x in re.findall(r'\d+', h)]
    if nums != [line, col]:
        return 'position', 'line %d and column %d are reported as %s' % (line, col, ', '.join(map(str, nums)) or 'nothing')
    if shown not in head:
        return 'character', 'the character found, %r, is not shown' % found
    return None


def message(pipe, v):
    """what is shown of the error"""
    if v.variant != 1 or not isinstance(v.f[0], V):
        raise Stuck('no message')
    try:
        return pipe.error_text(v.f[0])
    except Stuck:
        msg = v.f[0].f[0] if v.f[0].f else None
    if not isinstance(msg, str):
        raise Stuck('no message')
    return msg


def find_prefix(pipe):
    """what precedes the source line in a message, and what surrounds the character, from a text that cannot occur elsewhere"""
    t = 'Ωwertyuiop'
    v, _ = pipe.run(t, fail_at(t, 0)[0])
    msg = message(pipe, v)
    prefix = None
    head = ''
    for l in msg.split('\n'):
        if l.endswith(t):
            prefix = l[:-len(t)]
            break
        head += l + '\n'
    i = head.find('Ω')
    return prefix, (head[max(i - 1, 0):i], head[i + 1:i + 2]) if i >= 0 else None


def fail_at(text, pos):
    """a parser that fails at this character of its input; where that is in the text"""
    got = {}

    def parse(x):
        if not isinstance(x, str):
            raise Stuck('argument of the parser')
        if x == text:
            p = pos
        elif text.startswith(x):
            p = min(pos, len(x))
            got['pos'] = p
        elif text.endswith(x):
            p = min(pos, len(x))
            got['pos'] = p + len(text) - len(x)
        else:
            raise Stuck('the parser does not get the text itself')
        l, c, o = position(x, p)
        return V(1, [V(0, [V(0, [l, c, o]), ('expected',)])])
    return parse, got


def check_P20(rep):
    pipe = opened(rep)
    if not pipe:
        return
    rep.assumptions += ['the parser library reports the furthest failure with line and column from 1 (column in characters) and the byte offset',
                        'library functions on strings behave as documented']
    try:
        prefix, quote = find_prefix(pipe)
    except Stuck as e:
        rep.unsure('message', str(e))
        return
    if prefix is None:
        rep.violation('message', 'source line', pipe.where, 'the source line is shown', 'the message does not show the source line')
        return
    if quote is None:
        rep.violation('message', 'character', pipe.where, 'the character found is shown', 'the message does not show the character that was found')
        return
    n = 0
    for t in texts(pipe):
        for pos in points(t):
            name = 'text %r at %d' % (t[:40], pos)
            parse, got = fail_at(t, pos)
            try:
                v, _ = pipe.run(t, parse)
            except NoReturn as e:
                rep.violation(name, 'no message', pipe.where, 'a syntax error gives a message', 'no message is produced for a failure at character %d of %r' % (pos, t[:200]))
                continue
            except Stuck as e:
                rep.unsure(name, str(e))
                continue
            n += 1
            if v.variant != 1:
                rep.violation(name, 'no error', pipe.where, 'a syntax error gives an error', 'the text %r is accepted although it does not parse' % t[:200])
                continue
            try:
                msg = message(pipe, v)
            except Stuck as e:
                rep.unsure(name, str(e))
                continue
            bad = judge(t, got.get('pos', pos), msg, prefix, quote)
            if bad:
                rep.violation(name, bad[0], pipe.where, 'the message states line, column and character and shows the line with a caret',
                              '%s\n  text: %r\n  failing at character %d\n  message: %r' % (bad[1], t[:300], got.get('pos', pos), msg[:600]))
            else:
                rep.ok(name)
    rep.coverage['positions'] = n
