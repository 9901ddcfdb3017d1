"""tools/conv_template.py: random templates against an independent expansion of the same structure."""
import importlib.util
import os
import re
import shutil
import subprocess
import sys
import tempfile

from vlib import build

TOOL = os.path.join(build.REPO, 'tools', 'conv_template.py')
NAMES = ['a', 'b', 'name', 'TYPE', 'type', 'fn_2', 'x1', 'npy_type', 'c', 'suffix', 'K', 'kind']
VALUES = ['1', '2', '3', 'int', 'npy_float', 'long double', 'f', 'F', 'x+y', '<=', 'static inline', '""', "'a'", '&&', 'NPY_INT', 'ted', 'jim', 'a.b', '->', '!', '*p', 'npy_int *',
          '%', 'a/b', '~', 'e-5', '-']
LINES = ['int x = 0;', '    for (;;) {', '}', '', '// comment', '/* block */', '#define Q 1', '#include "x.h"', '    *p++ = 2 * y;', 'user at example.org', '\tcall();', '@ alone', '#if 1', '/** doc\n * text\n */',
         'a = b # c = d;']


def load():
    s = importlib.util.spec_from_file_location('conv_template', TOOL)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


class Gen:
    """Builds the text of a template and, independently, what it stands for."""

    def __init__(self, r):
        self.r = r
        self.line = 1
        self.text = []
        self.nex = 0
        self.nblocks = 0

    def put(self, s):
        self.text.append(s + '\n')
        self.line += s.count('\n') + 1

    def literal(self, names):
        r = self.r
        s = r.choice(LINES)
        if names:
            k = r.randrange(4)
            for _ in range(k):
                n = r.choice(names)
                s += r.choice([' ', '', '(', ', ', '_']) + f'@{n}@'
        self.put(s)
        return ('text', s)

    def body(self, level, names):
        """A list of ('text', s) and ('loop', ...)."""
        r = self.r
        out = []
        for _ in range(r.randrange(1, 5)):
            if level < 4 and r.random() < (.55 if level < 2 else .3):
                out.append(self.loop(level, names))
            else:
                out.append(self.literal(names))
        return out

    def values(self, n):
        """(n values, their text in one of the notations)"""
        r = self.r
        vals, parts = [], []
        while len(vals) < n:
            left = n - len(vals)
            k = r.random()
            if k < .5 or left == 1:
                v = r.choice(VALUES)
                vals.append(v)
                parts.append(r.choice(['', ' ']) + v + r.choice(['', ' ']))
            elif k < .7:
                q = r.randrange(2, left + 1)
                v = r.choice([x for x in VALUES if '*' not in x])
                vals += [v] * q
                parts.append(f' {v}*{q}')
            elif k < .85:
                q = r.randrange(1, left + 1)
                vals += [''] * q
                parts.append(f' ()*{q}')
            else:
                w = r.randrange(1, left + 1) if r.random() < .6 else 1
                q = r.randrange(1, left // w + 1) if r.random() < .7 else left // w
                g = [r.choice([x for x in VALUES if '*' not in x]) for _ in range(w)]
                vals += g * q
                parts.append('(' + r.choice([',', ', ']).join(g) + f')*{q}')
        assert len(vals) == n
        return vals, ','.join(parts)

    def loop(self, level, names):
        r = self.r
        self.nblocks += 1
        tag = str(level) if level else ''
        n = r.randrange(1, 6) if r.random() < .9 or level > 2 else r.randrange(10, 15)
        new = r.sample([x for x in NAMES if x not in names], r.randrange(1, 4)) if len(names) < len(NAMES) - 4 else []
        if not new:
            return self.literal(names)
        head = [f'/**begin repeat{tag}']
        table = {}
        for x in new:
            vals, txt = self.values(n)
            table[x] = vals
            if len(txt) > 12 and r.random() < .3 and ', ' in txt:
                i = txt.index(', ') + 1
                txt = txt[:i] + '\n' + ' *   ' + txt[i:].lstrip()
            head += (f' * #{x} ={r.choice(["", " "])}{txt}#').split('\n')
        ex = []
        if level and r.random() < .35:
            allnames = list(names) + new
            for _ in range(r.randrange(1, 3)):
                e = {}
                for x in r.sample(allnames, min(len(allnames), r.randrange(1, 3))):
                    pool = table[x] if x in table else self.seen[x]
                    v = r.choice(pool)
                    if re.fullmatch(r'\w+', v):
                        e[x] = v
                if e:
                    ex.append(e)
                    head.append(' * :exclude: ' + ', '.join(f'{k}={v}' for k, v in e.items()))
        head.append(' */')
        for h in head:
            self.put(h)
        self.seen.update(table)
        start = self.line
        b = self.body(level + 1, list(names) + new)
        self.put(f'/**end repeat{tag}**/')
        return ('loop', table, n, ex, start, b)

    def make(self):
        self.seen = {}
        body = self.body(0, [])
        return ''.join(self.text), body

    def expand(self, body, env, out, line):
        out.append(f'#line {line}')
        for x in body:
            if x[0] == 'text':
                s = x[1]
                for k, v in env.items():
                    s = s.replace(f'@{k}@', '\0' + v + '\0')
                out += s.replace('\0', '').split('\n')
                continue
            _, table, n, ex, start, b = x
            for i in range(n):
                e = dict(env, **{k: v[i] for k, v in table.items()})
                if any(all(e[k] == v for k, v in q.items()) for q in ex):
                    self.nex += 1
                    continue
                self.expand(b, e, out, start)
        return out


def clean(lines):
    return [' '.join(x.split()) for x in lines if x.strip()]


def one(ctx, case, m):
    g = Gen(case.r)
    text, body = g.make()
    want = clean(g.expand(body, {}, [], 1))
    ctx.note(text)
    ctx.ev()
    ctx.distinct(text)
    ctx.count('loops', g.nblocks)
    ctx.count('excluded', g.nex)
    if case.index % 400 == 0:
        ctx.count('command line')
        d = tempfile.mkdtemp(prefix='conv-', dir=os.getcwd())
        try:
            with open(os.path.join(d, 'q.c.src'), 'w') as f:
                f.write(text)
            os.mkdir(os.path.join(d, 'out'))
            p = subprocess.run([sys.executable, '-B', TOOL, os.path.join(d, 'q.c.src'), os.path.join(d, 'out')], capture_output=True, text=True, timeout=60)
            if p.returncode or os.listdir(os.path.join(d, 'out')) != ['q.c']:
                ctx.fail('main', f'status {p.returncode} {os.listdir(os.path.join(d, "out"))}\n{p.stderr[-600:]}\n{text}')
                return
            got = open(os.path.join(d, 'out', 'q.c')).read()
        finally:
            shutil.rmtree(d, ignore_errors=True)
    else:
        got = m.process_str(text)
    lines = clean(got.split('\n'))
    if '#line 1' not in lines:
        ctx.fail('start', f'no text before the first line: {got[:500]}')
        return
    lines = lines[lines.index('#line 1'):]
    if lines != want:
        k = next((i for i, (a, b) in enumerate(zip(lines, want)) if a != b), min(len(lines), len(want)))
        ctx.fail('expansion', f'line {k}: {lines[k - 1:k + 3]}, expected {want[k - 1:k + 3]}\n{text[:1800]}')
    if case.index < 2:
        ctx.sample(text, 2)


def invalid(ctx, case, m):
    """Unknown names, lists of different lengths and loops without names are refused."""
    r = case.r
    kind = case.index % 3
    g = Gen(r)
    if kind == 0:
        t = f'/**begin repeat\n * #a = {", ".join("123"[:r.randrange(1, 4)])}#\n */\n x @a@ @{r.choice(["b", "A", "aa", "a1"])}@\n/**end repeat**/\n'
    elif kind == 1:
        n = r.randrange(1, 4)
        t = f'/**begin repeat\n * #a ={g.values(n)[1]}#\n * #b ={g.values(n + r.randrange(1, 3))[1]}#\n */\n @a@@b@\n/**end repeat**/\n'
    else:
        t = '/**begin repeat\n * nothing\n */\n text\n/**end repeat**/\n'
    ctx.ev()
    ctx.distinct(t)
    ctx.note(t)
    try:
        m.process_str('int x;\n' * r.randrange(0, 3) + t)
    except ValueError:
        ctx.count('refused')
        return
    ctx.fail('accepted', f'accepted:\n{t}')


def includes(ctx, case, m):
    """process_file: included .src files are expanded in place."""
    r = case.r
    d = tempfile.mkdtemp(prefix='conv-', dir=os.getcwd())
    try:
        g, h = Gen(r), Gen(r)
        ti, bi = g.make()
        os.mkdir(os.path.join(d, 'sub'))
        inc = r.choice(['part.src', 'sub/part.c.src'])
        with open(os.path.join(d, inc), 'w') as f:
            f.write(ti)
        pre, post = 'int before;\n', 'int after;\n'
        inc_line = f'#include "{inc}"\n'
        with open(os.path.join(d, 'top.c.src'), 'w') as f:
            f.write(pre + inc_line + post)
        ctx.note(ti)
        ctx.ev()
        ctx.distinct(ti, 'inc')
        got = clean(m.process_file(os.path.join(d, 'top.c.src')).split('\n'))
        want = clean(m.process_str(pre + ti + post).split('\n'))
        ctx.count('included')
        if [x for x in got if not x.startswith('#line 1 "')] != want:
            ctx.fail('include', f'the file with an included template gives another result than the joined text\n{ti[:1500]}')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    sys.dont_write_bytecode = True
    m = load()
    ctx.each('template', ctx.n(12000, 300000), lambda case: one(ctx, case, m))
    ctx.each('invalid', ctx.n(900, 9000), lambda case: invalid(ctx, case, m))
    ctx.each('include', ctx.n(600, 6000), lambda case: includes(ctx, case, m))
