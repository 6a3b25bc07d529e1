"""C24: the template tool rewrites only the marked blocks."""
import contextlib
import io
import os
import sangfroid
from sangfroid.template.replacer import Replacer
from . import core, model
from .core import workload, rule
from .common import *

rule('C24', '''
Random source files with marked blocks (named, unnamed, of unknown names, empty, at any indentation, with awkward contents and markers with extra text) and random replacement texts: the result of handle() is
judged line by line against an independent rewriting built along with the file; then run again, which must change nothing more; files with nothing to replace must keep their contents, inode and modification time;
files which are malformed in one of four ways must be refused and kept as they were; and whole trees by handle_all_files(). All in scratch directories.
Non-trivial: at least one block in the file. Distinct by file and replacement.''',
     required=['rewritten', 'run twice', 'named blocks replaced', 'unnamed blocks replaced', 'other blocks left', 'untouched files', 'refused: unnamed', 'refused: unclosed', 'refused: not opened', 'refused: nested', 'several blocks of one name',
               'whole trees', 'files outside the pattern', 'end markers aligned', 'no litter'],
     assumptions=['Files have LF line endings; the insides of blocks, and replacement texts, hold no markers and no class lines in the first column'])

NAMES = ['foo', 'bar', 'Circle', 'Text_2', 'x', '_private', 'Group', 'A1', 'FOO']
LINES = ['', 'x = 5', '    pass', '# a comment', '## {{{ foo', '### {{ foo', '#### {{{ foo', '# ### {{{ foo', '\t### {{{ foo', '### {{{foo'.replace('### ', '###'), "'''", 'é = "日本語 🐨"', '    def f(self):', '        return "### }}}"', '   ', 'x = 1   ', '\tx',
         'print("### {{{")', '###', '}}}', '{{{', '### }} }', '###  }}}', '\\', '%s {} {0} \\1 \\g<0>', '  class Inner:', 'classy = 1', '# class X', 'x\x0cy', '  ##  ']
TEXTS = ['', 'y = 6', 'a\nb\nc', 'first\n\nthird', '    indented\nnot', 'trailing\n', '\nleading', 'é 日本語', 'spaces   \nx', '\\1 \\g<0> %s {}', '# comment', '\n', 'x = """\n  hi\n"""', 'class_ = 1', '    class Inner:\n        pass', '## }}}', '}}}']


class Source:
    """A random file, and what it should become."""
    def __init__(self, rng, fields, size=None, replacing=None):
        self.before, self.after, self.plan = [], [], []
        self.rng, self.fields = rng, fields
        self.latest = None
        self.replaced = 0
        self.blocks = 0
        names = set(NAMES)
        for _ in range(size if size is not None else rng.randrange(1, 12)):
            r = rng.random()
            if r<0.45:
                self.plain()
            elif r<0.6:
                self.klass()
            else:
                self.block(replacing)

    def both(self, line):
        self.before.append(line)
        self.after.append(line)

    def plain(self):
        for _ in range(self.rng.randrange(1, 4)):
            self.both(self.rng.choice(LINES))

    def klass(self):
        name = self.rng.choice(NAMES)
        self.both(f'class {name}'+self.rng.choice([':', '(Layer):', '(object): pass', ' :']))
        self.latest = name

    def block(self, replacing):
        rng = self.rng
        indent = ' '*rng.choice([0, 4, 4, 4, 8, 3])
        name = rng.choice(NAMES)
        if replacing is False:
            name = rng.choice([n for n in NAMES if n not in self.fields])
        unnamed = self.latest is not None and rng.random()<0.4
        if unnamed and replacing is False and self.latest in self.fields:
            unnamed = False
        if unnamed:
            start = indent+'### {{{'+rng.choice(['', ' ', '  ', ' - a note'])
            name, self.latest = self.latest, None
        else:
            start = indent+'### {{{'+rng.choice([' ', ' ', '', '   '])+name+rng.choice(['', '', ' ', ' and more', ':'])
        self.blocks += 1
        self.both(start)
        old = [rng.choice(LINES) for _ in range(rng.randrange(0, 5))]
        self.before += old
        if name in self.fields:
            self.after += [('new', indent+l) for l in self.fields[name].split('\n')]
            self.replaced += 1
            self.plan.append(('unnamed ' if unnamed else 'named ')+name)
        else:
            self.after += old
            self.plan.append('left '+name)
        end = '### }}}'+rng.choice(['', '', ' ', ' '+name])
        theirs = rng.choice([indent, indent, indent, '', '    ', '  '])
        self.before.append(theirs+end)
        self.after.append(('end', indent+end.strip(), theirs!=indent))

    def text(self):
        return '\n'.join(self.before)+'\n'


def judge(case, got, source, what):
    lines = got.split('\n')
    case.equal(lines[-1], '', f'{what}: no newline at the end')
    lines = lines[:-1]
    want = [l if isinstance(l, str) else l[1] for l in source.after]
    case.check(len(lines)==len(want), f'{what}: {len(lines)} lines, not {len(want)}', f'before: {source.before}', f'got:  {lines}', f'want: {want}')
    for i, (g, w) in enumerate(zip(lines, source.after)):
        if isinstance(w, str):
            case.check(g==w, f'{what}: line {i} should have been left alone', f'got  {g!r}', f'want {w!r}')
        elif w[0]=='new':
            case.check(g.rstrip()==w[1].rstrip(), f'{what}: line {i} of a replaced block is wrong', f'got  {g!r}', f'want {w[1]!r}')
        else:
            case.check(g.rstrip()==w[1].rstrip(), f'{what}: line {i}, a closing marker, is wrong', f'got  {g!r}', f'want {w[1]!r}')
            if w[2]:
                case.saw('end markers aligned')


def fields(rng):
    return {n: rng.choice(TEXTS) for n in rng.sample(NAMES, rng.randrange(1, 5))}


def run(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


def read(fn):
    with open(fn, encoding='utf-8', newline='') as f:
        return f.read()


def stat(fn):
    s = os.stat(fn)
    return s.st_ino, s.st_mtime_ns, s.st_size, s.st_ctime_ns


def put(case, name, text):
    fn = case.path(name)
    os.makedirs(os.path.dirname(fn), exist_ok=True)
    with open(fn, 'w', encoding='utf-8', newline='') as f:
        f.write(text)
    return fn


def make(rng, fs):
    if rng.random()<0.5:
        return Replacer(dict(fs))
    r = Replacer()
    for k, v in fs.items():
        r.add(k, v)
    return r


def litter(case, want):
    """Nothing but what should be there."""
    found = set()
    for d, _, files in os.walk(case.scratch):
        found |= {os.path.relpath(os.path.join(d, f), case.scratch) for f in files}
    case.equal(found, set(want), 'files were left behind, or lost')
    case.saw('no litter')


@workload('C24', 4000, 100000)
def one_file(case):
    rng = case.rng
    fs = fields(rng)
    source = Source(rng, fs, replacing=False if rng.random()<0.15 else None)
    fn = put(case, 'a.py', source.text())
    before, s = source.text(), stat(fn)
    case.did(f'{source.before} with {fs}')
    replacer = make(rng, fs)
    run(lambda: replacer.handle(fn))
    got = read(fn)
    if not source.replaced:
        case.equal(got, before, 'a file with nothing to replace was changed')
        case.equal(stat(fn), s, 'a file with nothing to replace was touched')
        case.saw('untouched files')
    else:
        judge(case, got, source, 'rewritten')
        case.saw('rewritten')
    for p in source.plan:
        case.saw({'named': 'named blocks replaced', 'unnamed': 'unnamed blocks replaced', 'left': 'other blocks left'}[p.split()[0]])
    names = [p.split()[1] for p in source.plan if not p.startswith('left')]
    if len(names)!=len(set(names)):
        case.saw('several blocks of one name')
    for again in (replacer, make(rng, fs)):
        run(lambda: again.handle(fn))
        case.equal(read(fn), got, 'running it again changed the file')
    case.saw('run twice')
    litter(case, ['a.py'])
    if source.blocks:
        case.distinct((source.before, sorted(fs.items())))


@workload('C24', 1500, 36000)
def malformed(case):
    rng = case.rng
    fs = fields(rng)
    source = Source(rng, fs, size=rng.randrange(0, 5))
    after = Source(rng, fs, size=rng.randrange(0, 4), replacing=None)
    known = rng.choice(sorted(fs))
    name = rng.choice([known, rng.choice(NAMES)])
    how = rng.choice(['unnamed', 'unclosed', 'not opened', 'nested'])
    lines = list(source.before)
    inner = [rng.choice(LINES) for _ in range(rng.randrange(0, 3))]
    if how=='unnamed':
        if source.latest is not None:
            # use up the name
            lines += ['    ### {{{', '    ### }}}']
        lines += ['    ### {{{']+inner+['    ### }}}']
        lines += after.before
    elif how=='unclosed':
        lines += [f'    ### {{{{{{ {name}']+inner
    elif how=='not opened':
        lines += inner+['    ### }}}']+inner
        lines += after.before
    else:
        lines += [f'### {{{{{{ {name}']+inner+[f'    ### {{{{{{ {rng.choice(NAMES)}']+inner+['    ### }}}']+inner+(['### }}}'] if rng.random()<0.5 else [])
        lines += after.before
    text = '\n'.join(lines)+'\n'
    fn = put(case, 'a.py', text)
    s = stat(fn)
    case.did(f'{how}: {lines} with {fs}')
    replacer = make(rng, fs)
    case.raises(lambda: run(lambda: replacer.handle(fn)), ValueError, f'a file was not refused ({how})', text)
    case.equal(read(fn), text, f'a file which was refused ({how}) was changed')
    case.equal(stat(fn), s, f'a file which was refused ({how}) was touched')
    litter(case, ['a.py'])
    case.saw(f'refused: {how}')
    case.distinct((lines, sorted(fs.items())))


@workload('C24', 400, 9000)
def trees(case):
    rng = case.rng
    fs = fields(rng)
    files = {}
    for name in rng.sample(['sangfroid/a.py', 'sangfroid/b.py', 'sangfroid/layer/c.py', 'sangfroid/layer/deep/d.py', 'sangfroid/__init__.py', 'sangfroid/value/e.py'], rng.randrange(1, 5)):
        files[name] = Source(rng, fs)
    outside = {}
    for name in rng.sample(['other.py', 'sangfroid/notes.txt', 'bywords/a.py', 'sangfroid/a.py.bak', 'sangfroid/x.pyc', 'test/sangfroid.py'], rng.randrange(1, 4)):
        outside[name] = Source(rng, fs)
    before = {}
    for name, s in {**files, **outside}.items():
        fn = put(case, name, s.text())
        before[name] = stat(fn)
    case.did(f'{sorted(files)} {sorted(outside)} {fs}')
    old = os.getcwd()
    os.chdir(case.scratch)
    try:
        run(lambda: make(rng, fs).handle_all_files())
    finally:
        os.chdir(old)
    for name, s in files.items():
        got = read(case.path(name))
        if s.replaced:
            judge(case, got, s, name)
            case.saw('rewritten')
        else:
            case.check(got==s.text() and stat(case.path(name))==before[name], f'{name} had nothing to replace but was touched')
            case.saw('untouched files')
    for name, s in outside.items():
        case.check(read(case.path(name))==s.text() and stat(case.path(name))==before[name], f'{name} is no source file of ours, but was touched')
        case.saw('files outside the pattern')
    litter(case, list(files)+list(outside))
    case.saw('whole trees')
    case.distinct((sorted(files), sorted(outside), sorted(fs.items()), [s.before for s in files.values()]))
