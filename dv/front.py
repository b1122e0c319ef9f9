"""Front end: the real sources in /repo, through clang's AST, on every run.

Nothing is copied by hand: each translation unit is parsed by clang (release
configuration, NDEBUG, OpenMP on), its JSON AST is loaded, and functions are
looked up by mangled name, across translation units.
"""
import json, os, subprocess, re, hashlib

REPO = os.environ.get('DV_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))

CLANG = ['clang++', '-fopenmp', '-std=c++11', '-DNDEBUG', '-fsyntax-only', '-w',
         '-I' + os.path.join(HERE, 'stub'), '-Xclang', '-ast-dump=json',
         '-Xclang', '-ast-dump-filter=']


class FrontError(Exception):
    pass


def _docs(text):
    dec = json.JSONDecoder()
    i, n = 0, len(text)
    out = []
    while True:
        while i < n and text[i] in ' \r\n\t':
            i += 1
        if i >= n:
            return out
        if text[i] != '{':              # a "Dumping ..." banner line
            j = text.find('\n', i)
            i = n if j < 0 else j + 1
            continue
        d, i = dec.raw_decode(text, i)
        out.append(d)


class TU:
    """One parsed translation unit."""

    def __init__(self, path, filt='SpMP', defines=(), debug=False):
        self.path = path
        cmd = [c for c in CLANG[:-1] if not (debug and c == '-DNDEBUG')] + [CLANG[-1] + filt] + ['-D' + d for d in defines] + [path]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise FrontError('clang rejects %s:\n%s' % (path, p.stderr.decode(errors='replace')[-3000:]))
        self.docs = _docs(p.stdout.decode(errors='replace'))
        self.byid = {}
        self.funcs = {}        # mangled -> definition node
        self.records = {}
        self.globals_ = {}
        self._src = {}
        self._file = path
        self._line = 0
        for d in self.docs:
            self._walk(d, [])

    def src(self, f):
        if f not in self._src:
            try:
                self._src[f] = open(f, 'rb').read()
            except OSError:
                self._src[f] = b''
        return self._src[f]

    def _loc(self, l):
        if not isinstance(l, dict):
            return
        for k in ('spellingLoc', 'expansionLoc'):
            if k in l:
                self._loc(l[k])
        if 'file' in l:
            self._file = l['file']
        if 'line' in l:
            self._line = l['line']

    def _walk(self, n, path):
        if not isinstance(n, dict):
            return
        self._loc(n.get('loc'))
        r = n.get('range')
        if r:
            self._loc(r.get('begin'))
            n['_file'], n['_line'] = self._file, self._line
            self._loc(r.get('end'))
        else:
            n['_file'], n['_line'] = self._file, self._line
        k = n.get('kind', '')
        if 'id' in n and k.endswith('Decl'):
            old = self.byid.get(n['id'])
            if old is None or len(n) > len(old):
                self.byid[n['id']] = n
            n['_path'] = path
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl'):
            if any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', [])):
                m = n.get('mangledName')
                if m and m not in self.funcs and not any(p == '<template>' for p in path):
                    self.funcs[m] = n
        if k == 'CXXRecordDecl' and 'name' in n and n.get('inner'):
            self.records.setdefault(n['name'], n)
        sub = path
        if k in ('NamespaceDecl', 'CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'FunctionDecl', 'CXXMethodDecl'):
            sub = path + [n.get('name', '')]
        inner = n.get('inner', [])
        if k == 'FunctionTemplateDecl':
            first = True
            for c in inner:
                if c.get('kind') in ('FunctionDecl', 'CXXMethodDecl') and first:
                    first = False
                    # the uninstantiated pattern: keep ids, drop as definition
                    self._walk(c, path + ['<template>'])
                else:
                    self._walk(c, sub)
            return
        for c in inner:
            self._walk(c, sub)

    def text(self, n):
        r = n.get('range')
        if not r:
            return ''
        def off(l, end):
            if 'expansionLoc' in l:
                l = l['expansionLoc']
            return l.get('offset', 0) + (l.get('tokLen', 0) if end else 0)
        s = self.src(n['_file'])
        return s[off(r['begin'], False):off(r['end'], True)].decode(errors='replace')

    def line_text(self, n):
        """the full (continued) source line a directive starts on"""
        r = n['range']['begin']
        if 'expansionLoc' in r:
            r = r['expansionLoc']
        s = self.src(n['_file'])
        o = r.get('offset', 0)
        a = s.rfind(b'\n', 0, o) + 1
        b = a
        while True:
            e = s.find(b'\n', b)
            if e < 0:
                e = len(s)
                break
            if s[e - 1:e] == b'\\':
                b = e + 1
                continue
            break
        return s[a:e].replace(b'\\\n', b' ').decode(errors='replace')


class Program:
    def __init__(self, files=(), extra_filters=None, defines=(), debug_files=(), debug=False):
        self.tus = {}
        self.isdebug = debug
        # the same sources with assertions enabled
        self.debug = Program(debug_files, extra_filters, defines, debug=True) if debug_files else None
        self.defines = defines
        self.extra = extra_filters or {}
        for f in files:
            self.tu(f)

    def tu(self, f):
        if f not in self.tus:
            self.tus[f] = TU(os.path.join(REPO, f), self.extra.get(f, 'mm_' if f.startswith('mm_') else 'SpMP'), self.defines, self.isdebug)
        return self.tus[f]

    def find(self, mangled, prefer=None):
        if prefer is not None and mangled in prefer.funcs:
            return prefer, prefer.funcs[mangled]
        for t in self.tus.values():
            if mangled in t.funcs:
                return t, t.funcs[mangled]
        return None, None

    def source_hash(self):
        h = hashlib.sha256()
        for f in sorted(self.tus):
            h.update(self.tus[f].src(self.tus[f].path))
        return h.hexdigest()[:16]


def qualname(n):
    return '::'.join([p for p in n.get('_path', []) if p and p != '<template>'] + [n.get('name', '')])


def template_args(n):
    out = []
    for c in n.get('inner', []):
        if c.get('kind') == 'TemplateArgument':
            if 'value' in c:
                out.append(str(c['value']))
            elif 'type' in c:
                out.append(c['type'].get('qualType', '?'))
            else:
                out.append('?')
    return out
