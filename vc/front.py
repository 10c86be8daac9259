"""Front end: the clang AST of /repo's current sources.

A generated translation unit first includes every header outside /repo that
the repository's files mention, and then, inside `namespace VRF`, the
repository's own source files and headers by #include.  The code between is
therefore the text of /repo, byte for byte; the only things dropped are the
bodies of library templates (modelled by contracts in lib.py) and preprocessor
branches not taken.  clang++ -ast-dump=json restricted to VRF yields exactly
the repository's declarations, with the template instantiations requested by
the driver file.
"""
import json, os, re, subprocess, sys, hashlib

REPO = os.environ.get('VERIF_REPO', '/repo')
INC = os.path.join(REPO, 'lib', 'include')
SRC = os.path.join(REPO, 'lib', 'src')
HERE = os.path.dirname(os.path.abspath(__file__))
CLANG = os.environ.get('VERIF_CLANG', 'clang++-18')


class Unsupported(Exception):
    """a construct outside the verifier's reach"""


_inc_re = re.compile(r'^\s*#\s*include\s*[<"]([^>"]+)[>"]', re.M)


def _scan(path, seen, ext):
    if path in seen:
        return
    seen.add(path)
    try:
        txt = open(path, errors='replace').read()
    except OSError:
        return
    for inc in _inc_re.findall(txt):
        cands = [os.path.join(INC, inc), os.path.join(os.path.dirname(path), inc)]
        for c in cands:
            if os.path.exists(c):
                _scan(os.path.realpath(c), seen, ext)
                break
        else:
            if inc not in ext:
                ext.append(inc)


def make_tu(files, driver=None, pre=()):
    ext, seen = [], set()
    paths = []
    for f in files:
        p = os.path.join(SRC, f) if f.endswith('.cpp') else os.path.join(INC, f)
        if not os.path.exists(p):
            raise Unsupported('source file %s does not exist' % p)
        paths.append(p)
        _scan(os.path.realpath(p), seen, ext)
    out = ['#include <bits/stdc++.h>']
    for e in list(pre) + ext:
        out.append('#if __has_include(<%s>)\n#include <%s>\n#endif' % (e, e))
    out.append('namespace VRF {')
    for p in paths:
        out.append('#include "%s"' % p)
    if driver:
        out.append('#include "%s"' % os.path.join(HERE, 'drivers', driver))
    out.append('}')
    return '\n'.join(out) + '\n'


class Decl:
    pass


class TU:
    """indexed AST of one translation unit"""

    def __init__(self, files, driver=None, tmp=None):
        import tempfile
        tu = make_tu(files, driver)
        d = tempfile.mkdtemp(prefix='vc-', dir=tmp)
        try:
            f = os.path.join(d, 'tu.cpp')
            open(f, 'w').write(tu)
            cmd = [CLANG, '-std=c++17', '-I' + INC, '-DXTENSOR_USE_XSIMD=0' if False else '-DVRF_TU', '-w',
                   '-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=VRF', f]
            r = subprocess.run(cmd, stdout=open(os.path.join(d, 'o.json'), 'w'), stderr=subprocess.PIPE, text=True)
            if r.returncode:
                raise Unsupported('clang rejects the translation unit:\n' + r.stderr[-3000:])
            txt = open(os.path.join(d, 'o.json')).read()
        finally:
            subprocess.run(['rm', '-rf', d])
        self.cmd = ' '.join(cmd[:-1])
        dec = json.JSONDecoder()
        pos = 0
        self.roots = []
        while True:
            while pos < len(txt) and txt[pos] in ' \n\r\t':
                pos += 1
            if pos >= len(txt):
                break
            o, pos = dec.raw_decode(txt, pos)
            self.roots.append(o)
        self.byid = {}
        self.funcs = []           # (qualified name, node)
        self.classes = {}         # id -> class node
        self.fields = {}          # class id -> list of field nodes
        self.parent = {}
        for r in self.roots:
            self._index(r, [], None)
        self._link()

    def _index(self, n, scope, cls, infn=None):
        k = n.get('kind')
        i = n.get('id')
        if i and k and (k.endswith('Decl')):
            self.byid[i] = n
        n['_scope'] = scope
        sc = scope
        if k in ('NamespaceDecl', 'CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'EnumDecl',
                 'ClassTemplatePartialSpecializationDecl'):
            sc = scope + [n.get('name', '')]
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            n['_infn'] = infn
            n['_fields'] = [c for c in n.get('inner', []) if c.get('kind') == 'FieldDecl']
            self.classes[i] = n
            cls = n
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl', 'CXXDestructorDecl'):
            n['_cls'] = cls
            n['_qual'] = '::'.join(x for x in scope[1:] + [n.get('name', '')] if x)
            self.funcs.append(n)
            infn = n
            sc = scope + [n.get('name', '')]
        for c in n.get('inner', []):
            if isinstance(c, dict):
                self._index(c, sc, cls, infn)

    def _link(self):
        # out-of-class definitions: same decl via previousDecl / parentDeclContextId
        self.defn = {}
        for f in self.funcs:
            if body_of(f) is not None:
                self.defn[f['id']] = f
                if f.get('previousDecl'):
                    self.defn[f['previousDecl']] = f
                    p = self.byid.get(f['previousDecl'])
                    if p is not None:
                        f['_decl'] = p
                        f['_cls'] = p.get('_cls')
                        f['_qual'] = p.get('_qual', f['_qual'])

    def cls_of_type(self, qt):
        pass

    def find(self, qual, pred=None, many=False):
        out = []
        for f in self.funcs:
            if f['_qual'] == qual and body_of(f) is not None and not is_pattern(f):
                if pred is None or pred(f):
                    out.append(f)
        uniq = []
        for f in out:
            if f not in uniq:
                uniq.append(f)
        if many:
            return uniq
        if not uniq:
            raise Unsupported('no definition of %s found' % qual)
        if len(uniq) > 1:
            raise Unsupported('%d definitions of %s' % (len(uniq), qual))
        return uniq[0]


def body_of(f):
    for c in f.get('inner', []):
        if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
            return c
    return None


def params_of(f):
    return [c for c in f.get('inner', []) if c.get('kind') == 'ParmVarDecl']


_pat = {}


def is_pattern(f):
    """a template pattern (contains unresolved constructs / dependent types)"""
    i = f['id']
    if i not in _pat:
        _pat[i] = _dependent(f)
    return _pat[i]


def _dependent(n):
    k = n.get('kind', '')
    if k in ('UnresolvedLookupExpr', 'UnresolvedMemberExpr', 'CXXDependentScopeMemberExpr',
             'CXXUnresolvedConstructExpr', 'DependentScopeDeclRefExpr', 'PackExpansionExpr'):
        return True
    t = n.get('type', {}).get('qualType', '') if isinstance(n.get('type'), dict) else ''
    if t == '<dependent type>' or 'type-parameter-' in t:
        return True
    for c in n.get('inner', []):
        if isinstance(c, dict) and c.get('kind') not in ('FullComment',) and _dependent(c):
            return True
    return False
