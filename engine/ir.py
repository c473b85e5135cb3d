"""Loading of the extracted program (JSON written by extractor/extract.cpp)."""
import json


class Program:
    """Union of several extracted translation units."""

    def __init__(self):
        self.funcs = {}
        self.records = {}
        self.enums = {}
        self.types = {}
        self.globals = {}
        self.files = []
        self.byq = {}

    def add(self, path):
        with open(path) as f:
            d = json.load(f)
        # variable ids are only unique within one unit: make them globally unique
        off = (len(self.files) + 1) * 1000000
        self.files.append(path)
        for fid, f in d['funcs'].items():
            if fid in self.funcs and self.funcs[fid].get('body'):
                continue
            _shift(f, off)
            self.funcs[fid] = f
            self.byq.setdefault(f['q'], [])
            if fid not in self.byq[f['q']]:
                self.byq[f['q']].append(fid)
        for k in ('records', 'enums', 'types'):
            t = getattr(self, k)
            for n, v in d[k].items():
                if k == 'types' and v.get('k') == 'record' and '(lambda' in n:
                    continue
                if n not in t or (k == 'records' and not t[n].get('fields') and v.get('fields')):
                    t[n] = v
                    if k == 'records':
                        _shift(v, off)
        for n, v in d['globals'].items():
            if not v:
                continue
            if n not in self.globals or (not self.globals[n].get('init') and v.get('init')):
                _shift(v, off)
                self.globals[n] = v
        return d['errors']

    # ---- types
    def ty(self, t):
        r = self.types.get(t)
        if r is None:
            r = self.types.get('const ' + t)
            if r is not None and r['k'] in ('ref', 'rref', 'ptr'):
                r = None
        if r is None and t in self.records:
            r = {'k': 'record', 'name': t, 'tmpl': self.records[t].get('tmpl')}
        return r or {'k': '?', 'name': t}

    def noref(self, t):
        i = self.ty(t)
        while i['k'] in ('ref', 'rref'):
            t = i['to']
            i = self.ty(t)
        return t

    def norm(self, t):
        """Type without references and top-level const."""
        t = self.noref(t)
        i = self.ty(t)
        if i['k'] in ('record', 'enum'):
            return i['name']
        if t.startswith('const ') and i['k'] in ('bool', 'int', 'float'):
            return t[6:]
        return t

    def isref(self, t):
        return self.ty(t)['k'] in ('ref', 'rref')

    def record(self, t):
        n = self.norm(t)
        return self.records.get(n)

    def tmpl(self, t):
        i = self.ty(self.noref(t))
        return i.get('tmpl') or i.get('name') or t

    def bases(self, name, out=None):
        """name and all its (transitive) bases"""
        out = out if out is not None else []
        if name in out:
            return out
        out.append(name)
        r = self.records.get(name)
        if r:
            for b in r.get('bases', []):
                self.bases(self.norm(b), out)
        return out

    def fields(self, name):
        """[(declaring class, field, type, init)] base classes first"""
        r = self.records.get(name)
        res = []
        if not r:
            return res
        for b in r.get('bases', []):
            res += self.fields(self.norm(b))
        for f in r.get('fields', []):
            res.append((name, f['n'], f['t'], f.get('init')))
        return res


def _shift(o, off):
    if isinstance(o, dict):
        for k in ('id', 'cls', 'lambda'):
            if type(o.get(k)) is int:
                o[k] += off
        for v in o.values():
            if isinstance(v, (dict, list)):
                _shift(v, off)
    elif isinstance(o, list):
        for v in o:
            if isinstance(v, (dict, list)):
                _shift(v, off)
