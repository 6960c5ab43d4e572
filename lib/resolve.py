"""Finding the anchored functions by what they are (type + method, or free function name), not where they live."""
class Missing(Exception): pass

class Resolver:
    def __init__(self, P):
        self.P = P
        self.meth = {}
        for im in P.impls:
            t = im['self'].lstrip('&').split('<')[0]
            tn = t.split('::')[-1]
            for it in im['items']:
                if it in P.bodies:
                    self.meth.setdefault((tn, it.split('::')[-1]), []).append(it)
        self.free = {}
        for k, b in P.bodies.items():
            if b['kind'] in ('Fn', 'AssocFn'):
                self.free.setdefault(k.split('::')[-1], []).append(k)
        self.adtn = {}
        for p in P.adts: self.adtn.setdefault(p.split('::')[-1], []).append(p)
    def m(self, ty, name):
        c = sorted(set(self.meth.get((ty, name), [])))
        if len(c) == 1: return c[0]
        if len(c) > 1:
            c2 = [k for k in c if k not in self.P.auto]
            if len(c2) == 1: return c2[0]
            raise Missing('%s::%s is ambiguous' % (ty, name))
        raise Missing('method %s::%s' % (ty, name))
    def tm(self, ty, trait, name):
        for im in self.P.impls:
            t = im['self'].lstrip('&').split('<')[0].split('::')[-1]
            if t == ty and im['trait'] and im['trait'].split('::')[-1].split('<')[0] == trait:
                for it in im['items']:
                    if it.split('::')[-1] == name and it in self.P.bodies: return it
        raise Missing('<%s as %s>::%s' % (ty, trait, name))
    def f(self, name, hint=None):
        c = [k for k in self.free.get(name, []) if 'tests::' not in k]
        c2 = [k for k in c if self.P.bodies[k]['kind'] == 'Fn'] or c
        if hint: c2 = [k for k in c2 if hint in k] or c2
        if len(c2) == 1: return c2[0]
        if len(c2) > 1:
            raise Missing('function %s is ambiguous' % name)
        raise Missing('function %s' % name)
    def a(self, name, hint=None):
        c = self.adtn.get(name, [])
        loc = [p for p in c if p.startswith('crate::')] or c
        if hint: loc = [p for p in loc if hint in p] or loc
        if len(loc) == 1: return loc[0]
        raise Missing('type %s' % name)
