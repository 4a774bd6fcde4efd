"""Loading of the dumped monomorphic MIR (produced by /verif/mirdump)."""
import json


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns = d['fns']
        self.types = d['types']
        self.api = {(k.split('::')[-2], k.split('::')[-1]): v for k, v in d['roots'].items()
                    if k.split('::')[-1] in ('l', 'r') and '::api::' in '::' + k}
        self.allocs = d['allocs']
        self.roots = {k.split('::')[-1]: v for k, v in d['roots'].items()}
        for i, t in enumerate(self.types):
            t['id'] = i
            if 'w' in t:
                t['bits'] = 8 * t['w']
            if t['k'] == 'float':
                t['bits'] = int(t['n'][1:])
            if t['k'] in ('ref', 'ptr'):
                t['to'] = t['elem']
            if t['k'] == 'adt':
                t['kind'] = t['kind'].lower()
        for a in self.allocs:
            if a['k'] == 'mem':
                a.update(a['mem'])
        self._bypath = {}
        for f in self.fns:
            self._bypath.setdefault(f['path'], []).append(f['id'])

    def ty(self, i):
        return self.types[i]

    def root_callee(self, name):
        """The function a root wrapper calls: the last pddl callee in its body."""
        f = self.fns[self.roots[name]]
        out = []
        for b in f['body']['blocks']:
            t = b['t']
            if t[0] == 'call' and t[1][0] == 'k':
                ty = self.types[t[1][1]['ty']]
                if ty['k'] == 'fndef' and ty['inst'] is not None:
                    out.append(ty['inst'])
        return out[-1] if out else None

    def is_adt(self, tid, suffix):
        t = self.types[tid]
        return t['k'] == 'adt' and (t['path'] == suffix or t['path'].endswith('::' + suffix))
