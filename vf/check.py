"""python3 -m vf.check PROPERTY quick|thorough"""
import json, os, sys, time, traceback
from . import ir
from .eng import AnalysisBroken

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
EVDIR = os.environ.get('VF_EVIDENCE', os.path.join(ROOT, 'evidence'))


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop; self.tier = tier; self.repo = REPO
        self.mods = {}
        self.configs = ['default']
        if tier == 'thorough':
            self.configs = ['default', 'nodebug', 'fsync']

    def mod(self, config='default', cli=False):
        k = (config, cli)
        if k not in self.mods:
            self.mods[k] = ir.load(REPO, config, cli)
        return self.mods[k]

    def result(self):
        return Result(self)


class Result:
    def __init__(self, ctx):
        self.ctx = ctx
        self.v = {}
        self.notes = {}
        self.fns = set(); self.nblocks = 0; self.nstates = 0
        self.sites = 0
        self.obl = {}
        self.undecided = []

    def viol(self, rule, fn, loc, msg, path=(), key=None):
        k = (rule, loc, key)
        if k not in self.v:
            self.v[k] = dict(rule=rule, function=fn, location=loc,
                             message=msg, path=list(path))

    def take(self, T, reports=True):
        self.fns |= T.seen_fns
        self.nblocks += len(T.blocks)
        self.nstates += T.nstates
        self.sites += len(T.calls)
        for k, n in T.obl.items():
            self.obl[k] = self.obl.get(k, 0) + n
        if reports:
            for (rule, loc, key), (r, fn, l, msg, path) in T.reports.items():
                self.viol(rule, fn, loc, msg, path, key)

    def note(self, k, v):
        self.notes[k] = v

    def need(self, what, n, least=1):
        self.notes.setdefault('instances', {})[what] = n
        if n < least:
            raise AnalysisBroken('only %d %s found (at least %d expected)'
                                 % (n, what, least))


def known():
    out = []
    p = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    for line in open(p):
        line = line.strip()
        if line.startswith('finding:'):
            d = dict(x.split('=', 1) for x in line[8:].split('|')
                     if '=' in x)
            out.append({k.strip(): v.strip() for k, v in d.items()})
    return out


def main():
    prop, tier = sys.argv[1], (sys.argv[2:] or ['quick'])[0]
    t0 = time.time()
    from . import props
    sys.setrecursionlimit(20000)
    ctx = Ctx(prop, tier)
    spec = props.PROPS[prop]
    try:
        res = spec['run'](ctx)
        err = None
    except AnalysisBroken as x:
        res, err = None, 'analysis gave up: %s %s' % (
            x, getattr(x, 'where', ''))
    except ir.FrontEndError as x:
        res, err = None, 'front end: %s' % x
    except Exception:
        res, err = None, traceback.format_exc(limit=-6)
    wall = time.time() - t0
    os.makedirs(EVDIR, exist_ok=True)
    ev = os.path.join(EVDIR, prop + '.json')
    if res is None:
        sys.stderr.write(err + '\n')
        json.dump(dict(property=prop, tier=tier, seed=seed(), level='other',
                       coverage=dict(explanation='no answer: ' + err),
                       wall_s=round(wall, 3), violations=0),
                  open(ev, 'w'), indent=1)
        print('ERROR property=%s %s' % (prop, err.splitlines()[-1]))
        sys.exit(2)
    viols = sorted(res.v.values(), key=lambda d: (d['location'], d['rule'],
                                                  d['message']))
    kf = [k for k in known() if k.get('property') == prop]
    new = []
    for v in viols:
        hit = None
        for k in kf:
            if k.get('rule') == v['rule'] and \
                    k.get('function') == v['function'] and \
                    k.get('match', '') in v['message']:
                hit = k
        if hit:
            print('KNOWN-FINDING: property=%s %s: %s' % (
                prop, v['location'], v['message']))
        else:
            new.append(v)
    kinds = {}
    for (k, fn, loc), n in res.obl.items():
        kinds.setdefault(k, set()).add((fn, loc))
    cov = dict(
        explanation=spec['explain'],
        rule=spec['rule'],
        configurations=ctx.configs if not spec.get('cli') else
        ['cli'] + ctx.configs,
        functions_analysed=len(res.fns),
        function_names=sorted(res.fns),
        basic_blocks=res.nblocks,
        abstract_instructions=res.nstates,
        call_sites=res.sites,
        obligations={k: len(v) for k, v in sorted(kinds.items())},
        undecided=res.undecided,
        details=res.notes)
    json.dump(dict(property=prop, tier=tier, seed=seed(), level='other',
                   coverage=cov, wall_s=round(wall, 3),
                   violations=len(new)), open(ev, 'w'), indent=1,
              default=str)
    for v in new:
        print('%s: [%s] %s (in %s)' % (v['location'], v['rule'],
                                       v['message'], v['function']))
        for p in v['path']:
            print('    ' + p)
    if new:
        rp = os.path.join(EVDIR, prop + '.violations.json')
        json.dump(dict(property=prop, how='static: rerun `python3 -m '
                       'vf.check %s %s` in /verif' % (prop, tier),
                       violations=new), open(rp, 'w'), indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        sys.exit(1)
    print('OK property=%s tier=%s functions=%d obligations=%d %.1fs' % (
        prop, tier, len(res.fns), sum(len(v) for v in kinds.values()), wall))
    sys.exit(0)


def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '0'))
    except ValueError:
        return 0


if __name__ == '__main__':
    main()
